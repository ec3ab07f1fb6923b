// C10: PCA projects on the leading orthonormal directions of the data.
package c10

import (
	"math"
	"testing"

	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func TestPCA(t *testing.T) {
	vk.Prop(t, 1200, "tall and wide data, number of components or variance ratio given or not; non-trivial: fewer components than features", func(c *vk.C) {
		n, p := c.Huge("n", 1, 12, 20, 150), c.Huge("p", 1, 8, 12, 100)
		kind := c.Pick("kind", vk.Gauss, vk.Unif, vk.Grid, vk.Scaled)
		X := c.Mat("X", n, p, kind)
		full := n
		if p < n {
			full = p
		}
		if mat.Norm(X, 2) < 1e-6 {
			X.Set(0, 0, 1)
		}
		m := pp.NewPCA()
		mode := c.Pick("mode", "all", "n", "ratio")
		switch mode {
		case "n":
			m.NComponents = c.Int("k", 1, full)
		case "ratio":
			m.MinVarianceRatio = c.PickF("ratio", 0.1, 0.5, 0.9, 0.99)
		}
		l := c.Lay("X", X, true)
		dirty := c.Bool("refit") && mode != "all"
		if dirty {
			m.Fit(c.Mat("D", full+1, full+2, vk.Gauss), nil)
		}
		m.Fit(l.M, nil)
		// reference spectrum: eigenvalues of X'X
		var G mat.Dense
		G.Mul(X.T(), X)
		sym := mat.NewSymDense(p, nil)
		for i := 0; i < p; i++ {
			for j := i; j < p; j++ {
				sym.SetSym(i, j, (G.At(i, j)+G.At(j, i))/2)
			}
		}
		var es mat.EigenSym
		if !es.Factorize(sym, false) {
			c.Fatalf("reference eigenvalues")
		}
		ev := es.Values(nil) // ascending
		tot := 0.
		for _, e := range ev {
			tot += math.Max(e, 0)
		}
		if len(m.SingularValues) != full || len(m.ExplainedVarianceRatio) != full {
			c.Fatalf("%d singular values, %d ratios, want %d", len(m.SingularValues), len(m.ExplainedVarianceRatio), full)
		}
		for k := 0; k < full; k++ {
			e := math.Max(0, ev[p-1-k])
			c.EqF("squared singular value", m.SingularValues[k]*m.SingularValues[k], e, 1e-7, 1e-8*tot)
			c.EqF("explained ratio", m.ExplainedVarianceRatio[k], e/tot, 1e-7, 1e-8)
		}
		k := m.NComponents
		switch mode {
		case "all":
			if k != full {
				c.Fatalf("%d components, want %d", k, full)
			}
		case "ratio":
			s := 0.
			for q := 0; q < k; q++ {
				if q == k-1 && s >= m.MinVarianceRatio {
					c.Fatalf("%d components although %d already reach %g", k, q, m.MinVarianceRatio)
				}
				s += m.ExplainedVarianceRatio[q]
			}
			if s < m.MinVarianceRatio {
				c.Fatalf("%d components only explain %g of %g", k, s, m.MinVarianceRatio)
			}
		}
		c.Mark(k < p, "%s %s %s k=%d refit=%v %s", kind, l.Name, mode, k, dirty, vk.M(X))
		// the projection matrix is what identity rows are sent to
		I := vk.Apply(mat.NewDense(p, p, nil), func(i, j int, _ float64) float64 {
			if i == j {
				return 1
			}
			return 0
		})
		V, _ := m.Transform(I, nil)
		if r, cc := V.Dims(); r != p || cc != k {
			c.Fatalf("projection %dx%d, want %dx%d", r, cc, p, k)
		}
		var VtV mat.Dense
		VtV.Mul(V.T(), V)
		c.Eq("orthonormal directions", &VtV, I.Slice(0, k, 0, k), 1e-8, 1e-8)
		T, TY := m.Transform(l.M, mat.NewDense(1, 1, []float64{7}))
		var W mat.Dense
		W.Mul(X, V)
		c.Eq("projection is linear", T, &W, 1e-8, 1e-8*math.Sqrt(tot))
		c.Eq("Y", TY, mat.NewDense(1, 1, []float64{7}), 0, 0)
		for q := 0; q < k; q++ { // column q carries the q-th singular value, columns are orthogonal
			for s := 0; s <= q; s++ {
				dot := mat.Dot(T.ColView(q), T.ColView(s))
				want := 0.
				if s == q {
					want = math.Max(0, ev[p-1-q])
				}
				c.EqF("scatter of the projections", dot, want, 1e-7, 1e-7*tot)
			}
		}
		lt := c.Lay("T", T, false)
		B, _ := m.InverseTransform(lt.D, nil)
		var R mat.Dense
		R.Mul(T, V.T())
		c.Eq("reconstruction", B, &R, 1e-8, 1e-8*math.Sqrt(tot))
		// residual energy = the spectrum left out
		var D mat.Dense
		D.Sub(X, B)
		left := 0.
		for q := k; q < p; q++ {
			left += math.Max(0, ev[p-1-q])
		}
		c.EqF("residual energy", math.Pow(mat.Norm(&D, 2), 2), left, 1e-6, 1e-6*tot)
		c.Unchanged("PCA", l, lt)
	})
}
