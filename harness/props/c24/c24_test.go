// C24: least squares and ridge regressions reach the optimum of their objective.
package c24

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// design draws features, some of them constant, repeated or combinations of others.
func design(c *vk.C, label string, n, p int, kind string, degenerate bool) *mat.Dense {
	X := c.Mat(label, n, p, kind)
	if degenerate {
		r := c.Rnd(label + "deg")
		for j := 1; j < p; j++ {
			switch r.Intn(4) {
			case 0: // constant
				for i := 0; i < n; i++ {
					X.Set(i, j, 3)
				}
			case 1: // repeated
				for i := 0; i < n; i++ {
					X.Set(i, j, X.At(i, r.Intn(1)))
				}
			case 2: // multiple of the first plus a constant, exactly representable steps
				for i := 0; i < n; i++ {
					X.Set(i, j, 2*X.At(i, 0))
				}
			}
		}
	}
	return X
}

func linear(X, coef, icpt mat.Matrix) *mat.Dense {
	n, p := X.Dims()
	_, o := coef.Dims()
	return vk.Apply(mat.NewDense(n, o, nil), func(i, k int, _ float64) float64 {
		v := icpt.At(0, k)
		for j := 0; j < p; j++ {
			v += X.At(i, j) * coef.At(j, k)
		}
		return v
	})
}

func r2(Y, P mat.Matrix) float64 {
	n, o := Y.Dims()
	s := 0.
	for k := 0; k < o; k++ {
		m, _ := vk.MeanVar(vk.Col(Y, k))
		a, b := 0., 0.
		for i := 0; i < n; i++ {
			a += math.Pow(Y.At(i, k)-P.At(i, k), 2)
			b += math.Pow(Y.At(i, k)-m, 2)
		}
		s += 1 - a/b
	}
	return s / float64(o)
}

func common(c *vk.C, m base.Predicter, coef, icpt *mat.Dense, X, Y *mat.Dense) {
	n, p := X.Dims()
	_, o := Y.Dims()
	if r, cc := coef.Dims(); r != p || cc != o || !vk.Finite(coef) || !vk.Finite(icpt) {
		c.Fatalf("coef %s intercept %s", vk.M(coef), vk.M(icpt))
	}
	if m.IsClassifier() || m.GetNOutputs() != o {
		c.Fatalf("IsClassifier %v, GetNOutputs %d", m.IsClassifier(), m.GetNOutputs())
	}
	sc := 1 + mat.Norm(coef, math.Inf(1))*10
	q := c.Int("q", 1, 6)
	Q := c.Mat("Q", q, p, vk.Unif)
	lq, d := c.Lay("Q", Q, true), c.Dst("P", q, o)
	c.EqDst("Predict", m.Predict(lq.M, d.M), d, linear(Q, coef, icpt), 1e-9, 1e-9*sc)
	c.Unchanged("Predict", lq)
	for k := 0; k < o; k++ {
		if vk.IsConst(vk.Col(Y, k)) {
			return
		}
	}
	lx, ly := c.Lay("X2", X, true), c.Lay("Y2", Y, true)
	c.EqF("Score", m.Score(lx.M, ly.M), r2(Y, linear(X, coef, icpt)), 1e-6, 1e-6)
	c.Unchanged("Score", lx, ly)
	_ = n
}

func colNorm(X mat.Matrix, j int) float64 {
	s := 0.
	for _, v := range vk.Col(X, j) {
		s += v * v
	}
	return math.Sqrt(s)
}

func TestLinearRegression(t *testing.T) {
	vk.Prop(t, 4000, "designs of any shape and rank (constant, repeated, proportional columns, fewer rows than columns), several outputs, options, storage, refits and clones; non-trivial: more rows than columns and at least 2 columns", func(c *vk.C) {
		n, p, o := c.Size("n", 1, 12, 80), c.Size("p", 1, 6, 10), c.Huge("o", 1, 3, 5, 100)
		kind := c.Pick("kind", vk.Grid, vk.Unif, vk.Gauss, vk.Scaled)
		X := design(c, "X", n, p, kind, c.Bool("degenerate"))
		Y := c.Mat("Y", n, o, c.Pick("ykind", vk.Grid, vk.Gauss))
		m := lm.NewLinearRegression()
		m.FitIntercept = c.Bool("intercept")
		m.Normalize = c.Bool("normalize")
		switch c.Int("history", 0, 3) {
		case 0:
			m.Fit(c.Mat("D", 9, p+1, vk.Gauss), c.Mat("DY", 9, 2, vk.Gauss))
		case 1:
			m.Fit(c.Mat("D", 9, p, vk.Gauss), c.Mat("DY", 9, o, vk.Gauss))
			m = m.PredicterClone().(*lm.LinearRegression)
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		c.Mark(n > p && p > 1, "intercept=%v normalize=%v X=%s Y=%s", m.FitIntercept, m.Normalize, vk.M(X), vk.M(Y))
		if r := m.Fit(lx.M, ly.M); r != base.Fiter(m) {
			c.Fatalf("Fit returns another estimator")
		}
		c.Unchanged("Fit", lx, ly)
		coef, icpt := m.Coef, m.Intercept
		keep, keepI := vk.Copy(coef), vk.Copy(icpt)
		if c.Bool("cloneMovesOn") {
			cl := m.PredicterClone()
			cl.Fit(c.Mat("E", 8, p, vk.Gauss), c.Mat("EY", 8, o, vk.Gauss))
			c.Eq("coef after the clone's fit", m.Coef, keep, 0, 0)
			c.Eq("intercept after the clone's fit", m.Intercept, keepI, 0, 0)
		}
		common(c, m, coef, icpt, X, Y)
		P := linear(X, coef, icpt)
		mc := mat.Norm(coef, math.Inf(1))
		for k := 0; k < o; k++ {
			if !m.FitIntercept && icpt.At(0, k) != 0 {
				c.Fatalf("intercept %g without FitIntercept", icpt.At(0, k))
			}
			ynorm := 0.
			sum := 0.
			for i := 0; i < n; i++ {
				ynorm += Y.At(i, k) * Y.At(i, k)
				sum += Y.At(i, k) - P.At(i, k)
			}
			xm := 0.
			for j := 0; j < p; j++ {
				xm = math.Max(xm, colNorm(X, j))
			}
			scale := math.Sqrt(ynorm) + mc*xm + 1
			tol := 1e-9 * scale
			if m.FitIntercept && math.Abs(sum) > tol*math.Sqrt(float64(n)) {
				c.Fatalf("output %d: residuals sum to %g", k, sum)
			}
			for j := 0; j < p; j++ {
				g := 0.
				for i := 0; i < n; i++ {
					g += X.At(i, j) * (Y.At(i, k) - P.At(i, k))
				}
				if math.Abs(g) > tol*(colNorm(X, j)+1+1e-4*xm) { // rounding next to a far larger feature
					c.Fatalf("output %d: the residual has product %g with feature %d: not the least squares solution (coef %s intercept %s)", k, g, j, vk.M(coef), vk.M(icpt))
				}
			}
		}
		if bound, ok := largest(X, Y, m.FitIntercept, m.FitIntercept && m.Normalize); ok && kind != vk.Scaled && mc > 100*bound {
			c.Fatalf("coefficients %s blow up: the smallest solution is below %g", vk.M(coef), bound)
		}
	})
}

// largest bounds the coefficients of the smallest least-squares solution by the smallest singular value
// that counts; not ok when rounding decides which one that is.
func largest(X, Y *mat.Dense, center, scale bool) (float64, bool) {
	n, p := X.Dims()
	Z, w := vk.Copy(X), 1.
	for j := 0; j < p; j++ {
		mean, v := vk.MeanVar(vk.Col(X, j))
		for i := 0; i < n && center; i++ {
			Z.Set(i, j, X.At(i, j)-mean)
		}
		if s := math.Sqrt(v * float64(n)); scale && s > 1e-9 {
			for i := 0; i < n; i++ {
				Z.Set(i, j, Z.At(i, j)/s)
			}
			w = math.Max(w, 1/s)
		}
	}
	var svd mat.SVD
	if !svd.Factorize(Z, mat.SVDNone) {
		return 0, false
	}
	sv := svd.Values(nil)
	b := 0.
	for _, s := range sv {
		if s > 1e-10*sv[0] {
			b = w * (1 + mat.Norm(Y, 2)) / s
		} else if s > 1e-16*sv[0] && s > 1e-12 {
			return 0, false
		}
	}
	return b, true
}

// objective is SSE + alpha |coef|^2 per output, with the intercept free.
func objective(X, Y *mat.Dense, coef *mat.Dense, icpt *mat.Dense, alpha float64, scale []float64, k int) float64 {
	P := linear(X, coef, icpt)
	n, p := X.Dims()
	s := 0.
	for i := 0; i < n; i++ {
		s += math.Pow(P.At(i, k)-Y.At(i, k), 2)
	}
	for j := 0; j < p; j++ {
		s += alpha * math.Pow(coef.At(j, k)*scale[j], 2)
	}
	return s
}

// solveRidge: Gaussian elimination with pivoting of (X'X + alpha S^2) w = X'y on centred data.
func solveRidge(X, Y *mat.Dense, alpha float64, intercept bool, scale []float64) (coef, icpt *mat.Dense) {
	n, p := X.Dims()
	_, o := Y.Dims()
	xm, ym := make([]float64, p), make([]float64, o)
	if intercept {
		for j := range xm {
			xm[j], _ = vk.MeanVar(vk.Col(X, j))
		}
		for k := range ym {
			ym[k], _ = vk.MeanVar(vk.Col(Y, k))
		}
	}
	A := mat.NewDense(p, p+o, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			for l := 0; l < p; l++ {
				A.Set(j, l, A.At(j, l)+(X.At(i, j)-xm[j])*(X.At(i, l)-xm[l]))
			}
			for k := 0; k < o; k++ {
				A.Set(j, p+k, A.At(j, p+k)+(X.At(i, j)-xm[j])*(Y.At(i, k)-ym[k]))
			}
		}
	}
	for j := 0; j < p; j++ {
		A.Set(j, j, A.At(j, j)+alpha*scale[j]*scale[j])
	}
	for j := 0; j < p; j++ {
		b := j
		for r := j; r < p; r++ {
			if math.Abs(A.At(r, j)) > math.Abs(A.At(b, j)) {
				b = r
			}
		}
		rj, rb := vk.Row(A, j), vk.Row(A, b)
		A.SetRow(j, rb)
		A.SetRow(b, rj)
		for r := 0; r < p; r++ {
			if r != j {
				f := A.At(r, j) / A.At(j, j)
				for l := j; l < p+o; l++ {
					A.Set(r, l, A.At(r, l)-f*A.At(j, l))
				}
			}
		}
	}
	coef, icpt = mat.NewDense(p, o, nil), mat.NewDense(1, o, nil)
	for k := 0; k < o; k++ {
		s := ym[k]
		for j := 0; j < p; j++ {
			coef.Set(j, k, A.At(j, p+k)/A.At(j, j))
			s -= coef.At(j, k) * xm[j]
		}
		if intercept {
			icpt.Set(0, k, s)
		}
	}
	return
}

func TestRidge(t *testing.T) {
	vk.Prop(t, 1200, "penalized least squares with any positive penalty, options, degenerate designs, refits and clones, for Ridge and the gonum-optimizer regressor; non-trivial: more than one column", func(c *vk.C) {
		n, p, o := c.Size("n", 2, 12, 50), c.Size("p", 1, 5, 8), c.Size("o", 1, 3, 5)
		X := design(c, "X", n, p, c.Pick("kind", vk.Grid, vk.Unif, vk.Gauss), c.Bool("degenerate"))
		Y := c.Mat("Y", n, o, c.Pick("ykind", vk.Grid, vk.Gauss))
		alpha := c.PickF("alpha", .01, .1, .5, 1, 3, 10, 100)
		intercept, normalize := c.Bool("intercept"), c.Bool("normalize")
		var m base.Predicter
		var lin *lm.LinearModel
		mk := func() {
			if c.Bool("sgd") {
				r := lm.NewSGDRegressor()
				r.Alpha, r.L1Ratio, r.FitIntercept, r.Normalize = alpha, 0, intercept, normalize
				m, lin = r, &r.LinearModel
			} else {
				r := lm.NewRidge()
				r.Alpha, r.FitIntercept, r.Normalize = alpha, intercept, normalize
				m, lin = r, &r.LinearModel
			}
		}
		mk()
		switch c.Int("history", 0, 3) {
		case 0:
			m.Fit(c.Mat("D", 9, p+1, vk.Gauss), c.Mat("DY", 9, 2, vk.Gauss))
		case 1:
			m.Fit(c.Mat("D", 9, p, vk.Gauss), c.Mat("DY", 9, o, vk.Gauss))
			m = m.PredicterClone()
			switch r := m.(type) {
			case *lm.SGDRegressor:
				lin = &r.LinearModel
			case *lm.Ridge:
				lin = &r.LinearModel
			}
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		c.Mark(p > 1, "%T alpha=%g intercept=%v normalize=%v X=%s Y=%s", m, alpha, intercept, normalize, vk.M(X), vk.M(Y))
		c.Class(map[bool]string{true: "ridge", false: "sgd"}[func() bool { _, ok := m.(*lm.Ridge); return ok }()])
		if r := m.Fit(lx.M, ly.M); r == nil {
			c.Fatalf("Fit returns nil")
		}
		c.Unchanged("Fit", lx, ly)
		coef, icpt := lin.Coef, lin.Intercept
		common(c, m, coef, icpt, X, Y)
		scale := make([]float64, p)
		for j := range scale {
			scale[j] = 1
			if intercept && normalize {
				_, v := vk.MeanVar(vk.Col(X, j))
				if v > 1e-20 {
					scale[j] = math.Sqrt(v * float64(n))
				}
			}
		}
		loose := make([]float64, p) // the penalty bounds the distance from the optimum by the excess of the objective
		wc, wi := solveRidge(X, Y, alpha, intercept, scale)
		for k := 0; k < o; k++ {
			if !intercept && icpt.At(0, k) != 0 {
				c.Fatalf("intercept %g without FitIntercept", icpt.At(0, k))
			}
			got, want := objective(X, Y, coef, icpt, alpha, scale, k), objective(X, Y, wc, wi, alpha, scale, k)
			y2 := 0.
			for i := 0; i < n; i++ {
				y2 += Y.At(i, k) * Y.At(i, k)
			}
			for j := range loose {
				loose[j] = math.Max(loose[j], math.Sqrt((want*1e-6+1e-8*y2+1e-12)/alpha)/scale[j])
			}
			if got > want*(1+1e-6)+1e-8*y2+1e-12 {
				c.Fatalf("output %d: objective %.12g at coef %s, but %.12g at %s", k, got, vk.M(coef), want, vk.M(wc))
			}
		}
		for j := range loose {
			loose[j] += 2e-3 * (1 + mat.Norm(wc, math.Inf(1)))
		}
		c.EqCols("coef", mat.DenseCopyOf(coef.T()), mat.DenseCopyOf(wc.T()), 2e-2, loose)
	})
}
