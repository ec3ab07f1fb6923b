// C11: imputation, discretization and quantile mapping follow the columns' order statistics.
package c11

import (
	"math"
	"testing"

	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// used sometimes fits the transformer on other data first: the later fit must not remember it.
func used(c *vk.C, m pp.Transformer) {
	if c.Int("used", 0, 2) == 0 {
		m.Fit(c.Mat("U", c.Int("un", 2, 6), c.Int("up", 1, 4), vk.Unif), nil)
	}
}

func TestImputer(t *testing.T) {
	vk.Prop(t, 1500, "data with missing cells (never a whole training column), each strategy; non-trivial: something is missing", func(c *vk.C) {
		n, p := c.Huge("n", 1, 8, 40, 600), c.Huge("p", 1, 4, 20, 150)
		kind := c.AnyKind("kind")
		X := c.Mat("X", n, p, kind)
		Z := c.Mat("Z", c.Int("m", 1, 6), p, kind)
		rnd := c.Rnd("holes")
		rate := c.PickF("rate", 0, 0.2, 0.6)
		miss := 0
		punch := func(A *mat.Dense, keep bool) {
			r, q := A.Dims()
			for j := 0; j < q; j++ {
				k := rnd.Intn(r)
				for i := 0; i < r; i++ {
					if rnd.Float64() < rate && !(keep && i == k) {
						A.Set(i, j, math.NaN())
						miss++
					}
				}
			}
		}
		punch(X, true)
		punch(Z, false)
		if c.Int("infinite", 0, 4) == 0 { // an infinite cell is not a missing one
			Z.Set(0, c.Int("infcol", 0, p-1), math.Inf(1-2*c.Int("sign", 0, 1)))
		}
		m := pp.NewImputer()
		m.Strategy = c.Pick("strategy", "", "mean", "median", "most_frequent")
		lx, lz := c.Lay("X", X, true), c.Lay("Z", Z, true)
		c.Mark(miss > 0, "%s %s %s fit %s fill %s", m.Strategy, kind, lx.Name, vk.M(X), vk.M(Z))
		used(c, m)
		m.Fit(lx.M, nil)
		Y := mat.NewDense(1, 1, []float64{3})
		A, AY := m.Transform(lx.M, Y)
		B, _ := m.Transform(lz.M, nil)
		c.Eq("Y", AY, Y, 0, 0)
		for j := 0; j < p; j++ {
			var have []float64
			for _, v := range vk.Col(X, j) {
				if !math.IsNaN(v) {
					have = append(have, v)
				}
			}
			ok := func(v float64) bool {
				switch m.Strategy {
				case "median":
					return v == vk.Quantile(.5, have)
				case "most_frequent":
					cnt := map[float64]int{}
					mx := 0
					for _, x := range have {
						cnt[x]++
						if cnt[x] > mx {
							mx = cnt[x]
						}
					}
					return cnt[v] == mx
				}
				mean, _ := vk.MeanVar(have)
				return vk.Close(v, mean, 1e-9, 1e-10)
			}
			fill := m.MissingValues[j]
			if !ok(fill) {
				c.Fatalf("column %d filled with %g; present %v", j, fill, have)
			}
			for _, pr := range [][2]*mat.Dense{{X, A}, {Z, B}} {
				r, _ := pr[0].Dims()
				for i := 0; i < r; i++ {
					want := pr[0].At(i, j)
					if math.IsNaN(want) {
						want = fill
					}
					if pr[1].At(i, j) != want {
						c.Fatalf("cell (%d,%d): got %g want %g", i, j, pr[1].At(i, j), want)
					}
				}
			}
		}
		c.Unchanged("imputer", lx, lz)
	})
}

func TestKBins(t *testing.T) {
	vk.Prop(t, 2000, "training and new data, each strategy and encoding, power of two and other bin counts; non-trivial: at least 2 bins", func(c *vk.C) {
		n, p := c.Huge("n", 1, 10, 50, 600), c.Huge("p", 1, 4, 20, 150)
		kind := c.AnyKind("kind")
		X := c.Mat("X", n, p, kind)
		Z := c.Mat("Z", c.Size("m", 1, 6, 20), p, kind)
		m := pp.NewKBinsDiscretizer(c.Int("bins", 1, 9))
		if c.Bool("strat") {
			m.Strategy = "uniform"
		}
		m.Encode = c.Pick("enc", "onehot-dense", "ordinal", "onehot")
		lx, lz := c.Lay("X", X, true), c.Lay("Z", Z, true)
		c.Mark(m.NBins > 1, "%d bins %s %s %s %s fit %s bin %s", m.NBins, m.Strategy, m.Encode, kind, lx.Name, vk.M(X), vk.M(Z))
		used(c, m)
		m.Fit(lx.M, nil)
		for j := 0; j < p; j++ {
			col := vk.Col(X, j)
			e := m.BinEdges[j]
			if len(e) != m.NBins+1 {
				c.Fatalf("%d edges", len(e))
			}
			mn, mx := vk.Quantile(0, col), vk.Quantile(1, col)
			for b := range e {
				if m.Strategy == "uniform" {
					c.EqF("edge", e[b], mn+(mx-mn)*float64(b)/float64(m.NBins), 1e-9, 1e-9)
					continue
				}
				// an edge is an empirical quantile: rank b/NBins; at a rounding boundary either neighbour
				lo, hi := 0, 0
				for _, v := range col {
					if v < e[b] {
						lo++
					}
					if v <= e[b] {
						hi++
					}
				}
				r := float64(b) / float64(m.NBins) * float64(n)
				if hi == lo || float64(hi) < r-1e-9 || (float64(lo) > r+1e-9) || (float64(lo) > r-1e-9 && lo > 0 && b > 0 && float64(lo) != math.Round(r)) {
					c.Fatalf("edge %d of column %d is %g; %v", b, j, e[b], col)
				}
				if b == 0 && e[b] != mn || b == m.NBins && e[b] != mx {
					c.Fatalf("outer edges %v of %v", e, col)
				}
				if b > 0 && math.Abs(r-math.Round(r)) > 1e-9 {
					want := vk.Quantile(float64(b)/float64(m.NBins), col)
					if e[b] != want {
						c.Fatalf("edge %d of column %d is %g, want %g; %v", b, j, e[b], want, col)
					}
				}
			}
		}
		Y := mat.NewDense(1, 1, []float64{3})
		for _, a := range []struct {
			A *mat.Dense
			l *vk.Layout
		}{{X, lx}, {Z, lz}} {
			T, TY := m.Transform(a.l.M, Y)
			c.Eq("Y", TY, Y, 0, 0)
			r, _ := a.A.Dims()
			cols := p
			if m.Encode != "ordinal" {
				cols = p * m.NBins
			}
			W := mat.NewDense(r, cols, nil)
			for i := 0; i < r; i++ {
				for j := 0; j < p; j++ {
					b := 0
					for k := 1; k < m.NBins; k++ { // bins are closed on the left, the last one on both sides
						if a.A.At(i, j) >= m.BinEdges[j][k] {
							b = k
						}
					}
					if m.Encode == "ordinal" {
						W.Set(i, j, float64(b))
					} else {
						W.Set(i, j*m.NBins+b, 1)
					}
				}
			}
			c.Eq("bins", T, W, 0, 0)
		}
		c.Unchanged("discretizer", lx, lz)
	})
}

func TestQuantile(t *testing.T) {
	vk.Prop(t, 1500, "training and new data, unsorted, with ties, more columns than quantiles; non-trivial: a column that varies", func(c *vk.C) {
		n, p := c.Huge("n", 2, 10, 50, 600), c.Huge("p", 1, 4, 15, 150)
		kind := c.AnyKind("kind")
		X := c.Mat("X", n, p, kind)
		Z := c.Mat("Z", c.Size("m", 1, 6, 20), p, kind)
		k := c.Huge("quantiles", 2, 12, 40, 300)
		lx, lz := c.Lay("X", X, true), c.Lay("Z", Z, true)
		c.Mark(!vk.IsConst(vk.Col(X, 0)), "%d quantiles %s %s fit %s map %s", k, kind, lx.Name, vk.M(X), vk.M(Z))
		m := pp.NewQuantileTransformer(k, "uniform", nil)
		used(c, m)
		m.Fit(lx.M, nil)
		Q := mat.NewDense(k, p, nil)
		for j := 0; j < p; j++ {
			col := vk.Col(X, j)
			for q := 0; q < k; q++ {
				pos := float64(q) / float64(k-1) * float64(n-1)
				f := math.Floor(pos + 1e-9)
				a := nth(col, int(f))
				b := nth(col, int(math.Min(f+1, float64(n-1))))
				Q.Set(q, j, a+(b-a)*(pos-f))
			}
		}
		c.Eq("quantiles", m.Quantiles, Q, 1e-9, 1e-9)
		got := vk.Copy(m.Quantiles)
		for _, a := range []struct {
			A *mat.Dense
			l *vk.Layout
		}{{X, lx}, {Z, lz}} {
			T, _ := m.Transform(a.l.M, nil)
			r, _ := a.A.Dims()
			for j := 0; j < p; j++ {
				for i := 0; i < r; i++ {
					x, y := a.A.At(i, j), T.At(i, j)
					if !(y >= 0 && y <= 1) {
						c.Fatalf("(%d,%d): %g outside [0,1]", i, j, y)
					}
					// bounds on the empirical distribution function given by the quantiles
					lo, hi := 0., 1.
					for q := 0; q < k; q++ {
						ref := float64(q) / float64(k-1)
						if got.At(q, j) < x-1e-12*(1+math.Abs(x)) {
							lo = ref
						}
						if got.At(k-1-q, j) > x+1e-12*(1+math.Abs(x)) {
							hi = float64(k-1-q) / float64(k-1)
						}
					}
					if y < lo-2e-7 || y > hi+2e-7 {
						c.Fatalf("(%d,%d): %g mapped to %g, not in [%g,%g]; quantiles %v", i, j, x, y, lo, hi, vk.Col(got, j))
					}
					// strictly between two quantiles: linear
					for q := 0; q+1 < k; q++ {
						a, b := got.At(q, j), got.At(q+1, j)
						if eps := 1e-9 * (1 + math.Abs(x)); a < x-eps && x < b-eps {
							c.EqF("interpolated", y, clip((float64(q)+(x-a)/(b-a))/float64(k-1)), 1e-9, 1e-9)
						}
					}
					for i2 := 0; i2 < r; i2++ {
						if x < a.A.At(i2, j) && y > T.At(i2, j)+1e-12 {
							c.Fatalf("order of column %d reversed: %g->%g, %g->%g", j, x, y, a.A.At(i2, j), T.At(i2, j))
						}
					}
				}
			}
		}
		c.Unchanged("quantile transformer", lx, lz)
	})
}

func clip(v float64) float64 { return math.Min(1-1e-7, math.Max(1e-7, v)) }

func nth(col []float64, k int) float64 {
	s := append([]float64(nil), col...)
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
	return s[k]
}
