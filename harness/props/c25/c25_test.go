// C25: elastic net and lasso end in the minimum of their penalized objective.
package c25

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// centred returns the problem coordinate descent works on, with the scale of each feature.
func centred(X, Y *mat.Dense, intercept, normalize bool) (Z, W *mat.Dense, scale []float64) {
	_, p := X.Dims()
	_, o := Y.Dims()
	Z, W = vk.Copy(X), vk.Copy(Y)
	scale = make([]float64, p)
	for j := range scale {
		scale[j] = 1
		if intercept {
			x := vk.Col(X, j)
			m, v := vk.MeanVar(x)
			if normalize && !vk.IsConst(x) {
				scale[j] = math.Sqrt(v * float64(len(x)))
			}
			for i := range x {
				x[i] = (x[i] - m) / scale[j]
			}
			Z.SetCol(j, x)
		}
	}
	for k := 0; k < o && intercept; k++ {
		y := vk.Col(Y, k)
		m, _ := vk.MeanVar(y)
		for i := range y {
			y[i] -= m
		}
		W.SetCol(k, y)
	}
	return
}

func residual(Z, W, w *mat.Dense) *mat.Dense {
	_, p := Z.Dims()
	return vk.Apply(W, func(i, k int, v float64) float64 {
		for j := 0; j < p; j++ {
			v -= Z.At(i, j) * w.At(j, k)
		}
		return v
	})
}

func norm(x []float64) float64 {
	s := 0.
	for _, v := range x {
		s += v * v
	}
	return math.Sqrt(s)
}

func dot(x, y []float64) float64 {
	s := 0.
	for i, v := range x {
		s += v * y[i]
	}
	return s
}

func total2(m *mat.Dense) float64 {
	s := 0.
	r, _ := m.Dims()
	for i := 0; i < r; i++ {
		s += dot(vk.Row(m, i), vk.Row(m, i))
	}
	return s
}

// kkt checks the optimality conditions of 1/2|W-Zw|^2 + l1 sum|w_j| + l2/2 |w|^2.
func kkt(c *vk.C, Z, W, w *mat.Dense, l1, l2 float64, positive bool) {
	_, p := Z.Dims()
	_, o := W.Dims()
	R := residual(Z, W, w)
	yn := math.Sqrt(total2(W))
	for j := 0; j < p; j++ {
		z := vk.Col(Z, j)
		wj := vk.Row(w, j)
		if norm(z) == 0 {
			continue // any value of it is left as it was
		}
		tol := 3e-4*math.Sqrt(dot(z, z)+l2)*yn + 1e-9
		g := make([]float64, o)
		for k := range g {
			g[k] = dot(z, vk.Col(R, k)) - l2*wj[k]
		}
		switch nw := norm(wj); {
		case positive && wj[0] < 0:
			c.Fatalf("negative coefficient %g", wj[0])
		case nw*(l1+norm(g)) > 1e-7*yn*yn: // a smaller coefficient is as good as 0
			for k := range g {
				if d := g[k] - l1*wj[k]/nw; math.Abs(d) > tol {
					c.Fatalf("feature %d is off its optimum: slope %g (coefficients %s)", j, d, vk.M(w))
				}
			}
		case positive:
			if g[0] > l1+tol {
				c.Fatalf("feature %d should not be 0: slope %g against %g", j, g[0], l1)
			}
		case norm(g) > l1+tol:
			c.Fatalf("feature %d should not be 0: slope %g against %g", j, norm(g), l1)
		}
	}
}

// gap is the duality gap as scikit-learn's coordinate descent defines it.
func gap(Z, W, w *mat.Dense, l1, l2 float64, positive bool) float64 {
	_, p := Z.Dims()
	_, o := W.Dims()
	R := residual(Z, W, w)
	dual, pen := math.Inf(-1), 0.
	for j := 0; j < p; j++ {
		g := make([]float64, o)
		for k := range g {
			g[k] = dot(vk.Col(Z, j), vk.Col(R, k)) - l2*w.At(j, k)
		}
		if positive {
			dual = math.Max(dual, g[0])
		} else {
			dual = math.Max(dual, norm(g))
		}
		pen += norm(vk.Row(w, j))
	}
	cons := 1.
	if dual > l1 {
		cons = l1 / dual
	}
	ry := 0.
	for k := 0; k < o; k++ {
		ry += dot(vk.Col(R, k), vk.Col(W, k))
	}
	return .5*total2(R)*(1+cons*cons) + l1*pen - cons*ry + .5*l2*(1+cons*cons)*total2(w)
}

// sweep is one round of exact minimization over each feature in turn.
func sweep(Z, W, w *mat.Dense, l1, l2 float64, positive bool) {
	_, p := Z.Dims()
	_, o := W.Dims()
	for j := 0; j < p; j++ {
		z := vk.Col(Z, j)
		zz := dot(z, z)
		if zz == 0 {
			continue
		}
		R := residual(Z, W, w)
		t := make([]float64, o)
		for k := range t {
			t[k] = dot(z, vk.Col(R, k)) + zz*w.At(j, k)
		}
		f := 0.
		if nt := norm(t); nt > l1 {
			f = (1 - l1/nt) / (zz + l2)
		}
		if positive && t[0] < 0 {
			f = 0
		}
		for k := range t {
			w.Set(j, k, f*t[k])
		}
	}
}

func problem(c *vk.C) (X, Y *mat.Dense) {
	n, p, o := c.Size("n", 1, 12, 50), c.SizeTo("p", 1, 5, 10), c.PickI("o", 1, 1, 1, 2, 3, 6)
	X = c.Mat("X", n, p, c.Pick("kind", vk.Grid, vk.Unif, vk.Gauss))
	Y = c.Mat("Y", n, o, c.Pick("ykind", vk.Grid, vk.Gauss))
	if c.PickI("units", 0, 0, 0, 1) == 1 { // a feature in large units against targets in small ones
		j, f := c.Int("unitCol", 0, p-1), c.PickF("unit", 1e-3, 1e-4)
		for i := 0; i < n; i++ {
			X.Set(i, j, X.At(i, j)*f)
		}
		Y.Scale(1/f, Y)
	}
	if c.Bool("degenerate") {
		r := c.Rnd("deg")
		for j := 1; j < p; j++ {
			switch r.Intn(4) {
			case 0:
				for i := 0; i < n; i++ {
					X.Set(i, j, 3)
				}
			case 1:
				X.SetCol(j, vk.Col(X, j-1))
			}
		}
	}
	return
}

func scaled(coef *mat.Dense, scale []float64) *mat.Dense {
	return vk.Apply(coef, func(j, _ int, v float64) float64 { return v * scale[j] })
}

func TestElasticNet(t *testing.T) {
	vk.Prop(t, 2500, "elastic nets of any penalty and l1 share on designs of any rank, one or several outputs, positive, cyclic or random, warm starts, refits, clones; non-trivial: some but not all coefficients are 0", func(c *vk.C) {
		X, Y := problem(c)
		n, p := X.Dims()
		_, o := Y.Dims()
		var m *lm.ElasticNet
		ratio := c.PickF("ratio", .1, .25, .5, .9, 1)
		switch c.Int("ctor", 0, 3) {
		case 0:
			m, ratio = lm.NewLasso(), 1
		case 1:
			m, ratio = lm.NewMultiTaskLasso(), 1
		default:
			m = lm.NewElasticNet()
			m.L1Ratio = ratio
		}
		alpha := c.PickF("alpha", 1e-2, .05, .2, 1, 3)
		m.Alpha = alpha
		m.FitIntercept, m.Normalize = c.Bool("intercept"), c.Bool("normalize")
		m.Tol, m.MaxIter = 1e-9, 4000
		m.Selection = c.Pick("selection", "cyclic", "random", "")
		m.Positive = o == 1 && c.Bool("positive")
		m.WarmStart = c.Bool("warm")
		switch c.Int("history", 0, 3) {
		case 0:
			m.Alpha, m.L1Ratio = .3, .7
			m.Fit(c.Mat("D", 9, p+c.Int("more", 0, 1), vk.Gauss), c.Mat("DY", 9, c.Int("do", 1, 4), vk.Gauss))
			m.Alpha, m.L1Ratio = alpha, ratio
		case 1:
			m.Fit(c.Mat("D", 9, p, vk.Gauss), c.Mat("DY", 9, o, vk.Gauss))
			m = m.PredicterClone().(*lm.ElasticNet)
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		if r := m.Fit(lx.M, ly.M); r == nil {
			c.Fatalf("Fit returns nil")
		}
		c.Unchanged("Fit", lx, ly)
		coef, icpt := m.Coef, m.Intercept
		if r, cc := coef.Dims(); r != p || cc != o || !vk.Finite(coef) || !vk.Finite(icpt) {
			c.Fatalf("coef %s", vk.M(coef))
		}
		zero := 0
		for j := 0; j < p; j++ {
			if norm(vk.Row(coef, j)) == 0 {
				zero++
			}
		}
		c.Mark(zero > 0 && zero < p, "alpha=%g ratio=%g intercept=%v normalize=%v positive=%v %s X=%s Y=%s", alpha, ratio, m.FitIntercept, m.Normalize, m.Positive, m.Selection, vk.M(X), vk.M(Y))
		Z, W, scale := centred(X, Y, m.FitIntercept, m.Normalize)
		l1, l2 := alpha*ratio*float64(n), alpha*(1-ratio)*float64(n)
		w := scaled(coef, scale)
		if m.CDResult.NIter < m.MaxIter {
			kkt(c, Z, W, w, l1, l2, m.Positive)
			if !(m.CDResult.Gap <= m.CDResult.Eps) {
				c.Fatalf("stopped after %d iterations at gap %g > %g", m.CDResult.NIter, m.CDResult.Gap, m.CDResult.Eps)
			}
		}
		if m.CDResult.NIter > m.MaxIter || m.CDResult.NIter < 1 {
			c.Fatalf("%d iterations of at most %d", m.CDResult.NIter, m.MaxIter)
		}
		y2 := total2(W)
		if zero == p && !m.WarmStart && m.CDResult.NIter == m.MaxIter && y2 > 1e-9 {
			c.Fatalf("%d iterations without ever leaving the optimum 0", m.CDResult.NIter)
		}
		c.EqF("Gap", m.CDResult.Gap, gap(Z, W, w, l1, l2, m.Positive), 1e-6, 1e-8*y2+1e-12)
		c.EqF("Eps", m.CDResult.Eps, 1e-9*y2, 1e-6, 1e-20)
		for k := 0; k < o; k++ {
			want := 0.
			if m.FitIntercept {
				want, _ = vk.MeanVar(vk.Col(Y, k))
				for j := 0; j < p; j++ {
					mx, _ := vk.MeanVar(vk.Col(X, j))
					want -= coef.At(j, k) * mx
				}
			}
			c.EqF("Intercept", icpt.At(0, k), want, 1e-8, 1e-8)
		}
		Q := c.Mat("Q", c.Size("q", 1, 4, 12), p, vk.Unif)
		q, _ := Q.Dims()
		lq, d := c.Lay("Q", Q, true), c.Dst("P", q, o)
		want := vk.Apply(mat.NewDense(q, o, nil), func(i, k int, _ float64) float64 {
			return icpt.At(0, k) + dot(vk.Row(Q, i), vk.Col(coef, k))
		})
		c.EqDst("Predict", m.Predict(lq.M, d.M), d, want, 1e-9, 1e-9)
		if m.IsClassifier() || m.GetNOutputs() != o {
			c.Fatalf("GetNOutputs %d", m.GetNOutputs())
		}
		if c.Bool("cloneMovesOn") {
			keep, keepI := vk.Copy(coef), vk.Copy(icpt)
			var cl base.Predicter = m.PredicterClone()
			cl.Fit(c.Mat("E", 8, p, vk.Gauss), c.Mat("EY", 8, o, vk.Gauss))
			c.Eq("coef after the clone's fit", m.Coef, keep, 0, 0)
			c.Eq("intercept after the clone's fit", m.Intercept, keepI, 0, 0)
		}
	})
}

// TestSweeps: stopped after k rounds, the coefficients are those of k rounds of coordinate minimization.
func TestSweeps(t *testing.T) {
	vk.Prop(t, 2500, "coordinate descent cut off after 1 to 6 rounds, from zero or from a warm start; non-trivial: at least 2 rounds and 2 features", func(c *vk.C) {
		X, Y := problem(c)
		n, p := X.Dims()
		_, o := Y.Dims()
		m := lm.NewElasticNet()
		m.L1Ratio, m.Alpha = c.PickF("ratio", 0, .1, .5, 1), c.PickF("alpha", 0, 1e-2, .2, 1, 3)
		m.FitIntercept, m.Normalize = c.Bool("intercept"), c.Bool("normalize")
		m.Positive = o == 1 && c.Bool("positive")
		k := c.SizeTo("rounds", 1, 6, 14)
		m.MaxIter, m.Tol = k, 0
		c.Mark(k > 1 && p > 1, "rounds=%d alpha=%g ratio=%g positive=%v X=%s Y=%s", k, m.Alpha, m.L1Ratio, m.Positive, vk.M(X), vk.M(Y))
		Z, W, scale := centred(X, Y, m.FitIntercept, m.Normalize)
		l1, l2 := m.Alpha*m.L1Ratio*float64(n), m.Alpha*(1-m.L1Ratio)*float64(n)
		w := mat.NewDense(p, o, nil)
		if c.Bool("warm") {
			m.WarmStart = true
			w0 := c.Mat("w0", p, o, vk.Gauss)
			m.Coef = vk.Copy(w0)
			w = vk.Copy(w0)
			given := m.Coef
			defer func() { c.Eq("the warm start given", given, w0, 0, 0) }()
		}
		for i := 0; i < k; i++ {
			sweep(Z, W, w, l1, l2, m.Positive)
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		m.Fit(lx.M, ly.M)
		mx := 1e-9 * (1 + mat.Norm(w, math.Inf(1)))
		got := scaled(m.Coef, scale)
		for j := 0; j < p; j++ {
			if z := vk.Col(Z, j); norm(z) < 1e-9 {
				continue // a constant feature up to rounding
			}
			c.EqS("coefficients of a feature", vk.Row(got, j), vk.Row(w, j), 1e-7, mx+1e-9*math.Sqrt(total2(W))/norm(vk.Col(Z, j)))
		}
		if m.CDResult.NIter > k {
			c.Fatalf("%d iterations of at most %d", m.CDResult.NIter, k)
		}
	})
}

func TestPaths(t *testing.T) {
	vk.Prop(t, 400, "paths over given or default penalties; each entry is optimal for its penalty and equals a single fit; non-trivial: at least 2 penalties and 2 features", func(c *vk.C) {
		X, Y := problem(c)
		n, p := X.Dims()
		_, o := Y.Dims()
		X, Y, _ = centred(X, Y, c.Bool("centre"), false)
		ratio := c.PickF("ratio", .1, .5, 1)
		positive := o == 1 && c.Bool("positive")
		eps := c.PickF("eps", 1e-3, 1e-6, 1e-9)
		k := c.Size("k", 2, 7, 40)
		var given *[]float64
		var list []float64
		if c.Bool("given") {
			r := c.Rnd("alphas")
			for i := 0; i < k; i++ {
				list = append(list, math.Exp(r.NormFloat64()-1))
			}
			given = &list
		}
		keep := append([]float64(nil), list...)
		lx, ly := c.Lay("X", X, false), c.Lay("Y", Y, false)
		c.Mark(k > 1 && p > 1, "ratio=%g eps=%g alphas=%v positive=%v X=%s Y=%s", ratio, eps, list, positive, vk.M(X), vk.M(Y))
		nAlphas := k
		if given != nil {
			nAlphas = c.Int("ignored", 0, 9)
		}
		var alphas, gaps []float64
		var coefs []*mat.Dense
		var iters []int
		if ratio == 1 && c.Bool("lasso") {
			alphas, coefs, gaps, iters = lm.LassoPath(lx.M.(*mat.Dense), ly.M.(*mat.Dense), eps, nAlphas, given, false, positive)
		} else {
			alphas, coefs, gaps, iters = lm.EnetPath(lx.M.(*mat.Dense), ly.M.(*mat.Dense), ratio, eps, nAlphas, given, false, positive)
		}
		c.Unchanged("path", lx, ly)
		if len(alphas) != k || len(coefs) != k || len(gaps) != k || len(iters) != k {
			c.Fatalf("%d alphas, %d coefs, %d gaps, %d iterations; %d wanted", len(alphas), len(coefs), len(gaps), len(iters), k)
		}
		if given != nil {
			c.EqS("alphas", alphas, keep, 0, 0)
			c.EqS("given alphas", list, keep, 0, 0)
		} else if lo, hi := math.Min(alphas[0], alphas[k-1]), math.Max(alphas[0], alphas[k-1]); hi > 0 && !math.IsInf(hi, 0) {
			c.EqF("smallest default penalty", lo, eps*hi, 1e-9, 0)
			for i := 1; i < k; i++ {
				c.EqF("step of the default penalties", math.Log(alphas[i]/alphas[i-1]), math.Log(alphas[k-1]/alphas[0])/float64(k-1), 1e-6, 1e-9)
			}
		}
		for i, a := range alphas {
			if math.IsNaN(a) || math.IsInf(a, 0) || a == 0 {
				continue // the default grid of all-zero data
			}
			m := lm.NewElasticNet()
			m.FitIntercept, m.L1Ratio, m.Alpha, m.Tol, m.Positive = false, ratio, a, eps, positive
			m.Fit(X, Y)
			c.Eq("coefficients of the path", coefs[i], m.Coef, 1e-12, 1e-15)
			if iters[i] < 1000 && eps <= 1e-9 {
				kkt(c, X, Y, coefs[i], a*ratio*float64(n), a*(1-ratio)*float64(n), positive)
			}
			if a > 1e-3 {
				c.EqF("gap", gaps[i], gap(X, Y, coefs[i], a*ratio*float64(n), a*(1-ratio)*float64(n), positive), 1e-6, 1e-8*total2(Y)+1e-12)
			}
		}
	})
}
