// C29: Gaussian naive Bayes equals its per-class statistics and Bayes' rule, fitted at once or in batches.
package c29

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

type model struct {
	classes []float64
	X       [][]float64
	y, w    []float64
	eps     float64
}

func (r *model) stats(k int) (count float64, mean, va []float64) {
	p := len(r.X[0])
	mean, va = make([]float64, p), make([]float64, p)
	for i, x := range r.X {
		if r.y[i] == r.classes[k] {
			count += r.w[i]
			for j := range x {
				mean[j] += r.w[i] * x[j]
			}
		}
	}
	if count == 0 {
		return
	}
	for j := range mean {
		mean[j] /= count
	}
	for i, x := range r.X {
		if r.y[i] == r.classes[k] {
			for j := range x {
				va[j] += r.w[i] * (x[j] - mean[j]) * (x[j] - mean[j]) / count
			}
		}
	}
	return
}

func (r *model) add(X *mat.Dense, y *mat.Dense, w []float64, smoothing float64) {
	n, p := X.Dims()
	r.eps = 0
	for j := 0; j < p; j++ {
		m, s, v := 0., 0., 0.
		for i := 0; i < n; i++ {
			s += w[i]
			m += w[i] * X.At(i, j)
		}
		m /= s
		for i := 0; i < n; i++ {
			v += w[i] * (X.At(i, j) - m) * (X.At(i, j) - m) / s
		}
		r.eps = math.Max(r.eps, smoothing*v)
	}
	for i := 0; i < n; i++ {
		r.X = append(r.X, vk.Row(X, i))
		r.y = append(r.y, y.At(i, 0))
		r.w = append(r.w, w[i])
	}
}

func (r *model) jll(x, priors []float64) []float64 {
	out := make([]float64, len(r.classes))
	total := 0.
	for _, w := range r.w {
		total += w
	}
	for k := range r.classes {
		cnt, mean, va := r.stats(k)
		pr := cnt / total
		if priors != nil {
			pr = priors[k]
		}
		out[k] = math.Log(pr)
		for j := range x {
			s := va[j] + r.eps
			out[k] -= .5*math.Log(2*math.Pi*s) + .5*(x[j]-mean[j])*(x[j]-mean[j])/s
		}
	}
	return out
}

// gen draws data in the given unit.
func gen(c *vk.C, label string, p int, classes []float64, unit float64) (*mat.Dense, *mat.Dense) {
	n := c.Size(label+"n", 2, 10, 50)
	X := c.Mat(label+"X", n, p, c.Pick(label+"kind", vk.Grid, vk.Unif, vk.Gauss))
	if vk.IsConst(vk.Col(X, 0)) {
		X.Set(0, 0, X.At(0, 0)+1)
	}
	X.Scale(unit, X)
	r := c.Rnd(label + "y")
	y := vk.Apply(mat.NewDense(n, 1, nil), func(i, _ int, _ float64) float64 { return classes[r.Intn(len(classes))] })
	return X, y
}

func check(c *vk.C, m *nb.GaussianNB, r *model, priors []float64, unit float64) {
	c.EqS("Classes", m.Classes, r.classes, 0, 0)
	total := 0.
	for _, w := range r.w {
		total += w
	}
	p := len(r.X[0])
	if a, b := m.Theta.Dims(); a != len(r.classes) || b != p {
		c.Fatalf("Theta %s", vk.M(m.Theta))
	}
	for k := range r.classes {
		cnt, mean, va := r.stats(k)
		c.EqF("ClassCount", m.ClassCount[k], cnt, 1e-10, 0)
		pr := cnt / total
		if priors != nil {
			pr = priors[k]
		}
		c.EqF("ClassPrior", m.ClassPrior[k], pr, 1e-10, 0)
		for j := range va {
			va[j] += r.eps
		}
		c.EqS("Theta", vk.Row(m.Theta, k), mean, 1e-8, 1e-8*unit)
		c.EqS("Sigma", vk.Row(m.Sigma, k), va, 1e-7, 1e-9*r.eps+1e-10*unit*unit)
	}
	q := c.Int("q", 1, 6)
	Q := c.Mat("Q", q, p, vk.Unif)
	Q.Scale(unit, Q)
	for i := 0; i < q; i += 2 {
		Q.SetRow(i, r.X[c.Int("row", 0, len(r.X)-1)])
	}
	K := len(r.classes)
	L := mat.NewDense(q, K, nil)
	for i := 0; i < q; i++ {
		l := r.jll(vk.Row(Q, i), priors)
		mx, s := math.Inf(-1), 0.
		for _, v := range l {
			mx = math.Max(mx, v)
		}
		for _, v := range l {
			s += math.Exp(v - mx)
		}
		for k := range l {
			l[k] -= mx + math.Log(s)
		}
		L.SetRow(i, l)
	}
	lq := c.Lay("Q", Q, true)
	d := c.Dst("logp", q, K)
	small := 0.
	for i := 0; i < q; i++ {
		for k := 0; k < K; k++ {
			if v := math.Abs(L.At(i, k)); !math.IsInf(v, 0) {
				small = math.Max(small, v)
			}
		}
	}
	got := m.PredictLogProbas(lq.M, d.M)
	c.EqDst("PredictLogProbas", got, d, L, 1e-5, 1e-6*(1+small))
	d2 := c.Dst("p", q, K)
	c.EqDst("PredictProbas", m.PredictProbas(lq.M, d2.M), d2, vk.Apply(got, func(_, _ int, v float64) float64 { return math.Exp(v) }), 1e-9, 1e-12)
	d3 := c.Dst("pred", q, 1)
	P := m.Predict(lq.M, d3.M)
	c.EqDst("Predict", P, d3, P, 0, 0)
	c.Unchanged("Predict", lq)
	hits := 0
	Y := mat.NewDense(q, 1, nil)
	for i := 0; i < q; i++ {
		best := 0
		for k := range r.classes {
			if L.At(i, k) > L.At(i, best) {
				best = k
			}
		}
		clear := true
		for k := range r.classes {
			if k != best && L.At(i, best)-L.At(i, k) < 1e-6*(1+small) {
				clear = false
			}
		}
		if clear && P.At(i, 0) != r.classes[best] {
			c.Fatalf("row %d: predicted %g for log probabilities %v of %v", i, P.At(i, 0), vk.Row(L, i), r.classes)
		}
		Y.Set(i, 0, r.classes[(i*3)%K])
		if Y.At(i, 0) == P.At(i, 0) {
			hits++
		}
	}
	c.EqF("Score", m.Score(lq.M, Y), float64(hits)/float64(q), 1e-12, 0)
	if !m.IsClassifier() || m.GetNOutputs() != 1 {
		c.Fatalf("IsClassifier %v GetNOutputs %d", m.IsClassifier(), m.GetNOutputs())
	}
}

func TestGaussianNB(t *testing.T) {
	vk.Prop(t, 4000, "fits at once or in batches (classes missing from batches), weights, priors, smoothing, refits and clones in between; non-trivial: at least 2 classes and 2 features", func(c *vk.C) {
		p, K := c.Huge("p", 1, 4, 8, 100), c.Huge("K", 1, 4, 7, 100)
		classes := make([]float64, K)
		for k := range classes {
			classes[k] = float64(k*k)*c.PickF("step", 1, .5) - 2
		}
		classes = vk.Uniq(classes)
		K = len(classes)
		smoothing := c.PickF("smoothing", 1e-3, 1e-2, .1, 1)
		unit := c.PickF("unit", 1, 1, 1, 1e-5, 1e4)
		weighted := c.Bool("weighted")
		wscale := c.PickF("wscale", 1, 1, 1./1024, 64, 0x1p-40, 0x1p30)
		weights := func(n int) []float64 {
			w := make([]float64, n)
			r := c.Rnd("w")
			for i := range w {
				w[i] = 1
				if weighted {
					w[i] = wscale * float64(1+r.Intn(6)) / 2
				}
			}
			return w
		}
		var m *nb.GaussianNB
		var r *model
		var priors []float64
		history := ""
		if c.Bool("batches") {
			if c.Bool("priors") {
				priors = make([]float64, K)
				for k := range priors {
					priors[k] = float64(2*k+1) / float64(K*K)
				}
			}
			m = nb.NewGaussianNB(priors, smoothing)
			r = &model{classes: classes}
			for b := c.Int("nb", 1, 4); b > 0; b-- {
				X, y := gen(c, "B", p, classes[:c.Int("some", 1, K)], unit)
				n, _ := X.Dims()
				w := weights(n)
				lx, ly := c.Lay("X", X, true), c.Lay("y", y, true)
				var given []float64
				if weighted {
					given = w
				}
				m.PartialFit(lx.M, ly.M, append([]float64(nil), classes...), false, given)
				c.Unchanged("PartialFit", lx, ly)
				r.add(X, y, w, smoothing)
				history += " batch " + vk.M(X) + vk.M(y)
				if c.Bool("clone") {
					cl := m.PredicterClone().(*nb.GaussianNB)
					X2, y2 := gen(c, "C", p, classes, unit)
					if c.Bool("cloneLearns") {
						cl.PartialFit(X2, y2, classes, false, nil)
					} else {
						m.PartialFit(X2, y2, classes, false, nil)
						m = cl
					}
				}
				if c.Bool("check") {
					check(c, m, r, priors, unit)
				}
			}
		} else {
			X, y := gen(c, "", p, classes, unit)
			n, _ := X.Dims()
			r = &model{classes: vk.Uniq(vk.Col(y, 0))}
			if c.Bool("priors") {
				priors = make([]float64, len(r.classes))
				for k := range priors {
					priors[k] = float64(2*k+1) / float64(len(priors)*len(priors))
				}
			}
			m = nb.NewGaussianNB(nil, smoothing)
			switch c.Int("history", 0, 3) {
			case 0, 1:
				X2, y2 := gen(c, "D", c.Int("p2", 1, 4), []float64{7, 8, 9}, unit)
				m.Fit(X2, y2)
				if c.Bool("clone") {
					m = m.PredicterClone().(*nb.GaussianNB)
				}
			}
			m.Priors = priors
			w := weights(n)
			if weighted {
				m.SampleWeight = w
			}
			lx, ly := c.Lay("X", X, true), c.Lay("y", y, true)
			history = "fit " + vk.M(X) + vk.M(y)
			if f := m.Fit(lx.M, ly.M); f != base.Fiter(m) {
				c.Fatalf("Fit returns something else")
			}
			c.Unchanged("Fit", lx, ly)
			r.add(X, y, w, smoothing)
			if c.Bool("twice") {
				m.Fit(lx.M, ly.M)
			}
			if c.Bool("cloneMovesOn") {
				cl := m.PredicterClone().(*nb.GaussianNB)
				cl.Priors, cl.SampleWeight = nil, nil
				X3, y3 := gen(c, "E", p, []float64{7, 8, 9}, unit)
				cl.Fit(X3, y3)
				if c.Bool("swap") {
					cl = m.PredicterClone().(*nb.GaussianNB)
					m.Priors, m.SampleWeight = nil, nil
					m.Fit(X3, y3)
					m = cl
				}
			}
		}
		for k := range priors {
			if want := float64(2*k+1) / float64(len(priors)*len(priors)); priors[k] != want {
				c.Fatalf("the given prior %d became %g", k, priors[k])
			}
		}
		c.Mark(len(r.classes) > 1 && p > 1, "smoothing=%g weighted=%v priors=%v %s", smoothing, weighted, priors, history)
		check(c, m, r, priors, unit)
	})
}
