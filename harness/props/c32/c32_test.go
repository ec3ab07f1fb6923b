// C32: SVR trains a feasible tube regressor and predicts with it.
package c32

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/svm"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// counting is a source that counts its draws.
type counting struct {
	rand.Source
	n int
}

func (s *counting) Uint64() uint64 { s.n++; return s.Source.Uint64() }

type myKernel struct{ g float64 }

func (k myKernel) Func(a, b []float64) float64 {
	s := 1.
	for i := range a {
		s += k.g * a[i] * b[i]
	}
	return s
}

type config struct {
	kernel              string
	C, eps, tol         float64
	gamma, coef0, degre float64
	maxIter             int
	cache               uint
}

func (g config) make(src base.Source) *svm.SVR {
	m := svm.NewSVR()
	m.C, m.Epsilon, m.Tol, m.Gamma, m.Coef0, m.Degree = g.C, g.eps, g.tol, g.gamma, g.coef0, g.degre
	m.MaxIter, m.CacheSize = g.maxIter, g.cache
	m.Kernel = g.kernel
	switch g.kernel {
	case "func":
		m.Kernel = func(a, b []float64) float64 { return myKernel{.5}.Func(a, b) }
	case "value":
		m.Kernel = myKernel{.25}
	}
	m.RandomState = src
	return m
}

func (g config) k(a, b []float64) float64 {
	dot, d2 := 0., 0.
	for i := range a {
		dot += a[i] * b[i]
		d2 += (a[i] - b[i]) * (a[i] - b[i])
	}
	gamma := g.gamma
	if gamma <= 0 {
		gamma = 1 / float64(len(a))
	}
	switch g.kernel {
	case "linear":
		return dot
	case "poly", "polynomial":
		return math.Pow(gamma*dot+g.coef0, g.degre)
	case "sigmoid":
		return math.Tanh(gamma*dot + g.coef0)
	case "func":
		return 1 + .5*dot
	case "value":
		return 1 + .25*dot
	}
	return math.Exp(-gamma * d2)
}

func predict(g config, m *svm.Model, x []float64) (f, size float64) {
	f = m.B
	size = math.Abs(f)
	for s := range m.Alphas {
		t := m.Alphas[s] * g.k(x, vk.Row(m.X, s))
		f += t
		size += math.Abs(t)
	}
	return
}

func gen(c *vk.C, label string, n, p, K int) (X, Y *mat.Dense) {
	X = c.Mat(label+"X", n, p, c.Pick(label+"kind", vk.Grid, vk.Gauss))
	r := c.Rnd(label + "y")
	noise := c.PickF(label+"noise", 0, .1, 1)
	scale := c.PickF(label+"scale", 1, .2, .02)
	Y = mat.NewDense(n, K, nil)
	for o := 0; o < K; o++ {
		w := make([]float64, p)
		for j := range w {
			w[j] = r.NormFloat64()
		}
		b := r.NormFloat64() / 2
		for i := 0; i < n; i++ {
			f := b
			for j := range w {
				f += w[j] * X.At(i, j)
			}
			Y.Set(i, o, scale*(f+noise*r.NormFloat64()))
		}
	}
	return
}

func genConfig(c *vk.C) config {
	return config{
		kernel: c.Pick("kernel", "linear", "rbf", "poly", "polynomial", "sigmoid", "func", "value", "other"),
		C:      c.PickF("C", .1, 1, 5), eps: c.PickF("eps", .1, .3, 1e-2), tol: c.PickF("tol", 1e-6, 1e-3),
		gamma: c.PickF("gamma", 0, .5, .1, 1, -1, 5e-4), coef0: c.PickF("coef0", 0, 1), degre: c.PickF("degree", 1, 2, 3),
		maxIter: c.PickI("maxIter", 40, 1, 5, 20), cache: uint(c.PickI("cache", 200, 1, 0)),
	}
}

func checkModel(c *vk.C, g config, m *svm.Model, X *mat.Dense, y []float64, converged bool) {
	n, _ := X.Dims()
	alpha := make([]float64, n)
	if len(m.Support) != len(m.Alphas) {
		c.Fatalf("Support %v Alphas %v", m.Support, m.Alphas)
	}
	if r, _ := m.X.Dims(); r != len(m.Support) {
		c.Fatalf("%d rows for %d support vectors", r, len(m.Support))
	}
	sum, last := 0., -1
	for s, i := range m.Support {
		if i <= last || i >= n {
			c.Fatalf("Support %v of %d samples", m.Support, n)
		}
		last = i
		a := m.Alphas[s]
		if a == 0 || !(math.Abs(a) <= g.C*(1+1e-9)) {
			c.Fatalf("Alphas[%d]=%g, C=%g", s, a, g.C)
		}
		c.EqS("support vector", vk.Row(m.X, s), vk.Row(X, i), 0, 0)
		alpha[i] = a
		sum += a
	}
	if math.Abs(sum) > float64(n)*g.tol+1e-9*float64(n)*g.C {
		c.Fatalf("sum of alpha is %g (tol %g)", sum, g.tol)
	}
	size, W, l1 := 0., 0., 0.
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			k := g.k(vk.Row(X, i), vk.Row(X, j))
			size = math.Max(size, math.Abs(k))
			W += alpha[i] * alpha[j] * k / 2
		}
		W += g.eps*math.Abs(alpha[i]) - y[i]*alpha[i]
		l1 += math.Abs(alpha[i]) + math.Abs(y[i])
	}
	slack := float64(n)*g.tol*size + 1e-9*(1+float64(n)*g.C*size)
	if W > float64(n)*g.tol*(1+size)*(1+l1)+1e-9*(1+l1)*(1+l1)*(1+size) {
		c.Fatalf("the trained multipliers %v are worse than none: objective %g", alpha, W)
	}
	if !converged {
		return
	}
	for i := 0; i < n; i++ {
		f, _ := predict(g, m, vk.Row(X, i))
		E := f - y[i]
		if E < -g.eps-slack && alpha[i] < g.C*(1-1e-9)-g.tol || E > g.eps+slack && alpha[i] > -g.C*(1-1e-9)+g.tol {
			c.Fatalf("training stopped although sample %d is outside the tube (f-y=%g, eps=%g) and its multiplier %g is not at its bound %g", i, E, g.eps, alpha[i], g.C)
		}
	}
}

func TestSVR(t *testing.T) {
	vk.Prop(t, 1500, "1..3 outputs, six kernels by name, function or value, targets from tiny to outside every tube, C, epsilon, tol, stopping limits; non-trivial: at least 4 rows and 2 support vectors", func(c *vk.C) {
		n, p, K := c.SizeTo("n", 2, 12, 25), c.Int("p", 1, 4), c.PickI("K", 1, 1, 2, 3)
		X, Y := gen(c, "", n, p, K)
		g := genConfig(c)
		src := &counting{Source: rand.NewSource(c.Seed("seed"))}
		var rs base.Source
		if c.Bool("seeded") || K == 1 {
			rs = src
		}
		m := g.make(rs)
		if c.Bool("fitted") {
			X0, Y0 := gen(c, "F", c.Int("n0", 2, 6), p, c.Int("K0", 1, 2))
			it := m.MaxIter
			m.MaxIter = 5
			m.Fit(X0, Y0)
			m.MaxIter = it
		}
		src.n = 0
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		if f := m.Fit(lx.M, ly.M); f != base.Fiter(m) {
			c.Fatalf("Fit returns something else")
		}
		draws := src.n
		c.Unchanged("Fit", lx, ly)
		c.Mark(n >= 4 && len(m.Support) > 0 && len(m.Support[0]) > 1, "%+v n=%d p=%d K=%d X=%s Y=%s", g, n, p, K, vk.M(X), vk.M(Y))
		if lx.D != nil {
			lx.D.Apply(func(i, j int, v float64) float64 { return 99 }, lx.D)
		}
		if ly.D != nil {
			ly.D.Apply(func(i, j int, v float64) float64 { return 99 }, ly.D)
		}
		if len(m.Model) != K || len(m.Support) != K || len(m.SupportVectors) != K || m.GetNOutputs() != K || m.IsClassifier() {
			c.Fatalf("%d models, %d supports, %d outputs", len(m.Model), len(m.Support), m.GetNOutputs())
		}
		converged := K == 1 && draws < g.maxIter
		if converged {
			c.Class("converged")
			if draws > 0 {
				c.Class("converged after steps")
			}
		}
		q := c.Int("q", 2, 5)
		Q := c.Mat("Q", q, p, vk.Gauss)
		W := mat.NewDense(q, K, nil)
		size := 0.
		for o := 0; o < K; o++ {
			checkModel(c, g, m.Model[o], X, vk.Col(Y, o), converged)
			if len(m.Support[o]) != len(m.Model[o].Support) || len(m.SupportVectors[o]) != len(m.Support[o]) {
				c.Fatalf("Support %v Model.Support %v", m.Support[o], m.Model[o].Support)
			}
			for s, i := range m.Support[o] {
				if m.Model[o].Support[s] != i {
					c.Fatalf("Support %v Model.Support %v", m.Support[o], m.Model[o].Support)
				}
				c.EqS("SupportVectors", m.SupportVectors[o][s], vk.Row(X, i), 0, 0)
			}
			a, b := vk.Row(Q, 0), vk.Row(X, 0)
			c.EqF("KernelFunction", m.Model[o].KernelFunction(a, b), g.k(a, b), 1e-9, 1e-12)
			for i := 0; i < q; i++ {
				f, s := predict(g, m.Model[o], vk.Row(Q, i))
				W.Set(i, o, f)
				size = math.Max(size, s)
			}
		}
		lq := c.Lay("Q", Q, true)
		d := c.Dst("pred", q, K)
		P := m.Predict(lq.M, d.M)
		c.EqDst("Predict", P, d, W, 1e-9, 1e-9*size)
		P = vk.Copy(P)
		c.Unchanged("Predict", lq)
		T := vk.Apply(P, func(i, j int, v float64) float64 { return v + float64((i*7+j*3)%5) - 1.5 })
		want, ok := 0., true
		for o := 0; o < K; o++ {
			ty, py := vk.Col(T, o), vk.Col(P, o)
			mean, _ := vk.MeanVar(ty)
			num, den := 0., 0.
			for i := range ty {
				num += (ty[i] - py[i]) * (ty[i] - py[i])
				den += (ty[i] - mean) * (ty[i] - mean)
			}
			ok = ok && den > 1e-6
			want += (1 - num/den) / float64(K)
		}
		if ok {
			c.EqF("Score", m.Score(lq.M, T), want, 1e-6, 1e-6)
		}
		// a clone is the model, and neither moves the other
		cl := m.PredicterClone().(*svm.SVR)
		X1, Y1 := gen(c, "G", 5, p, 1)
		cl.MaxIter = 5
		if c.Bool("refitClone") {
			cl.RandomState = nil
			cl.Fit(X1, Y1)
			cl = m
		} else {
			m.RandomState = nil
			m.MaxIter = 5
			m.Fit(X1, Y1)
		}
		c.Eq("prediction after the other copy was refitted", cl.Predict(Q, nil), P, 0, 0)
	})
}

// The result is a function of data, settings and seed: not of the cache, the storage, the way the kernel is given, or the schedule of the outputs.
func TestSVRSame(t *testing.T) {
	vk.Prop(t, 600, "the same fit twice, with another cache size, storage, source type or kernel form; non-trivial: at least 4 rows and 2 support vectors", func(c *vk.C) {
		n, p, K := c.SizeTo("n", 2, 12, 30), c.Int("p", 1, 4), c.PickI("K", 1, 2, 5, 9)
		X, Y := gen(c, "", n, p, K)
		g := genConfig(c)
		seed := c.Seed("seed")
		mk := func(form string) base.Source {
			if form == "locked" {
				return base.NewLockedSource(seed)
			}
			return rand.NewSource(seed)
		}
		form := c.Pick("source", "locked", "plain")
		a := g.make(mk(form))
		a.Fit(X, Y)
		h := g
		h.cache = uint(c.PickI("cache2", 0, 1, 200))
		b := h.make(mk(form))
		if c.Bool("asFunc") {
			b.Kernel = a.Model[0].KernelFunction
		}
		if c.Bool("clone") {
			fresh := h.make(mk(form))
			fresh.Kernel = b.Kernel
			if form == "locked" {
				b = fresh.PredicterClone().(*svm.SVR)
				fresh.RandomState.Uint64()
			}
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		b.Fit(lx.M, ly.M)
		c.Mark(n >= 4 && len(a.Support[0]) > 1, "%+v n=%d p=%d K=%d X=%s Y=%s", g, n, p, K, vk.M(X), vk.M(Y))
		for o := 0; o < K; o++ {
			c.EqS("Alphas", b.Model[o].Alphas, a.Model[o].Alphas, 1e-9, 1e-12)
			c.EqF("B", b.Model[o].B, a.Model[o].B, 1e-9, 1e-9)
			for s := range a.Support[o] {
				if b.Support[o][s] != a.Support[o][s] {
					c.Fatalf("Support %v and %v", a.Support[o], b.Support[o])
				}
			}
		}
		c.Eq("Predict", b.Predict(lx.M, nil), a.Predict(X, nil), 1e-9, 1e-9)
	})
}

// many rows: no pass makes the objective worse
func TestManyRows(t *testing.T) {
	vk.Prop(t, 20, "40..140 rows with little noise; non-trivial: the later passes improve the objective", func(c *vk.C) {
		n, p := c.PickI("n", 66, 65, 40, 100, 140), c.Int("p", 1, 3)
		g := config{kernel: c.Pick("kernel", "linear", "rbf", "poly"), C: c.PickF("C", 1, 10), eps: c.PickF("eps", .5, .3), tol: 1e-9,
			gamma: c.PickF("gamma", .05, .2), coef0: 1, degre: 1, cache: uint(c.PickI("cache", 200, 1, 0))}
		r := c.Rnd("data")
		X, Y := mat.NewDense(n, p, nil), mat.NewDense(n, 1, nil)
		w := make([]float64, p)
		for j := range w {
			w[j] = r.NormFloat64()
		}
		noise := c.PickF("noise", 0, .02)
		for i := 0; i < n; i++ {
			f := .5 + noise*r.NormFloat64()
			for j := 0; j < p; j++ {
				X.Set(i, j, 2*r.Float64()-1)
				f += w[j] * X.At(i, j)
			}
			Y.Set(i, 0, f)
		}
		seed, last := c.Seed("seed"), 0.
		moved := false
		for _, g.maxIter = range []int{1, 3, 10, 30} {
			src := &counting{Source: rand.NewSource(seed)}
			m := g.make(src)
			m.Fit(X, Y)
			checkModel(c, g, m.Model[0], X, vk.Col(Y, 0), src.n < g.maxIter)
			W, slack := dual(g, m.Model[0], X, vk.Col(Y, 0))
			if W > last+slack {
				c.Fatalf("%d passes make the objective worse: %g, earlier %g", g.maxIter, W, last)
			}
			moved = moved || W < last-slack && last < 0
			last = W
		}
		c.Mark(moved, "%+v n=%d p=%d objective=%g", g, n, p, last)
	})
}

// dual is the objective at the model's multipliers, and what dropping those below tol can change of it
func dual(g config, m *svm.Model, X *mat.Dense, y []float64) (W, slack float64) {
	size, l1 := 0., 0.
	for s, i := range m.Support {
		W += g.eps*math.Abs(m.Alphas[s]) - y[i]*m.Alphas[s]
		for t := range m.Support {
			k := g.k(vk.Row(m.X, s), vk.Row(m.X, t))
			W += m.Alphas[s] * m.Alphas[t] * k / 2
			size = math.Max(size, math.Abs(k))
		}
		l1 += math.Abs(m.Alphas[s]) + math.Abs(y[i])
	}
	return W, 2 * (float64(len(y))*g.tol*(1+size)*(1+l1) + 1e-9*(1+l1)*(1+l1)*(1+size))
}
