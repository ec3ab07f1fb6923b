// C31: SVC trains a feasible, optimal margin classifier and predicts with it.
package c31

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/svm"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// counting is a source that counts its draws.
type counting struct {
	rand.Source
	n int
}

func (s *counting) Uint64() uint64 { s.n++; return s.Source.Uint64() }

type myKernel struct{ g float64 }

func (k myKernel) Func(a, b []float64) float64 {
	s := 1.
	for i := range a {
		s += k.g * a[i] * b[i]
	}
	return s
}

type config struct {
	kernel              string
	C, eps, tol         float64
	gamma, coef0, degre float64
	maxIter             int
	cache               uint
}

func (g config) make(src base.Source) *svm.SVC {
	m := svm.NewSVC()
	m.C, m.Epsilon, m.Tol, m.Gamma, m.Coef0, m.Degree = g.C, g.eps, g.tol, g.gamma, g.coef0, g.degre
	m.MaxIter, m.CacheSize = g.maxIter, g.cache
	m.Kernel = g.kernel
	switch g.kernel {
	case "func":
		m.Kernel = func(a, b []float64) float64 { return myKernel{.5}.Func(a, b) }
	case "value":
		m.Kernel = myKernel{.25}
	}
	m.RandomState = src
	return m
}

func (g config) k(a, b []float64) float64 {
	dot, d2 := 0., 0.
	for i := range a {
		dot += a[i] * b[i]
		d2 += (a[i] - b[i]) * (a[i] - b[i])
	}
	gamma := g.gamma
	if gamma <= 0 {
		gamma = 1 / float64(len(a))
	}
	switch g.kernel {
	case "linear":
		return dot
	case "poly", "polynomial":
		return math.Pow(gamma*dot+g.coef0, g.degre)
	case "sigmoid":
		return math.Tanh(gamma*dot + g.coef0)
	case "func":
		return 1 + .5*dot
	case "value":
		return 1 + .25*dot
	}
	return math.Exp(-gamma * d2)
}

func decision(g config, m *svm.Model, x []float64) (f, size float64) {
	f = m.B
	size = math.Abs(f)
	for s := range m.Alphas {
		t := m.Alphas[s] * m.Y[s] * g.k(x, vk.Row(m.X, s))
		f += t
		size += math.Abs(t)
	}
	return
}

func gen(c *vk.C, label string, n, p, K int) (X, Y *mat.Dense, neg float64) {
	X = c.Mat(label+"X", n, p, c.Pick(label+"kind", vk.Grid, vk.Gauss))
	neg = c.PickF(label+"neg", 0, -1)
	r := c.Rnd(label + "y")
	noise := c.PickF(label+"noise", 0, .1, .5)
	Y = mat.NewDense(n, K, nil)
	for o := 0; o < K; o++ {
		w := make([]float64, p)
		for j := range w {
			w[j] = r.NormFloat64()
		}
		b := r.NormFloat64() / 2
		for i := 0; i < n; i++ {
			f := b
			for j := range w {
				f += w[j] * X.At(i, j)
			}
			if (f > 0) != (r.Float64() < noise) {
				Y.Set(i, o, 1)
			} else {
				Y.Set(i, o, neg)
			}
		}
		// both classes appear
		a := r.Intn(n)
		Y.Set(a, o, 1)
		Y.Set((a+1+r.Intn(n-1))%n, o, neg)
	}
	return
}

func genConfig(c *vk.C) config {
	g := config{
		kernel: c.Pick("kernel", "linear", "rbf", "poly", "polynomial", "sigmoid", "func", "value", "other"),
		C:      c.PickF("C", .1, 1, 5), eps: c.PickF("eps", .1, 1e-2, 1e-3), tol: c.PickF("tol", 1e-6, 1e-4),
		gamma: c.PickF("gamma", 0, .5, .1, 1, -1, 5e-4), coef0: c.PickF("coef0", 0, 1), degre: c.PickF("degree", 1, 2, 3),
		maxIter: c.PickI("maxIter", 300, 1, 20, 100), cache: uint(c.PickI("cache", 200, 1, 0)),
	}
	return g
}

// check one output's model against the training set.
func checkModel(c *vk.C, g config, m *svm.Model, X *mat.Dense, y []float64, converged bool) {
	n, _ := X.Dims()
	alpha := make([]float64, n)
	lab := make([]float64, n)
	for i := range lab {
		lab[i] = -1
		if y[i] > 0 {
			lab[i] = 1
		}
	}
	if len(m.Support) != len(m.Alphas) || len(m.Y) != len(m.Alphas) {
		c.Fatalf("Support %v Alphas %v Y %v", m.Support, m.Alphas, m.Y)
	}
	sum, last := 0., -1
	for s, i := range m.Support {
		if i <= last || i >= n {
			c.Fatalf("Support %v of %d samples", m.Support, n)
		}
		last = i
		a := m.Alphas[s]
		if !(a > 0) || a > g.C*(1+1e-9) {
			c.Fatalf("Alphas[%d]=%g, C=%g", s, a, g.C)
		}
		if m.Y[s] != lab[i] {
			c.Fatalf("Y[%d]=%g for target %g", s, m.Y[s], y[i])
		}
		c.EqS("support vector", vk.Row(m.X, s), vk.Row(X, i), 0, 0)
		alpha[i] = a
		sum += a * lab[i]
	}
	if math.Abs(sum) > float64(n)*g.tol+1e-9*float64(n)*g.C {
		c.Fatalf("sum of alpha*y is %g (tol %g)", sum, g.tol)
	}
	if r, _ := m.X.Dims(); r != len(m.Support) {
		c.Fatalf("%d rows for %d support vectors", r, len(m.Support))
	}
	E := make([]float64, n)
	K := mat.NewDense(n, n, nil)
	size := 0.
	for i := 0; i < n; i++ {
		f, _ := decision(g, m, vk.Row(X, i))
		E[i] = f - lab[i]
		for j := 0; j < n; j++ {
			K.Set(i, j, g.k(vk.Row(X, i), vk.Row(X, j)))
			size = math.Max(size, math.Abs(K.At(i, j)))
		}
	}
	// multipliers up to tol are left out of the model
	W, l1 := 0., 0.
	for i := range alpha {
		l1 += alpha[i]
		W -= alpha[i]
		for j := range alpha {
			W += alpha[i] * alpha[j] * lab[i] * lab[j] * K.At(i, j) / 2
		}
	}
	if W > float64(n)*g.tol*(1+size)*(1+l1)+1e-9*(1+l1)*(1+l1)*(1+size) {
		c.Fatalf("the trained multipliers %v are worse than none: objective %g", alpha, W)
	}
	slack := float64(n)*g.tol*size + 1e-9*(1+float64(n)*g.C*size)
	for i := 0; i < n; i++ {
		low := lab[i]*E[i] < -g.eps-slack && alpha[i] < g.C*(1-1e-9)-g.tol
		high := lab[i]*E[i] > g.eps+slack && alpha[i] > 0
		if !low && !high {
			continue
		}
		if converged {
			c.Fatalf("training stopped although sample %d violates the optimality conditions: y*f=%g alpha=%g C=%g eps=%g", i, 1+lab[i]*E[i], alpha[i], g.C, g.eps)
		}
		if g.maxIter < 300 || n > 12 {
			continue
		}
		for j := 0; j < n; j++ {
			if j == i {
				continue
			}
			eta := K.At(i, i) + K.At(j, j) - 2*K.At(i, j)
			if eta < 1e-6*size || eta == 0 {
				continue
			}
			lo, hi := math.Max(0, alpha[j]-alpha[i]), math.Min(g.C, g.C+alpha[j]-alpha[i])
			if lab[i] == lab[j] {
				lo, hi = math.Max(0, alpha[j]+alpha[i]-g.C), math.Min(g.C, alpha[i]+alpha[j])
			}
			step := math.Max(lo, math.Min(hi, alpha[j]+lab[j]*(E[i]-E[j])/eta)) - alpha[j]
			if math.Abs(step) > 4*g.tol+4*slack/eta {
				c.Fatalf("training stopped although sample %d violates the optimality conditions (y*f=%g alpha=%g) and its pair with %d can move by %g (tol %g)", i, 1+lab[i]*E[i], alpha[i], j, step, g.tol)
			}
		}
		c.Class("stuck")
	}
}

func TestSVC(t *testing.T) {
	vk.Prop(t, 3000, "1..3 outputs, six kernels by name, function or value, 0/1 and -1/+1 targets, C, epsilon, tol, stopping limits; non-trivial: at least 4 rows and 2 support vectors", func(c *vk.C) {
		n, p, K := c.SizeTo("n", 2, 12, 25), c.Int("p", 1, 4), c.PickI("K", 1, 1, 2, 3)
		X, Y, _ := gen(c, "", n, p, K)
		g := genConfig(c)
		src := &counting{Source: rand.NewSource(c.Seed("seed"))}
		var rs base.Source
		if c.Bool("seeded") || K == 1 {
			rs = src
		}
		m := g.make(rs)
		if c.Bool("fitted") {
			X0, Y0, _ := gen(c, "F", c.Int("n0", 2, 6), p, c.Int("K0", 1, 2))
			it := m.MaxIter
			m.MaxIter = 5
			m.Fit(X0, Y0)
			m.MaxIter = it
		}
		src.n = 0
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		if f := m.Fit(lx.M, ly.M); f != base.Fiter(m) {
			c.Fatalf("Fit returns something else")
		}
		draws := src.n
		c.Unchanged("Fit", lx, ly)
		c.Mark(n >= 4 && len(m.Support) > 0 && len(m.Support[0]) > 1, "%+v n=%d p=%d K=%d X=%s Y=%s", g, n, p, K, vk.M(X), vk.M(Y))
		if lx.D != nil {
			lx.D.Apply(func(i, j int, v float64) float64 { return 99 }, lx.D)
		}
		if ly.D != nil {
			ly.D.Apply(func(i, j int, v float64) float64 { return 99 }, ly.D)
		}
		if len(m.Model) != K || len(m.Support) != K || len(m.SupportVectors) != K || m.GetNOutputs() != K || !m.IsClassifier() {
			c.Fatalf("%d models, %d supports, %d outputs", len(m.Model), len(m.Support), m.GetNOutputs())
		}
		converged := K == 1 && draws < g.maxIter
		if converged {
			c.Class("converged")
		}
		q := c.Int("q", 1, 5)
		Q := c.Mat("Q", q, p, vk.Gauss)
		for o := 0; o < K; o++ {
			checkModel(c, g, m.Model[o], X, vk.Col(Y, o), converged)
			if len(m.Support[o]) != len(m.Model[o].Support) || len(m.SupportVectors[o]) != len(m.Support[o]) {
				c.Fatalf("Support %v Model.Support %v", m.Support[o], m.Model[o].Support)
			}
			for s, i := range m.Support[o] {
				if m.Model[o].Support[s] != i {
					c.Fatalf("Support %v Model.Support %v", m.Support[o], m.Model[o].Support)
				}
				c.EqS("SupportVectors", m.SupportVectors[o][s], vk.Row(X, i), 0, 0)
			}
			a, b := vk.Row(Q, 0), vk.Row(X, 0)
			c.EqF("KernelFunction", m.Model[o].KernelFunction(a, b), g.k(a, b), 1e-9, 1e-12)
		}
		lq := c.Lay("Q", Q, true)
		d := c.Dst("pred", q, K)
		P := m.Predict(lq.M, d.M)
		c.EqDst("Predict", P, d, P, 0, 0)
		c.Unchanged("Predict", lq)
		hit := 0
		T := mat.NewDense(q, K, nil)
		for i := 0; i < q; i++ {
			all := true
			for o := 0; o < K; o++ {
				f, size := decision(g, m.Model[o], vk.Row(Q, i))
				want := 0.
				if f >= 0 {
					want = 1
				}
				if math.Abs(f) > 1e-9*(1+size) && P.At(i, o) != want {
					c.Fatalf("row %d output %d: predicted %g, decision function %g", i, o, P.At(i, o), f)
				}
				if v := P.At(i, o); v != 0 && v != 1 {
					c.Fatalf("predicted %g", v)
				}
				T.Set(i, o, P.At(i, o))
			}
			if i%2 == 1 {
				T.Set(i, K-1, 1-T.At(i, K-1))
				all = false
			}
			if all {
				hit++
			}
		}
		if K == 1 {
			c.EqF("Score", m.Score(lq.M, T), float64(hit)/float64(q), 1e-12, 0)
		}
		// a clone is the model, and neither moves the other
		cl := m.PredicterClone().(*svm.SVC)
		X1, Y1, _ := gen(c, "G", 5, p, 1)
		cl.MaxIter = 5
		if c.Bool("refitClone") {
			cl.RandomState = nil
			cl.Fit(X1, Y1)
			cl = m
		} else {
			m.RandomState = nil
			m.MaxIter = 5
			m.Fit(X1, Y1)
		}
		c.Eq("prediction after the other copy was refitted", cl.Predict(Q, nil), P, 0, 0)
	})
}

// The result is a function of data, settings and seed: not of the cache, the storage, the label
// convention, the way the kernel is given, or the schedule of the outputs.
func TestSVCSame(t *testing.T) {
	vk.Prop(t, 600, "the same fit twice, with another cache size, storage, label convention, source type or kernel form; non-trivial: at least 4 rows and 2 support vectors", func(c *vk.C) {
		n, p, K := c.SizeTo("n", 2, 12, 30), c.Int("p", 1, 4), c.PickI("K", 1, 2, 5, 9)
		X, Y, neg := gen(c, "", n, p, K)
		g := genConfig(c)
		seed := c.Seed("seed")
		mk := func(form string) base.Source {
			if form == "locked" {
				return base.NewLockedSource(seed)
			}
			return rand.NewSource(seed)
		}
		form := c.Pick("source", "locked", "plain")
		a := g.make(mk(form))
		a.Fit(X, Y)
		h := g
		h.cache = uint(c.PickI("cache2", 0, 1, 200))
		b := h.make(mk(form))
		Y2 := Y
		if c.Bool("relabel") {
			Y2 = vk.Apply(Y, func(_, _ int, v float64) float64 {
				if v == neg {
					return -1 - neg
				}
				return v
			})
		}
		if c.Bool("asFunc") {
			b.Kernel = a.Model[0].KernelFunction
		}
		if c.Bool("clone") {
			fresh := h.make(mk(form))
			fresh.Kernel = b.Kernel
			if form == "locked" {
				b = fresh.PredicterClone().(*svm.SVC)
				fresh.RandomState.Uint64()
			}
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y2, true)
		b.Fit(lx.M, ly.M)
		c.Mark(n >= 4 && len(a.Support[0]) > 1, "%+v n=%d p=%d K=%d X=%s Y=%s", g, n, p, K, vk.M(X), vk.M(Y))
		for o := 0; o < K; o++ {
			c.EqS("Alphas", b.Model[o].Alphas, a.Model[o].Alphas, 1e-9, 1e-12)
			c.EqF("B", b.Model[o].B, a.Model[o].B, 1e-9, 1e-9)
			for s := range a.Support[o] {
				if b.Support[o][s] != a.Support[o][s] {
					c.Fatalf("Support %v and %v", a.Support[o], b.Support[o])
				}
			}
		}
		c.Eq("Predict", b.Predict(lx.M, nil), a.Predict(X, nil), 0, 0)
	})
}

// many rows: no pass makes the objective worse
func TestManyRows(t *testing.T) {
	vk.Prop(t, 10, "40..140 rows of two classes apart from each other; non-trivial: the later passes improve the objective", func(c *vk.C) {
		n, p := c.PickI("n", 66, 65, 40, 100, 140), c.Int("p", 1, 3)
		g := config{kernel: c.Pick("kernel", "linear", "rbf", "poly"), C: c.PickF("C", 1, 10), eps: c.PickF("eps", .1, 1e-2), tol: 1e-9,
			gamma: c.PickF("gamma", .05, .2), coef0: 1, degre: 1, cache: uint(c.PickI("cache", 200, 1, 0))}
		r := c.Rnd("data")
		gap := c.PickF("gap", 2, 1, 3)
		X, Y := mat.NewDense(n, p, nil), mat.NewDense(n, 1, nil)
		for i := 0; i < n; i++ {
			s := -1.
			if i%2 == 1 || r.Intn(4) == 0 {
				s = 1
				Y.Set(i, 0, 1)
			}
			for j := 0; j < p; j++ {
				X.Set(i, j, 4*r.Float64()-2)
			}
			X.Set(i, 0, s*(gap/2+2*r.Float64()))
		}
		seed, last := c.Seed("seed"), 0.
		moved := false
		for _, g.maxIter = range []int{1, 3, 10, 30} {
			src := &counting{Source: rand.NewSource(seed)}
			m := g.make(src)
			m.Fit(X, Y)
			checkModel(c, g, m.Model[0], X, vk.Col(Y, 0), src.n < g.maxIter)
			W, slack := dual(g, m.Model[0], X, vk.Col(Y, 0))
			if W > last+slack {
				c.Fatalf("%d passes make the objective worse: %g, earlier %g", g.maxIter, W, last)
			}
			moved = moved || W < last-slack && last < 0
			last = W
		}
		c.Mark(moved, "%+v n=%d p=%d objective=%g", g, n, p, last)
	})
}

// dual is the objective at the model's multipliers, and what dropping those below tol can change of it
func dual(g config, m *svm.Model, X *mat.Dense, y []float64) (W, slack float64) {
	size, l1 := 0., 0.
	for s, i := range m.Support {
		W -= m.Alphas[s]
		for t := range m.Support {
			k := g.k(vk.Row(m.X, s), vk.Row(m.X, t))
			W += m.Alphas[s] * m.Alphas[t] * m.Y[s] * m.Y[t] * k / 2
			size = math.Max(size, math.Abs(k))
		}
		l1 += math.Abs(m.Alphas[s]) + math.Abs(y[i])
	}
	return W, 2 * (float64(len(y))*g.tol*(1+size)*(1+l1) + 1e-9*(1+l1)*(1+l1)*(1+size))
}
