// C37: an MLP fit depends only on its parameters, seed and data.
package c37

import (
	"math"
	"sync"
	"testing"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
	"verifharness/mlpref"
	"verifharness/vk"
)

type setup struct {
	kind, act string
	hidden    []int
	cfg       mlpref.Cfg
	seed      uint64
	shuffle   bool
}

func draw(c *vk.C, kinds ...string) *setup {
	s := &setup{kind: c.Pick("kind", kinds...), act: c.Pick("act", "tanh", "logistic", "relu", "identity"),
		seed: uint64(c.Int("seed", 0, 99)), shuffle: c.Bool("shuffle")}
	s.hidden = []int{}
	for l := c.PickI("layers", 1, 0, 2); l > 0; l-- {
		s.hidden = append(s.hidden, c.Size("units", 1, 4, 8))
	}
	s.cfg = mlpref.Cfg{Solver: c.Pick("solver", "sgd", "adam", "lbfgs"), Schedule: c.Pick("schedule", "constant", "adaptive", "invscaling"),
		Alpha: c.PickF("alpha", 0, .1), WeightDecay: c.PickF("decay", 0, .01), Batch: c.PickI("batch", 3, 0, 200, 1),
		MaxIter: c.PickI("maxiter", 5, 20, 1), LR: c.PickF("lr", .02, .1), PowerT: .5, Momentum: c.PickF("momentum", .9, 0),
		Nesterov: c.Bool("nesterov"), Beta1: .9, Beta2: .999, Eps: 1e-8, Tol: c.PickF("tol", 1e-4, .05), NoChange: c.PickI("nochange", 10, 2),
		Early: c.Int("early", 0, 3) == 0, ValFraction: .25, Norm: c.Int("norm", 0, 5) == 0}
	return s
}

func (s *setup) model() interface{} {
	m := mlpref.New(s.kind, append([]int{}, s.hidden...), s.act)
	s.cfg.Configure(m)
	s.reseed(m)
	return m
}

func (s *setup) reseed(m interface{}) {
	mlpref.Set(m, map[string]interface{}{"Shuffle": s.shuffle})
	mlpref.SetState(m, base.NewLockedSource(s.seed))
}

// data draws samples and targets: real numbers for regression, labels for classification.
func data(c *vk.C, label, kind string, n, p, out int) (X, Y *mat.Dense) {
	X = c.Mat(label+"X", n, p, c.Pick(label+"xk", vk.Gauss, vk.Grid))
	r := c.Rnd(label + "Y")
	if kind == "classifier" {
		Y = mat.NewDense(n, 1, nil)
		labels := [][]float64{{0, 1}, {1, 2}, {-1, 1}, {3, 5, 9}, {0, 1, 2, 3}}[c.Int(label+"labels", 0, 4)]
		for i := 0; i < n; i++ {
			Y.Set(i, 0, labels[r.Intn(len(labels))])
		}
		return
	}
	Y = mat.NewDense(n, out, nil)
	binary := c.Int(label+"binary", 0, 3) == 0
	for i := 0; i < n; i++ {
		for j := 0; j < out; j++ {
			Y.Set(i, j, r.NormFloat64()+X.At(i, 0))
			if binary {
				Y.Set(i, j, float64(r.Intn(2)))
			}
		}
	}
	return
}

func same(c *vk.C, what string, a, b interface{}) {
	c.Helper()
	c.EqS(what+": weights", mlpref.Of(b).Pack(), mlpref.Of(a).Pack(), 0, 0)
	for _, f := range []string{"LossCurve", "ValidationScores", "NIter", "Loss", "BestLoss", "NoImprovementCount", "NOutputs", "NLayers"} {
		c.EqS(what+": "+f, mlpref.Field(b, f), mlpref.Field(a, f), 0, 0)
	}
}

// TestRefit: fitting again, on a clone or with inputs stored elsewhere, gives the same model.
func TestRefit(t *testing.T) {
	vk.Prop(t, 120, "the model was fitted on other data before, of another shape", func(c *vk.C) {
		s := draw(c, "regressor", "classifier")
		n, p, o := c.Size("rows", 4, 14, 40), c.Size("inputs", 1, 3, 7), c.Int("outputs", 1, 2)
		X, Y := data(c, "a", s.kind, n, p, o)
		m := s.model()
		mlpref.Fit(m, X, Y)
		first := mlpref.Of(m).Pack()

		n2, p2 := c.Size("rows2", 4, 20, 40), c.Size("inputs2", 1, 3, 6)
		X2, Y2 := data(c, "b", s.kind, n2, p2, c.Int("outputs2", 1, 2))
		c.Mark(n2 != n || p2 != p, "%s %v %s %+v X=%s Y=%s then X2=%s Y2=%s", s.kind, s.hidden, s.act, s.cfg, vk.M(X), vk.M(Y), vk.M(X2), vk.M(Y2))
		c.Class(s.cfg.Solver)
		for _, v := range first {
			if math.IsNaN(v) || math.IsInf(v, 0) {
				return
			}
		}
		// another model, fitted on something else first, inputs in another layout
		m2 := s.model()
		mlpref.Fit(m2, X2, Y2)
		s.reseed(m2)
		xl, yl := c.Lay("X", X, true), c.Lay("Y", Y, true)
		mlpref.Fit(m2, xl.M, yl.M)
		c.Unchanged("Fit", xl, yl)
		same(c, "refit", m, m2)

		// the first fit has no earlier weights to start from, warm start or not
		m6 := s.model()
		mlpref.Set(m6, map[string]interface{}{"WarmStart": true})
		mlpref.Fit(m6, X, Y)
		c.EqS("weights of a first fit with warm start", mlpref.Of(m6).Pack(), first, 0, 0)

		// clones
		m3 := s.model()
		if c.Bool("fittedclone") {
			mlpref.Fit(m3, X2, Y2)
			s.reseed(m3)
		}
		m4 := mlpref.Clone(m3)
		before := mlpref.Of(m3).Pack()
		mlpref.Set(m4, map[string]interface{}{"WarmStart": false})
		mlpref.Fit(m4, X, Y)
		same(c, "fit of a clone", m, m4)
		c.EqS("weights of the original after its clone was fitted", mlpref.Of(m3).Pack(), before, 0, 0)
		mlpref.Fit(m3, X, Y)
		same(c, "fit of the original after its clone", m, m3)

		// a clone that continues training leaves the original alone
		m5 := mlpref.Clone(m)
		same(c, "clone", m, m5)
		mlpref.Set(m5, map[string]interface{}{"WarmStart": true})
		mlpref.Fit(m5, X, Y)
		c.EqS("weights of the original after its clone continued", mlpref.Of(m).Pack(), first, 0, 0)
		m6, m7 := s.model(), mlpref.Clone(m)
		mlpref.Fit(m6, X, Y)
		for _, k := range []interface{}{m6, m7} {
			s.reseed(k)
			mlpref.Set(k, map[string]interface{}{"WarmStart": true})
			mlpref.Fit(k, X, Y)
		}
		finite := true
		for _, v := range mlpref.Of(m6).Pack() {
			finite = finite && !math.IsNaN(v) && !math.IsInf(v, 0)
		}
		if finite {
			same(c, "a clone that continues as the original does", m6, m7)
			c.Eq("predictions of a clone that continued", mlpref.Predict(m7, X, nil), mlpref.Predict(m6, X, nil), 0, 0)
		}

		// the fitted model, whichever way it was fitted, is what its kind says
		m = []interface{}{m, m2, m3, m4}[c.Int("which", 0, 3)]
		net := mlpref.Of(m)
		if s.kind == "regressor" && net.Out != "identity" {
			c.Fatalf("a regressor has output activation %s", net.Out)
		}
		P := net.ForwardMat(X)
		if s.kind == "regressor" {
			if vk.Finite(P) {
				c.Eq("Predict", mlpref.Predict(m, X, nil), P, 1e-7, 1e-7)
			}
			return
		}
		labels := vk.Uniq(vk.Col(Y, 0))
		want := mat.NewDense(n, 1, nil)
		D, margin := mlpref.Decide(P)
		if margin < 1e-9 {
			return
		}
		for i := 0; i < n; i++ {
			if labels[0] >= 0 && labels[len(labels)-1] <= 1 {
				want.Set(i, 0, D.At(i, 0))
				continue
			}
			want.Set(i, 0, labels[0])
			for j, l := range labels {
				if D.At(i, j) == 1 {
					want.Set(i, 0, l)
				}
			}
		}
		d := c.Dst("pred", n, 1)
		c.EqDst("Predict", mlpref.Predict(m, xl.M, d.M), d, want, 0, 0)
		c.EqF("Score", m.(interface {
			Score(X, Y mat.Matrix) float64
		}).Score(xl.M, yl.M), mlpref.Accuracy(Y, want), 1e-12, 0)
	})
}

// TestInit: before any training the weights fill the bound recommended by Glorot for each layer.
func TestInit(t *testing.T) {
	vk.Prop(t, 60, "layers of at least 10 by 10", func(c *vk.C) {
		s := draw(c, "regressor", "classifier", "base32", "base64")
		s.cfg.Solver, s.cfg.Schedule, s.cfg.LR, s.cfg.MaxIter, s.cfg.WeightDecay, s.cfg.Early = c.Pick("solver2", "sgd", "adam"), "constant", 1e-30, 1, 0, false
		s.hidden = []int{c.Int("h1", 10, 40), c.Int("h2", 10, 40)}
		n, p := 6, c.Int("inputs", 10, 30)
		X, Y := data(c, "a", s.kind, n, p, 1)
		m := s.model()
		mlpref.Fit(m, X, Y)
		c.Mark(true, "%s %v %s inputs %d seed %d", s.kind, s.hidden, s.act, p, s.seed)
		net := mlpref.Of(m)
		for l, in := range []int{p, s.hidden[0]} {
			out := s.hidden[l]
			f := 6.
			if s.act == "logistic" {
				f = 2
			}
			bound, mx := math.Sqrt(f/float64(in+out)), 0.
			for _, r := range append(net.W[l], net.B[l]) {
				for _, v := range r {
					mx = math.Max(mx, math.Abs(v))
				}
			}
			if mx > bound*(1+1e-6) || mx < .8*bound {
				c.Fatalf("the largest of the initial weights of layer %d (%d to %d, %s) is %g, the bound %g", l, in, out, s.act, mx, bound)
			}
		}
	})
}

// TestLabels: renaming the classes renames the predictions and changes nothing else.
func TestLabels(t *testing.T) {
	vk.Prop(t, 120, "at least 3 classes or labels other than 0 and 1", func(c *vk.C) {
		s := draw(c, "classifier")
		n, p := c.Size("rows", 4, 14, 40), c.Size("inputs", 1, 3, 7)
		X := c.Mat("X", n, p, vk.Gauss)
		k := c.SizeTo("classes", 2, 4, 8)
		r := c.Rnd("Y")
		Y := mat.NewDense(n, 1, nil)
		for i := 0; i < n; i++ {
			Y.Set(i, 0, float64(1+r.Intn(k)))
		}
		labels := vk.Uniq(vk.Col(Y, 0))
		c.Mark(len(labels) > 1, "%v %s %+v X=%s Y=%s", s.hidden, s.act, s.cfg, vk.M(X), vk.M(Y))
		if len(labels) < 2 {
			return
		}
		ren := func(v float64) float64 { return v*v*1.5 - 7 }
		Z := vk.Apply(Y, func(i, j int, v float64) float64 { return ren(v) })
		a, b, o := s.model(), s.model(), s.model()
		mlpref.Fit(a, X, Y)
		mlpref.Fit(b, X, Z)
		same(c, "renamed classes", a, b)
		pa, pb := mlpref.Predict(a, X, nil), mlpref.Predict(b, X, nil)
		if !vk.Finite(mlpref.Of(a).ForwardMat(X)) {
			return
		}
		c.Eq("renamed predictions", pb, vk.Apply(pa, func(i, j int, v float64) float64 { return ren(v) }), 0, 0)
		// one-hot targets are the same problem
		H := mat.NewDense(n, len(labels), nil)
		for i := 0; i < n; i++ {
			for j, l := range labels {
				if Y.At(i, 0) == l {
					H.Set(i, j, 1)
				}
			}
		}
		mlpref.Fit(o, X, H)
		same(c, "one-hot targets", a, o)
		po := mlpref.Predict(o, X, nil)
		for i := 0; i < n; i++ {
			for j, l := range labels {
				if (po.At(i, j) == 1) != (pa.At(i, 0) == l) {
					c.Fatalf("row %d: class %g predicted from labels, %v from one-hot targets", i, pa.At(i, 0), vk.Row(po, i))
				}
			}
		}
	})
}

// TestShuffle: with the whole training set in one batch the order of the rows does not matter.
func TestShuffle(t *testing.T) {
	vk.Prop(t, 120, "at least 3 training rows and 2 epochs", func(c *vk.C) {
		s := draw(c, "regressor", "classifier")
		n, p := c.Size("rows", 4, 14, 40), c.Size("inputs", 1, 3, 7)
		X, Y := data(c, "a", s.kind, n, p, c.Int("outputs", 1, 2))
		s.cfg.Solver = c.Pick("solver2", "sgd", "adam")
		s.cfg.Eps, s.cfg.Tol, s.cfg.NoChange, s.cfg.Batch = 1e-2, 0, 1000, 200
		s.cfg.LR = .02
		s.shuffle = false
		a := s.model()
		mlpref.Fit(a, X, Y)
		s.shuffle = true
		b := s.model()
		mlpref.Fit(b, X, Y)
		// rounding can cross a relu kink or reorder equal validation scores: use smooth activations there
		ok := s.act != "relu" && !s.cfg.Norm
		if s.cfg.Early && ok {
			ok = s.kind == "regressor"
			sa, sb := mlpref.Field(a, "ValidationScores"), mlpref.Field(b, "ValidationScores")
			if ok {
				c.EqS("ValidationScores", sb, sa, 1e-6, 1e-6)
			}
			best, second := math.Inf(-1), math.Inf(-1)
			for _, v := range sa {
				if v > best {
					best, second = v, best
				} else if v > second {
					second = v
				}
			}
			ok = ok && best-second > 1e-9
		}
		c.Mark(ok && s.cfg.MaxIter > 1, "%s %v %s %+v X=%s Y=%s", s.kind, s.hidden, s.act, s.cfg, vk.M(X), vk.M(Y))
		if ok {
			c.EqS("weights", mlpref.Of(b).Pack(), mlpref.Of(a).Pack(), 1e-6, 1e-7)
		}
	})
}

// TestConcurrent: models fitted at the same time on the same data do not disturb each other.
func TestConcurrent(t *testing.T) {
	vk.Prop(t, 40, "at least 3 models at once", func(c *vk.C) {
		s := draw(c, "regressor", "classifier")
		n, p := c.Size("rows", 4, 14, 40), c.Size("inputs", 1, 3, 7)
		X, Y := data(c, "a", s.kind, n, p, c.Int("outputs", 1, 2))
		k := c.Int("models", 2, 5)
		c.Mark(k > 2, "%d x %s %v %s %+v X=%s Y=%s", k, s.kind, s.hidden, s.act, s.cfg, vk.M(X), vk.M(Y))
		one := s.model()
		proto := s.model()
		ms := make([]interface{}, k)
		for i := range ms {
			ms[i] = mlpref.Clone(proto)
		}
		var wg sync.WaitGroup
		for i := range ms {
			wg.Add(1)
			go func(m interface{}) {
				defer wg.Done()
				mlpref.Fit(m, X, Y)
				mlpref.Predict(m, X, nil)
			}(ms[i])
		}
		wg.Wait()
		mlpref.Fit(one, X, Y)
		for i := range ms {
			same(c, "fitted concurrently", one, ms[i])
		}
	})
}
