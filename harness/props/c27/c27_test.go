// C27: loss functions have their textbook value and its gradient; the generic fit reports the loss it reached.
package c27

import (
	"math"
	"sync/atomic"
	"testing"

	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
	"verifharness/vk"
)

type act struct {
	name string
	a    lm.Activation
	f    func(float64) float64
}

var acts = []act{
	{"identity", base.Identity{}, func(x float64) float64 { return x }},
	{"logistic", base.Logistic{}, func(x float64) float64 { return 1 / (1 + math.Exp(-x)) }},
	{"tanh", base.Tanh{}, math.Tanh},
	{"relu", base.ReLU{}, func(x float64) float64 { return math.Max(0, x) }},
}

type problem struct {
	loss      string
	X, Y      *mat.Dense
	alpha, l1 float64
	n         int // of the whole data
	a         act
	skipFirst bool
}

// value is the definition.
func (q problem) value(T *mat.Dense) float64 {
	r, p := q.X.Dims()
	_, o := q.Y.Dims()
	J := 0.
	for i := 0; i < r; i++ {
		for k := 0; k < o; k++ {
			z := 0.
			for j := 0; j < p; j++ {
				z += q.X.At(i, j) * T.At(j, k)
			}
			h, y := q.a.f(z), q.Y.At(i, k)
			switch q.loss {
			case "square":
				J += (h - y) * (h - y) / 2
			case "log":
				J -= y * math.Log(h)
			default:
				J -= y*math.Log(h) + (1-y)*math.Log(1-h)
			}
		}
	}
	for j := 0; j < p; j++ {
		if q.skipFirst && j == 0 {
			continue
		}
		a1, a2 := 0., 0.
		for k := 0; k < o; k++ {
			t := T.At(j, k)
			a2 += t * t
			a1 += math.Abs(t)
		}
		switch q.loss {
		case "square": // rows are penalized by their norm
			J += q.alpha / 2 * (q.l1*math.Sqrt(a2) + (1-q.l1)*a2)
		case "log":
			J += q.alpha * (q.l1*math.Sqrt(a2) + (1-q.l1)*a2)
		default:
			J += q.alpha * (q.l1*a1 + (1-q.l1)*a2/2)
		}
	}
	return J / float64(q.n)
}

func gen(c *vk.C) (q problem, T *mat.Dense) {
	r, p, o := c.Size("n", 1, 8, 30), c.Huge("p", 1, 4, 8, 90), c.Huge("o", 1, 3, 6, 90)
	if p > 20 && o > 3 || o > 15 && p > 3 { // wide one way only
		r, p, o = 1+r%9, 1+(p-1)%90, 1+o%3
	}
	q.loss = c.Pick("loss", "square", "log", "cross-entropy")
	q.X = c.Mat("X", r, p, c.Pick("kind", vk.Grid, vk.Unif))
	q.X.Scale(.3, q.X)
	T = c.Mat("T", p, o, vk.Unif)
	T.Scale(.2/math.Max(1, math.Sqrt(float64(p)/4)), T) // away from saturation
	if c.Bool("zeros") {
		j, k, what := c.Int("zj", 0, p-1), c.Int("zo", 0, o-1), c.Int("zwhat", 0, 2) // one cell, one row or all, as at the start of a fit
		T = vk.Apply(T, func(a, b int, v float64) float64 {
			if what == 2 || a == j && (what == 1 || b == k) {
				return 0
			}
			return v
		})
	}
	rr := c.Rnd("y")
	q.Y = vk.Apply(mat.NewDense(r, o, nil), func(_, _ int, _ float64) float64 {
		switch rr.Intn(4) {
		case 0, 1:
			return float64(rr.Intn(2))
		}
		return rr.Float64()
	})
	q.a = acts[1]
	if q.loss == "square" {
		q.a = acts[c.Int("act", 0, 3)]
		q.Y = vk.Apply(q.Y, func(_, _ int, v float64) float64 { return v + rr.NormFloat64() })
	}
	q.alpha = c.PickF("alpha", 0, .1, 1, 7)
	q.l1 = c.PickF("l1", 0, .3, 1)
	q.n = r + c.PickI("more", 0, 0, 5)
	q.skipFirst = c.Bool("skipFirst")
	return
}

func TestLosses(t *testing.T) {
	vk.Prop(t, 6000, "square, log and cross-entropy losses at any parameters, activations, penalties, mini-batches, storage; non-trivial: penalized with several features", func(c *vk.C) {
		q, T := gen(c)
		r, p := q.X.Dims()
		_, o := q.Y.Dims()
		c.Mark(q.alpha > 0 && p > 1, "%s %s alpha=%g l1=%g n=%d skip=%v X=%s Y=%s T=%s", q.loss, q.a.name, q.alpha, q.l1, q.n, q.skipFirst, vk.M(q.X), vk.M(q.Y), vk.M(T))
		c.Class(q.loss + " " + q.a.name)
		f := lm.LossFunctions[q.loss]
		lx, ly, lt := c.Lay("X", q.X, true), c.Lay("Y", q.Y, true), c.Lay("T", T, false)
		mk := func(r, cols int) *mat.Dense {
			return c.Lay("tmp", c.Mat("junk", r, cols, vk.Gauss), false).M.(*mat.Dense)
		}
		P, D, G := mk(r, o), mk(r, o), mk(p, o)
		J := f(ly.M, lx.M, lt.M.(*mat.Dense), P, D, G, q.alpha, q.l1, q.n, q.a.a, q.skipFirst)
		c.Unchanged("loss", lx, ly, lt)
		c.EqF("J", J, q.value(T), 1e-9, 1e-12)
		J2 := f(ly.M, lx.M, lt.M.(*mat.Dense), P, D, nil, q.alpha, q.l1, q.n, q.a.a, q.skipFirst)
		c.EqF("J without a gradient", J2, J, 1e-14, 0)
		want := vk.Apply(mat.NewDense(r, o, nil), func(i, k int, _ float64) float64 {
			z := 0.
			for j := 0; j < p; j++ {
				z += q.X.At(i, j) * T.At(j, k)
			}
			return q.a.f(z)
		})
		c.Eq("Ypred", P, want, 1e-10, 1e-12)
		c.Eq("Ydiff", D, vk.Apply(want, func(i, k int, v float64) float64 { return v - q.Y.At(i, k) }), 1e-9, 1e-10)
		// numeric gradient, away from kinks
		h := 1e-5
		for j := 0; j < p; j++ {
			for k := 0; k < o; k++ {
				if q.alpha > 0 && q.l1 > 0 && !(q.skipFirst && j == 0) {
					s := 0.
					for kk := 0; kk < o; kk++ {
						s += T.At(j, kk) * T.At(j, kk)
					}
					if math.Sqrt(s) < .05 || q.loss == "cross-entropy" && math.Abs(T.At(j, k)) < .05 {
						// near the kink of the penalty: between the slopes on either side
						A, B, h := vk.Copy(T), vk.Copy(T), 1e-4
						A.Set(j, k, T.At(j, k)+h)
						B.Set(j, k, T.At(j, k)-h)
						right, left := (q.value(A)-q.value(T))/h, (q.value(T)-q.value(B))/h
						if tol := 2e-3 * (1 + math.Abs(J)); q.a.name != "relu" && !(G.At(j, k) <= right+tol && G.At(j, k) >= left-tol) {
							c.Fatalf("gradient (%d,%d) is %g, the slopes on its sides are %g and %g", j, k, G.At(j, k), left, right)
						}
						continue
					}
				}
				if q.a.name == "relu" {
					kink := false
					for i := 0; i < r; i++ {
						z := 0.
						for jj := 0; jj < p; jj++ {
							z += q.X.At(i, jj) * T.At(jj, k)
						}
						kink = kink || math.Abs(z) < 1e-3
					}
					if kink {
						continue
					}
				}
				A, B := vk.Copy(T), vk.Copy(T)
				A.Set(j, k, T.At(j, k)+h)
				B.Set(j, k, T.At(j, k)-h)
				num := (q.value(A) - q.value(B)) / (2 * h)
				if !vk.Close(G.At(j, k), num, 1e-4, 1e-5*(1+math.Abs(J))) {
					c.Fatalf("gradient (%d,%d) is %g, numerically %g", j, k, G.At(j, k), num)
				}
			}
		}
	})
}

func grad(q problem, T *mat.Dense) float64 {
	p, o := T.Dims()
	h, m := 1e-4, 0.
	for j := 0; j < p; j++ {
		for k := 0; k < o; k++ {
			A, B := vk.Copy(T), vk.Copy(T)
			A.Set(j, k, T.At(j, k)+h)
			B.Set(j, k, T.At(j, k)-h)
			m = math.Max(m, math.Abs(q.value(A)-q.value(B))/(2*h))
		}
	}
	return m
}

type recorder []float64

func (*recorder) Init() error { return nil }

func (r *recorder) Record(l *optimize.Location, _ optimize.Operation, _ *optimize.Stats) error {
	*r = append(*r, l.F)
	return nil
}

func TestLinFit(t *testing.T) {
	vk.Prop(t, 1000, "generic linear fits with gonum methods (converged to a stationary point) or own solvers (reported loss is the one at the parameters); non-trivial: several features", func(c *vk.C) {
		q, _ := gen(c)
		r, p := q.X.Dims()
		_, o := q.Y.Dims()
		q.n = r
		q.l1 = 0
		if q.alpha == 0 {
			q.alpha = .5
		}
		if q.loss == "log" {
			q.loss = "square"
		}
		q.skipFirst = q.skipFirst && q.loss == "square" // elsewhere there need not be a minimum
		if q.loss == "square" {
			q.a = acts[0]
		}
		opts := &lm.LinFitOptions{Alpha: q.alpha, Loss: lm.LossFunctions[q.loss], Activation: q.a.a, Tol: 1e-9, DisableRegularizationOfFirstFeature: q.skipFirst}
		solver := c.Pick("solver", "gom", "gom", "", "sgd", "adam", "rmsprop", "adagrad", "adadelta")
		c.Mark(p > 1, "%s solver=%s alpha=%g X=%s Y=%s", q.loss, solver, q.alpha, vk.M(q.X), vk.M(q.Y))
		c.Class(solver)
		slow, created := false, int32(0)
		switch solver {
		case "gom":
			name := c.Pick("method", "bfgs", "lbfgs", "bfgs", "lbfgs", "cg", "gradientdescent", "neldermead", "sgd", "adagrad", "rmsprop", "adadelta", "adam")
			c.Class(name)
			if slow = name != "bfgs" && name != "lbfgs"; slow {
				opts.Epochs = c.Int("evaluations", 100, 1000)
			}
			opts.GOMethodCreator = func() optimize.Method { // per output, possibly at the same time
				atomic.AddInt32(&created, 1)
				return base.GOMethodCreators[name]()
			}
		case "":
		default:
			opts.Solver = solver
			opts.Epochs = c.Int("epochs", 1, 20)
			opts.MiniBatchSize = c.Int("batch", 1, 2*r)
			if c.Bool("init") {
				opts.ThetaInitializer = func(T *mat.Dense) {
					T.Apply(func(i, j int, _ float64) float64 { return float64(i-j) / 4 }, T)
				}
			}
		}
		lx, ly := c.Lay("X", q.X, false), c.Lay("Y", q.Y, false)
		// the rows each sample turns up in mini batches, and the losses at the end of the epochs
		var rec recorder
		rows := 0
		if opts.Solver != "" {
			opts.Recorder = &rec
			loss := opts.Loss
			opts.Loss = func(Yt, X mat.Matrix, T, Yp, Yd, g *mat.Dense, alpha, l1 float64, n int, a lm.Activation, skip bool) float64 {
				if k, _ := X.Dims(); k < r {
					rows += k
				}
				return loss(Yt, X, T, Yp, Yd, g, alpha, l1, n, a, skip)
			}
		}
		var res *lm.LinFitResult
		if solver == "gom" && c.Bool("gomDirect") {
			opts.PerOutputFit = c.Bool("perOutput")
			res = lm.LinFitGOM(lx.M.(*mat.Dense), ly.M.(*mat.Dense), opts)
		} else {
			res = lm.LinFit(lx.M.(*mat.Dense), ly.M.(*mat.Dense), opts)
		}
		c.Unchanged("LinFit", lx, ly)
		if solver == "gom" && created == 0 {
			c.Fatalf("the method asked for was never created")
		}
		if a, b := res.Theta.Dims(); a != p || b != o || !vk.Finite(res.Theta) {
			c.Fatalf("Theta %s", vk.M(res.Theta))
		}
		if opts.Solver != "" {
			var Z mat.Dense
			Z.Mul(q.X, res.Theta)
			if q.loss == "square" || mat.Max(&Z) < 15 && mat.Min(&Z) > -15 { // elsewhere probabilities are clipped
				c.EqF("J", res.J, q.value(res.Theta), 1e-9, 1e-12)
			}
			best := math.Inf(1)
			for _, f := range rec {
				best = math.Min(best, f)
			}
			c.EqF("J against the best epoch's", res.J, best, 1e-12, 1e-15)
			if opts.MiniBatchSize < r && rows != r*(len(rec)-1) {
				c.Fatalf("mini batches of %d of %d rows hold %d rows in %d epochs", opts.MiniBatchSize, r, rows, len(rec)-1)
			}
			if res.Epoch > opts.Epochs+1 {
				c.Fatalf("%d epochs of %d", res.Epoch, opts.Epochs)
			}
		} else if slow { // these may stop for lack of progress before they arrive
			zero := mat.NewDense(p, o, nil)
			if g, w := q.value(res.Theta), q.value(zero); g > w+.05*(1+w)+.05*grad(q, zero)*float64(p*o) {
				c.Fatalf("loss %g at the end, %g for zero parameters", g, w)
			}
		} else if g := grad(q, res.Theta); g > 1e-4 {
			c.Fatalf("slope %g at the end", g)
		}
	})
}

// TestFar: single samples far from the decision boundary.
func TestFar(t *testing.T) {
	vk.Prop(t, 400, "log and cross-entropy loss of one sample whose probability is close to 0 or 1; non-trivial: closer than 1e-6", func(c *vk.C) {
		z := c.Float("z", -600, 34)
		if c.Bool("near") {
			z = c.Float("z2", -34, 34)
		}
		y := c.PickF("y", 0, 1, .3)
		loss := c.Pick("loss", "log", "cross-entropy")
		c.Mark(math.Abs(z) > 14, "%s z=%g y=%g", loss, z, y)
		one := func(v float64) *mat.Dense { return mat.NewDense(1, 1, []float64{v}) }
		P, D, g := one(0), one(0), one(0)
		J := lm.LossFunctions[loss](one(y), one(z), one(1), P, D, g, 0, 0, 1, base.Logistic{}, false)
		h := 1 / (1 + math.Exp(-z))
		lh, l1h := -math.Log1p(math.Exp(-z)), -math.Log1p(math.Exp(z))
		if z < -30 {
			lh = z
		}
		want, slope := -y*lh, -y*(1-h)*z
		tol := 1e-9 * math.Abs(want)
		if loss == "cross-entropy" {
			want -= (1 - y) * l1h
			slope = (h - y) * z
			tol += (1-y)*4e-16*math.Exp(math.Max(0, z)) + 1e-9*math.Abs(want)
		}
		c.EqF("P", P.At(0, 0), h, 1e-12, 0)
		c.EqF("D", D.At(0, 0), h-y, 1e-12, 1e-15)
		c.EqF("J", J, want, 0, tol+1e-15)
		c.EqF("gradient", g.At(0, 0), slope, 1e-9, 1e-15*math.Abs(z)+1e-300)
	})
}
