// C36: MLP training is regularized mini-batch gradient descent from the given weights.
package c36

import (
	"fmt"
	"math"
	"testing"

	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/mat"
	"verifharness/mlpref"
	"verifharness/vk"
)

type problem struct {
	kind string
	net  *mlpref.Net
	X, Y *mat.Dense
	u    []int
}

// gen draws a model kind, starting weights and data. Targets are 0/1 columns for classification.
func gen(c *vk.C, kinds ...string) *problem {
	p := &problem{kind: c.Pick("kind", kinds...)}
	n := c.Huge("rows", 2, 9, 40, 420)
	nin, nout := c.Huge("inputs", 1, 4, 9, 100), c.Huge("outputs", 1, 3, 7, 100)
	out := "identity"
	if p.kind == "classifier" || p.kind[0] == 'b' && c.Bool("classification") {
		if nout == 2 {
			nout = 3
		}
		out = "logistic"
		if nout > 1 {
			out = "softmax"
		}
	}
	p.u = []int{nin}
	for l := c.PickI("layers", 1, 0, 2); l > 0; l-- {
		p.u = append(p.u, c.Huge("units", 1, 4, 10, 120))
	}
	p.u = append(p.u, nout)
	p.net = mlpref.Gen(c, "net", p.u, c.Pick("act", "tanh", "logistic", "relu", "identity"), out, .7)
	p.X = c.Mat("X", n, nin, vk.Gauss)
	p.Y = mat.NewDense(n, nout, nil)
	r := c.Rnd("Y")
	for i := 0; i < n; i++ {
		switch out {
		case "identity":
			for j := 0; j < nout; j++ {
				p.Y.Set(i, j, r.NormFloat64()+p.X.At(i, 0))
			}
		case "logistic":
			p.Y.Set(i, 0, float64(r.Intn(2)))
		default:
			p.Y.Set(i, r.Intn(nout), 1)
		}
	}
	return p
}

func (p *problem) model(cfg mlpref.Cfg) interface{} {
	m := mlpref.New(p.kind, p.net.Hidden(), p.net.Act)
	cfg.Configure(m)
	p.net.Load(m)
	mlpref.Set(m, map[string]interface{}{"WarmStart": true, "Shuffle": false})
	return m
}

func drawCfg(c *vk.C, solver string, n int) mlpref.Cfg {
	cfg := mlpref.Cfg{Solver: solver, Schedule: "constant", MaxIter: c.SizeTo("epochs", 1, 4, 9), Tol: 1e-4, NoChange: 10,
		LR: c.PickF("lr", .02, .005, .1), PowerT: .5, Momentum: .9, Nesterov: true, Beta1: .9, Beta2: .999, Eps: 1e-8, ValFraction: .1}
	cfg.Alpha = c.PickF("alpha", 0, .3, 1e-3)
	cfg.WeightDecay = c.PickF("decay", 0, 0, .01)
	cfg.Batch = c.PickI("batch", 2, 3, 0, 1, n, n+5, 4)
	if n > 200 { // where the default batch has 200 rows
		cfg.Batch = c.PickI("bigbatch", 0, 0, 0, 64, n)
	}
	if solver == "sgd" {
		cfg.Schedule = c.Pick("schedule", "constant", "invscaling", "adaptive")
		cfg.Momentum = c.PickF("momentum", .9, 0, .5)
		cfg.Nesterov = c.Bool("nesterov")
		cfg.PowerT = c.PickF("powert", .5, .25)
	} else {
		cfg.Beta1, cfg.Beta2 = c.PickF("beta1", .9, .5), c.PickF("beta2", .999, .9)
		cfg.Eps = c.PickF("eps", 1e-8, 1e-3)
	}
	return cfg
}

const (
	staleRows = "the last smaller batch of an epoch also trains on the rows the previous batch left in the buffers (BaseMultilayerPerceptron.fitStochastic)"
	adamBias  = "Adam multiplies its bias corrections by beta once per parameter instead of once per step (AdamOptimizer.updateParams)"
)

// compare checks a trained model against the reference; each recorded defect is accepted only when
// the model computes exactly what that defect computes.
func compare(c *vk.C, p *problem, m interface{}, cfg mlpref.Cfg, check func(r *mlpref.Result) string) (res *mlpref.Result) {
	first, where := "", ""
	for v := 0; v < 4; v++ {
		k := cfg
		k.StaleRows, k.AdamPerParam = v&1 != 0, v&2 != 0
		if k.AdamPerParam && cfg.Solver != "adam" {
			continue
		}
		r := mlpref.Train(p.net, p.X, p.Y, k)
		if res == nil {
			res = r
		}
		if k.StaleRows && !r.Partial {
			continue
		}
		if r.Blown || r.Risk < 1e-9 || mlpref.Sensitivity(p.net, p.X, p.Y, k, r) > 1e-8 {
			return nil // too close to a tie, or diverging: either outcome is legitimate
		}
		d := check(r)
		if d == "" {
			if k.StaleRows {
				c.Known("mlp-partial-batch", staleRows)
			}
			if k.AdamPerParam {
				c.Known("mlp-adam-bias", adamBias)
			}
			return r
		}
		if v == 0 {
			first = d
		}
		where += fmt.Sprintf(" [variant %d: %s]", v, d)
	}
	c.Fatalf("%s%s", first, where)
	return nil
}

func diff(m interface{}, r *mlpref.Result, rtol float64) string {
	if d := vk.DiffS(mlpref.Field(m, "LossCurve"), r.LossCurve, rtol, rtol); d != "" {
		return "LossCurve: " + d
	}
	if d := vk.DiffS(mlpref.Of(m).Pack(), r.Net.Pack(), rtol, rtol); d != "" {
		return "weights: " + d
	}
	if g := mlpref.Field(m, "Loss")[0]; !vk.Close(g, r.Loss, rtol, rtol) {
		return fmt.Sprintf("Loss %g, want %g", g, r.Loss)
	}
	if g := mlpref.Field(m, "NIter")[0]; int(g) != r.NIter {
		return fmt.Sprintf("NIter %g, want %d", g, r.NIter)
	}
	return ""
}

// TestDescent: a few epochs of sgd or adam from given weights.
func TestDescent(t *testing.T) {
	vk.Prop(t, 500, "the run neither diverges nor comes near a tie, and makes at least 2 updates", func(c *vk.C) {
		p := gen(c, "regressor", "classifier", "base64")
		n, _ := p.X.Dims()
		cfg := drawCfg(c, c.Pick("solver", "sgd", "adam"), n)
		cfg.Norm = c.Int("norm", 0, 5) == 0
		m := p.model(cfg)
		xl, yl := c.Lay("X", p.X, true), c.Lay("Y", p.Y, true)
		mlpref.Fit(m, xl.M, yl.M)
		r := compare(c, p, m, cfg, func(r *mlpref.Result) string { return diff(m, r, 1e-7) })
		c.Mark(r != nil && (cfg.MaxIter > 1 || cfg.Batch > 0 && cfg.Batch < n), "%s %v %s/%s %+v rows=%d", p.kind, p.u, p.net.Act, p.net.Out, cfg, n)
		c.Class(cfg.Solver)
		c.Class(p.net.Out)
		if r != nil && r.Partial {
			c.Class("partial batch")
		}
		c.Unchanged("Fit", xl, yl)
		if g := mlpref.Field(m, "BatchSize")[0]; int(g) != cfg.Batch {
			c.Fatalf("Fit changed BatchSize from %d to %g", cfg.Batch, g)
		}
	})
}

// TestStopping: the tolerance, the adaptive rate and early stopping decide when training ends.
func TestStopping(t *testing.T) {
	vk.Prop(t, 500, "training stops, or cuts its rate, before MaxIter, away from ties", func(c *vk.C) {
		p := gen(c, "regressor", "classifier", "base64")
		n, _ := p.X.Dims()
		cfg := drawCfg(c, c.Pick("solver", "sgd", "adam"), n)
		cfg.MaxIter = c.PickI("maxiter", 30, 60)
		cfg.WeightDecay = 0
		cfg.NoChange = c.Int("nochange", 1, 4)
		cfg.Tol = c.PickF("tol", .02, .1, 1e-3, 5)
		cfg.LR = c.PickF("lr2", .02, .1)
		if n >= 4 && c.Bool("early") {
			cfg.Early = true
			cfg.ValFraction = c.PickF("val", .25, .5, .1)
		}
		m := p.model(cfg)
		mlpref.Fit(m, p.X, p.Y)
		r := compare(c, p, m, cfg, func(r *mlpref.Result) string {
			if d := diff(m, r, 1e-6); d != "" {
				return d
			}
			if cfg.Early {
				if d := vk.DiffS(mlpref.Field(m, "ValidationScores"), r.Scores, 1e-6, 1e-6); d != "" {
					return "ValidationScores: " + d
				}
				if g := mlpref.Field(m, "BestValidationScore")[0]; !vk.Close(g, r.Best, 1e-6, 1e-6) {
					return fmt.Sprintf("BestValidationScore %g, want %g", g, r.Best)
				}
			} else if g := mlpref.Field(m, "BestLoss")[0]; !vk.Close(g, r.Best, 1e-6, 1e-6) {
				return fmt.Sprintf("BestLoss %g, want %g", g, r.Best)
			}
			return ""
		})
		c.Mark(r != nil && (r.Stopped || r.Cut > 0), "%s %v %s/%s %+v rows=%d", p.kind, p.u, p.net.Act, p.net.Out, cfg, n)
		if cfg.Early {
			c.Class("early stopping")
		}
		if r != nil && r.Cut > 0 {
			c.Class("adaptive cut")
		}
	})
}

// TestEarlyBest: whatever the solver does, early stopping leaves the weights that scored best on the held-out rows.
func TestEarlyBest(t *testing.T) {
	vk.Prop(t, 400, "the best score is not the last one", func(c *vk.C) {
		p := gen(c, "regressor", "classifier", "base64")
		n, _ := p.X.Dims()
		if n < 4 {
			c.Mark(false, "too few rows")
			return
		}
		cfg := drawCfg(c, c.Pick("solver", "sgd", "adam"), n)
		cfg.MaxIter, cfg.Early, cfg.ValFraction = c.Int("maxiter", 1, 30), true, c.PickF("val", .25, .5)
		m := p.model(cfg)
		mlpref.Set(m, map[string]interface{}{"Shuffle": c.Bool("shuffle")})
		mlpref.Fit(m, p.X, p.Y)
		scores, best := mlpref.Field(m, "ValidationScores"), math.Inf(-1)
		for _, s := range scores {
			if math.IsNaN(s) {
				c.Mark(false, "diverged")
				return
			}
			best = math.Max(best, s)
		}
		c.Mark(best != scores[len(scores)-1], "%s %v %+v rows=%d", p.kind, p.u, cfg, n)
		c.EqF("BestValidationScore", mlpref.Field(m, "BestValidationScore")[0], best, 1e-9, 1e-12)
		nt := n - int(math.Ceil(cfg.ValFraction*float64(n)))
		net := mlpref.Of(m)
		Xv, Yv := vk.RowRange(p.X, nt, n), vk.RowRange(p.Y, nt, n)
		P := net.ForwardMat(Xv)
		if net.Out == "identity" {
			if best > -1e6 {
				c.EqF("score of the kept weights on the held-out rows", mlpref.R2(Yv, P), best, 1e-7, 1e-7)
			}
		} else if D, margin := mlpref.Decide(P); margin > 1e-9 {
			c.EqF("accuracy of the kept weights on the held-out rows", mlpref.Accuracy(Yv, D), best, 1e-9, 1e-12)
		}
	})
}

// TestLbfgs: the loss it reports is the loss of the weights it keeps, no larger than at the start, and
// close to the minimum when the problem is convex.
func TestLbfgs(t *testing.T) {
	vk.Prop(t, 300, "the loss decreases", func(c *vk.C) {
		p := gen(c, "regressor", "classifier", "base64")
		cfg := drawCfg(c, "lbfgs", 5)
		cfg.WeightDecay = 0
		cfg.Alpha = c.PickF("alpha2", .3, 1, .05)
		cfg.MaxIter, cfg.Tol = c.PickI("maxiter", 400, 3, 10, 1), 1e-12
		m := p.model(cfg)
		xl, yl := c.Lay("X", p.X, true), c.Lay("Y", p.Y, true)
		mlpref.Fit(m, xl.M, yl.M)
		c.Unchanged("Fit", xl, yl)
		net := mlpref.Of(m)
		start, loss := p.net.Loss(p.X, p.Y, cfg.Alpha), net.Loss(p.X, p.Y, cfg.Alpha)
		got := mlpref.Field(m, "Loss")[0]
		c.Mark(loss < start, "%s %v %s/%s alpha=%g iter=%d X=%s", p.kind, p.u, p.net.Act, p.net.Out, cfg.Alpha, cfg.MaxIter, vk.M(p.X))
		c.EqF("Loss", got, loss, 1e-8, 1e-10)
		if loss > start*(1+1e-9) {
			c.Fatalf("lbfgs ends at loss %g, it started from %g", loss, start)
		}
		for _, l := range mlpref.Field(m, "LossCurve") {
			if l < got-1e-9*math.Abs(got) {
				c.Fatalf("lbfgs keeps loss %g but it met %g", got, l)
			}
		}
		if len(p.u) == 2 && cfg.MaxIter == 400 {
			_, g := net.Gradient(p.X, p.Y, cfg.Alpha)
			for _, v := range g {
				if math.Abs(v) > 2e-3 {
					c.Fatalf("lbfgs stopped at gradient %v", g)
				}
			}
			c.Class("convex")
		}
	})
}

// TestPrecisions: the float32 network trains like the float64 one.
func TestPrecisions(t *testing.T) {
	vk.Prop(t, 400, "at least 2 updates, away from ties", func(c *vk.C) {
		p := gen(c, "base64")
		n, _ := p.X.Dims()
		cfg := drawCfg(c, c.Pick("solver", "sgd", "adam"), n)
		cfg.MaxIter = c.Int("epochs2", 1, 3)
		cfg.Eps, cfg.Tol = 1e-2, 0
		cfg.Norm = c.Int("norm", 0, 4) == 0
		stopping := c.Int("stopping", 0, 2) == 0
		if stopping {
			cfg.MaxIter, cfg.NoChange, cfg.Tol = c.Int("epochs3", 4, 20), c.Int("nochange", 1, 2), c.PickF("tol", .02, .1, 5)
			cfg.LR = c.PickF("lr2", .02, .005)
			if n >= 4 && c.Bool("early") {
				cfg.Early, cfg.ValFraction = true, c.PickF("val", .25, .5)
			}
		}
		a := p.model(cfg)
		p.kind = "base32"
		b := p.model(cfg)
		mlpref.Fit(a, p.X, p.Y)
		mlpref.Fit(b, p.X, p.Y)
		ok := true
		for v := 0; v < 4 && ok; v++ {
			k := cfg
			k.StaleRows, k.AdamPerParam = v&1 != 0, v&2 != 0
			r := mlpref.Train(p.net, p.X, p.Y, k)
			ok = !r.Blown && r.Risk > 1e-3 && mlpref.Sensitivity(p.net, p.X, p.Y, k, r) < 1e-10
			for _, l := range r.LossCurve {
				// float32 probabilities saturate much earlier than float64 ones
				ok = ok && (p.net.Out == "identity" && l < 1e3 || l*float64(n) < 8)
			}
		}
		c.Mark(ok && (cfg.MaxIter > 1 || cfg.Batch > 0 && cfg.Batch < n), "%v %s/%s %+v rows=%d", p.u, p.net.Act, p.net.Out, cfg, n)
		if ok {
			c.EqS("iterations in both precisions", mlpref.Field(b, "NIter"), mlpref.Field(a, "NIter"), 0, 0)
			c.EqS("validation scores in both precisions", mlpref.Field(b, "ValidationScores"), mlpref.Field(a, "ValidationScores"), 1e-2, 1e-2)
			c.EqS("weights in both precisions", mlpref.Of(b).Pack(), mlpref.Of(a).Pack(), 1e-2, 1e-2)
			c.EqS("loss curve in both precisions", mlpref.Field(b, "LossCurve"), mlpref.Field(a, "LossCurve"), 1e-2, 1e-2)
		}
	})
}

var _ = nn.NewMLPClassifier
