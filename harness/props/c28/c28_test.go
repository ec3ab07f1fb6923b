// C28: Bayesian ridge regression follows its evidence updates.
package c28

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// inverse by Gauss-Jordan, with the log determinant.
func inverse(A *mat.Dense) (*mat.Dense, float64) {
	p, _ := A.Dims()
	W := mat.NewDense(p, 2*p, nil)
	for i := 0; i < p; i++ {
		for j := 0; j < p; j++ {
			W.Set(i, j, A.At(i, j))
		}
		W.Set(i, p+i, 1)
	}
	ld := 0.
	for j := 0; j < p; j++ {
		b := j
		for r := j; r < p; r++ {
			if math.Abs(W.At(r, j)) > math.Abs(W.At(b, j)) {
				b = r
			}
		}
		rj, rb := vk.Row(W, j), vk.Row(W, b)
		W.SetRow(j, rb)
		W.SetRow(b, rj)
		pv := W.At(j, j)
		ld += math.Log(math.Abs(pv))
		for l := 0; l < 2*p; l++ {
			W.Set(j, l, W.At(j, l)/pv)
		}
		for r := 0; r < p; r++ {
			if f := W.At(r, j); r != j && f != 0 {
				for l := 0; l < 2*p; l++ {
					W.Set(r, l, W.At(r, l)-f*W.At(j, l))
				}
			}
		}
	}
	return vk.Copy(W.Slice(0, p, p, 2*p)), ld
}

type ref struct {
	alpha, lambda float64 // those the coefficients come from
	coef          []float64
	sigma         *mat.Dense
	scores        []float64
	iters         int
	unsure        bool
}

func fit(Z *mat.Dense, y []float64, m *lm.BayesianRidge) (r ref) {
	n, p := Z.Dims()
	XtX, Xty, yy := mat.NewDense(p, p, nil), make([]float64, p), 0.
	for i := 0; i < n; i++ {
		yy += y[i] * y[i]
		for j := 0; j < p; j++ {
			Xty[j] += Z.At(i, j) * y[i]
			for k := 0; k < p; k++ {
				XtX.Set(j, k, XtX.At(j, k)+Z.At(i, j)*Z.At(i, k))
			}
		}
	}
	alpha, lambda := float64(n)/yy, 1.
	post := func() (*mat.Dense, float64) {
		return inverse(vk.Apply(XtX, func(i, j int, v float64) float64 {
			if i == j {
				return alpha*v + lambda
			}
			return alpha * v
		}))
	}
	var old []float64
	for it := 0; it < m.NIter; it++ {
		S, ld := post()
		r.coef = make([]float64, p)
		tr, w2 := 0., 0.
		for j := 0; j < p; j++ {
			for k := 0; k < p; k++ {
				r.coef[j] += alpha * S.At(j, k) * Xty[k]
			}
			tr += S.At(j, j)
			w2 += r.coef[j] * r.coef[j]
		}
		r.alpha, r.lambda, r.iters = alpha, lambda, it+1
		sse := 0.
		for i := 0; i < n; i++ {
			e := y[i]
			for j := 0; j < p; j++ {
				e -= Z.At(i, j) * r.coef[j]
			}
			sse += e * e
		}
		gamma := float64(p) - lambda*tr
		lambda = (gamma + 2*m.Lambda1) / (w2 + 2*m.Lambda2)
		alpha = (float64(n) - gamma + 2*m.Alpha1) / (sse + 2*m.Alpha2)
		r.scores = append(r.scores, m.Lambda1*math.Log(lambda)-m.Lambda2*lambda+m.Alpha1*math.Log(alpha)-m.Alpha2*alpha+
			.5*(float64(p)*math.Log(lambda)+float64(n)*math.Log(alpha)-alpha*sse-lambda*w2-ld-float64(n)*math.Log(2*math.Pi)))
		if it > 0 {
			d := 0.
			for j := range old {
				d += math.Abs(old[j] - r.coef[j])
			}
			if math.Abs(d-m.Tol) < 1e-4*m.Tol {
				r.unsure = true
			}
			if d < m.Tol {
				break
			}
		}
		old = r.coef
	}
	r.sigma, _ = post()
	return
}

func TestBayesianRidge(t *testing.T) {
	vk.Prop(t, 4000, "Bayesian ridge fits with more rows than features, any priors, options, iteration limits, refits and clones, predictive deviations; non-trivial: at least 2 features and 2 iterations", func(c *vk.C) {
		p := c.Size("p", 1, 5, 9)
		n := p + c.Size("more", 1, 10, 40)
		X := c.Mat("X", n, p, c.Pick("kind", vk.Grid, vk.Unif, vk.Gauss))
		y := c.Mat("y", n, 1, c.Pick("ykind", vk.Grid, vk.Gauss))
		if vk.IsConst(vk.Col(y, 0)) {
			y.Set(0, 0, y.At(0, 0)+1)
		}
		noise := c.PickF("noise", .1, 1)
		if c.Bool("linear") {
			for i := 0; i < n; i++ {
				v := noise * y.At(i, 0)
				for j := 0; j < p; j++ {
					v += float64(j-1) * X.At(i, j)
				}
				y.Set(i, 0, v)
			}
			if vk.IsConst(vk.Col(y, 0)) {
				y.Set(0, 0, y.At(0, 0)+1)
			}
		}
		if c.Bool("constant") {
			for i := 0; i < n; i++ {
				X.Set(i, p-1, 2)
			}
		}
		m := lm.NewBayesianRidge()
		m.FitIntercept = c.PickI("intercept", 1, 1, 1, 0) == 1
		m.Normalize = c.Bool("normalize")
		m.ComputeScore = c.Bool("score")
		m.NIter = c.PickI("niter", 1, 2, 3, 5, 20, 300)
		m.Tol = c.PickF("tol", 1e-3, 1e-5)
		m.Alpha1, m.Alpha2, m.Lambda1, m.Lambda2 = c.PickF("a1", 1e-6, .1), c.PickF("a2", 1e-6, .2), c.PickF("l1", 1e-6, .3), c.PickF("l2", 1e-6, .1)
		switch c.Int("history", 0, 3) {
		case 0:
			m.Fit(c.Mat("D", p+7, p, vk.Gauss), c.Mat("DY", p+7, 1, vk.Gauss))
		case 1:
			m.Fit(c.Mat("D", p+7, p, vk.Gauss), c.Mat("DY", p+7, 1, vk.Gauss))
			m = m.PredicterClone().(*lm.BayesianRidge)
		}
		lx, ly := c.Lay("X", X, true), c.Lay("y", y, true)
		if r := m.Fit(lx.M, ly.M); r != base.Fiter(m) {
			c.Fatalf("Fit returns something else")
		}
		c.Unchanged("Fit", lx, ly)
		Z, v := vk.Copy(X), vk.Col(y, 0)
		off, scale := make([]float64, p), make([]float64, p)
		ym := 0.
		for j := range scale {
			scale[j] = 1
			if m.FitIntercept {
				x := vk.Col(X, j)
				var vr float64
				off[j], vr = vk.MeanVar(x)
				if m.Normalize && !vk.IsConst(x) {
					scale[j] = math.Sqrt(vr * float64(n))
				}
				for i := range x {
					x[i] = (x[i] - off[j]) / scale[j]
				}
				Z.SetCol(j, x)
			}
		}
		if m.FitIntercept {
			ym, _ = vk.MeanVar(v)
			for i := range v {
				v[i] -= ym
			}
		}
		coef, icpt := m.Coef, m.Intercept
		if r, cc := coef.Dims(); r != p || cc != 1 {
			c.Fatalf("coef %s", vk.M(coef))
		}
		want := fit(Z, v, m)
		c.Mark(p > 1 && want.iters > 1, "intercept=%v normalize=%v niter=%d priors=%v X=%s y=%s", m.FitIntercept, m.Normalize, m.NIter, []float64{m.Alpha1, m.Alpha2, m.Lambda1, m.Lambda2}, vk.M(X), vk.M(y))
		if want.unsure {
			c.Skip("stopping decision within rounding")
		}
		tol := 1e-5
		cs := make([]float64, p)
		mx := 1.
		for j := range cs {
			cs[j] = coef.At(j, 0) * scale[j]
			mx = math.Max(mx, math.Abs(want.coef[j]))
		}
		c.EqS("coefficients", cs, want.coef, tol, tol*mx)
		c.EqF("Alpha", m.Alpha, want.alpha, tol, 0)
		c.EqF("Lambda", m.Lambda, want.lambda, tol, 0)
		c.Eq("Sigma", m.Sigma, want.sigma, tol, tol*mat.Norm(want.sigma, math.Inf(1)))
		if m.ComputeScore {
			c.EqS("Scores", m.Scores, want.scores, tol, tol*float64(n))
		} else if len(m.Scores) != 0 {
			c.Fatalf("scores %v not asked for", m.Scores)
		}
		wi := ym
		for j := range off {
			wi -= coef.At(j, 0) * off[j]
		}
		c.EqF("Intercept", icpt.At(0, 0), wi, 1e-8, 1e-8*(1+mx))
		q := c.Int("q", 1, 5)
		Q := c.Mat("Q", q, p, vk.Unif)
		pred := vk.Apply(mat.NewDense(q, 1, nil), func(i, _ int, _ float64) float64 {
			s := icpt.At(0, 0)
			for j := 0; j < p; j++ {
				s += Q.At(i, j) * coef.At(j, 0)
			}
			return s
		})
		lq, d := c.Lay("Q", Q, true), c.Dst("P", q, 1)
		c.EqDst("Predict", m.Predict(lq.M, d.M), d, pred, 1e-9, 1e-9*(1+mx))
		Yo, Sd := &mat.Dense{}, &mat.Dense{}
		lq2 := c.Lay("Q2", Q, false)
		switch c.Int("later", 0, 3) {
		case 0: // a clone answers like the original
			m = m.PredicterClone().(*lm.BayesianRidge)
		case 1: // and leaves the original alone
			scores, sigma, alpha := append([]float64(nil), m.Scores...), vk.Copy(m.Sigma), m.Alpha
			m.PredicterClone().Fit(c.Mat("E", p+7, p, vk.Gauss), c.Mat("EY", p+7, 1, vk.Gauss))
			c.EqS("scores after a clone's fit", m.Scores, scores, 0, 0)
			c.Eq("Sigma after a clone's fit", m.Sigma, sigma, 0, 0)
			c.EqF("Alpha after a clone's fit", m.Alpha, alpha, 0, 0)
		}
		m.Predict2(lq2.M.(*mat.Dense), Yo, Sd)
		c.Unchanged("Predict2", lq, lq2)
		c.Eq("Predict2 mean", Yo, pred, 1e-9, 1e-9*(1+mx))
		c.Eq("Predict2 deviation", Sd, vk.Apply(pred, func(i, _ int, _ float64) float64 {
			s := 1 / m.Alpha
			for j := 0; j < p; j++ {
				for k := 0; k < p; k++ {
					a, b := Q.At(i, j), Q.At(i, k)
					if m.Normalize {
						a, b = (a-off[j])/scale[j], (b-off[k])/scale[k]
					}
					s += a * want.sigma.At(j, k) * b
				}
			}
			return math.Sqrt(s)
		}), 1e-4, 1e-6)
		a, b, mean := 0., 0., 0.
		mean, _ = vk.MeanVar(vk.Col(y, 0))
		for i := 0; i < n; i++ {
			e := y.At(i, 0) - icpt.At(0, 0)
			for j := 0; j < p; j++ {
				e -= X.At(i, j) * coef.At(j, 0)
			}
			a += e * e
			b += (y.At(i, 0) - mean) * (y.At(i, 0) - mean)
		}
		c.EqF("Score", m.Score(lx.M, ly.M), 1-a/b, 1e-6, 1e-6)
		if m.IsClassifier() || m.GetNOutputs() != 1 {
			c.Fatalf("GetNOutputs %d", m.GetNOutputs())
		}
	})
}
