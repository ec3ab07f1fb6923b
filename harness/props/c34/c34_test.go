// C34: Gaussian process regression: marginal likelihood, its gradient, prior and posterior.
package c34

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"gonum.org/v1/gonum/mat"
	"verifharness/gpref"
	"verifharness/vk"
)

// inverse by Gauss-Jordan, with the log determinant (of a positive definite matrix).
func inverse(A *mat.Dense) (*mat.Dense, float64) {
	p, _ := A.Dims()
	W := mat.NewDense(p, 2*p, nil)
	for i := 0; i < p; i++ {
		for j := 0; j < p; j++ {
			W.Set(i, j, A.At(i, j))
		}
		W.Set(i, p+i, 1)
	}
	ld := 0.
	for j := 0; j < p; j++ {
		pv := W.At(j, j)
		ld += math.Log(pv)
		for l := 0; l < 2*p; l++ {
			W.Set(j, l, W.At(j, l)/pv)
		}
		for r := 0; r < p; r++ {
			if f := W.At(r, j); r != j && f != 0 {
				for l := 0; l < 2*p; l++ {
					W.Set(r, l, W.At(r, l)-f*W.At(j, l))
				}
			}
		}
	}
	return vk.Copy(W.Slice(0, p, p, 2*p)), ld
}

func gram(n *gpref.Node, A, B *mat.Dense) *mat.Dense {
	ra, _ := A.Dims()
	rb, _ := B.Dims()
	return vk.Apply(mat.NewDense(ra, rb, nil), func(i, j int, _ float64) float64 {
		v, _ := n.Eval(vk.Row(A, i), vk.Row(B, j))
		return v
	})
}

func noisy(n *gpref.Node, X *mat.Dense, alpha []float64) *mat.Dense {
	K := gram(n, X, X)
	r, _ := K.Dims()
	for i := 0; i < r; i++ {
		K.Set(i, i, K.At(i, i)+alpha[i%len(alpha)])
	}
	return K
}

func mul(a, b mat.Matrix) *mat.Dense {
	ra, k := a.Dims()
	_, cb := b.Dims()
	return vk.Apply(mat.NewDense(ra, cb, nil), func(i, j int, _ float64) (s float64) {
		for l := 0; l < k; l++ {
			s += a.At(i, l) * b.At(l, j)
		}
		return
	})
}

func lml(n *gpref.Node, X, Y *mat.Dense, alpha []float64) (float64, []float64) {
	Ki, ld := inverse(noisy(n, X, alpha))
	nx, o := Y.Dims()
	A := mul(Ki, Y)
	v := 0.
	for k := 0; k < o; k++ {
		for i := 0; i < nx; i++ {
			v -= Y.At(i, k) * A.At(i, k) / 2
		}
		v -= ld/2 + float64(nx)/2*math.Log(2*math.Pi)
	}
	th, _, _ := n.Theta()
	g := make([]float64, len(th))
	for i := 0; i < nx; i++ {
		for j := 0; j < nx; j++ {
			_, kg := n.Eval(vk.Row(X, i), vk.Row(X, j))
			for k := 0; k < o; k++ {
				for l := range kg {
					g[l] += .5 * (A.At(i, k)*A.At(j, k) - Ki.At(i, j)) * kg[l]
				}
			}
		}
	}
	return v, g
}

func TestGP(t *testing.T) {
	vk.Prop(t, 3000, "kernel expressions, one noise level or one per sample, several outputs, refits, clones, other thetas; non-trivial: at least 3 samples and one free hyperparameter", func(c *vk.C) {
		p, o := c.Size("p", 1, 3, 6), c.Size("outputs", 1, 3, 6)
		n := gpref.Gen(c, "", p, c.PickI("depth", 2, 1, 0, 2))
		th, _, _ := n.Theta()
		nx := c.Size("nx", 1, 5, 10)
		X, Y := c.Mat("X", nx, p, c.Pick("kx", vk.Grid, vk.Gauss)), c.Mat("Y", nx, o, vk.Gauss)
		X.Scale(.4, X)
		q := c.Size("q", 2, 5, 12)
		Q := c.Mat("Q", q, p, vk.Gauss)
		Q.Scale(.4, Q)
		Q.SetRow(0, vk.Row(X, 0))
		m := gp.NewRegressor(n.Build())
		if m.IsClassifier() {
			c.Fatalf("IsClassifier")
		}
		alpha := []float64{c.PickF("alpha", .1, 1, .02)}
		if c.Bool("alphas") {
			r := c.Rnd("alphas")
			for len(alpha) < nx {
				alpha = append(alpha, .02+r.Float64())
			}
		}
		m.Alpha = append([]float64(nil), alpha...)
		// the prior
		lq := c.Lay("Q", Q, true)
		prior := gram(n, Q, Q)
		if c.Bool("prior") {
			d := c.Dst("prior", q, 1)
			mean, _, cov := m.PredictEx(lq.M, d.M, false, true)
			c.EqDst("prior mean", mean, d, mat.NewDense(q, 1, nil), 0, 0)
			c.Eq("prior covariance", cov, prior, 1e-9, 1e-12)
			if _, _, cov = m.PredictEx(lq.M, nil, true, true); cov == nil {
				c.Fatalf("no prior covariance although it was asked for, with the std")
			}
			c.Eq("prior covariance asked for with the std", cov, prior, 1e-9, 1e-12)
			_, std, _ := m.PredictEx(lq.M, nil, true, false)
			for i := 0; i < q; i++ {
				c.EqF("prior std", std.At(i, i), math.Sqrt(prior.At(i, i)), 1e-9, 1e-12)
			}
		}
		if c.Bool("fitted") {
			a := m.Alpha
			m.Alpha = []float64{.5}
			X0 := c.Mat("X0", 3, p, vk.Gauss)
			m.Fit(X0, mat.NewDense(3, 2, nil))
			m.Alpha = a
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		if f := m.Fit(lx.M, ly.M); f != base.Fiter(m) {
			c.Fatalf("Fit returns something else")
		}
		c.Unchanged("Fit", lx, ly)
		c.Mark(nx > 2 && len(th) > 0, "%s alpha=%v X=%s Y=%s", n, alpha, vk.M(X), vk.M(Y))
		if lx.D != nil {
			lx.D.Apply(func(i, j int, v float64) float64 { return 99 }, lx.D)
		}
		if ly.D != nil {
			ly.D.Apply(func(i, j int, v float64) float64 { return 99 }, ly.D)
		}
		if m.GetNOutputs() != o {
			c.Fatalf("GetNOutputs %d", m.GetNOutputs())
		}
		if c.Bool("clone") {
			cl := m.PredicterClone().(*gp.Regressor)
			other := m
			if c.Bool("keep") {
				other = cl
			} else {
				m = cl
			}
			other.Alpha = []float64{2}
			other.Fit(Q, mat.NewDense(q, 1, nil))
		}
		v, _ := lml(n, X, Y, alpha)
		cond := 0.
		K := noisy(n, X, alpha)
		for i := 0; i < nx; i++ {
			cond = math.Max(cond, K.At(i, i)/.02)
		}
		tol := 1e-11 * (1 + cond) * float64(nx)
		if tol > 1e-4 {
			c.Skip("hopelessly conditioned")
		}
		got, gn := m.LogMarginalLikelihood(nil, false)
		if gn != nil {
			c.Fatalf("a gradient that was not asked for")
		}
		c.EqF("log marginal likelihood of the fit", got, v, tol, tol*(1+math.Abs(v)))
		// at another theta
		th2 := append([]float64(nil), th...)
		for i := range th2 {
			th2[i] += float64(c.Int("dtheta", -4, 4)) / 8
		}
		n2 := n.With(th2)
		v2, g2 := lml(n2, X, Y, alpha)
		var theta mat.Matrix = m.KernelOpt.Theta()
		if len(th2) > 0 {
			theta = c.Lay("theta", mat.NewDense(len(th2), 1, th2), true).M
		}
		got, grad := m.LogMarginalLikelihood(theta, true)
		c.EqF("log marginal likelihood", got, v2, tol*10, tol*10*(1+math.Abs(v2)))
		gs := 1.
		for _, g := range g2 {
			gs = math.Max(gs, math.Abs(g))
		}
		if len(grad) != len(g2) {
			c.Fatalf("gradient %v, want %v", grad, g2)
		}
		for i := range g2 {
			if !vk.Close(grad[i], g2[i], 1e-7, tol*100*gs*(1+math.Abs(v2))) {
				c.Fatalf("gradient %v, want %v", grad, g2)
			}
		}
		// the posterior, still that of the kernel's own theta
		Ki, _ := inverse(K)
		Kt := gram(n, Q, X)
		mean := mul(Kt, mul(Ki, Y))
		ex := mul(mul(Kt, Ki), Kt.T())
		ps := 1.
		for i := 0; i < q; i++ {
			ps = math.Max(ps, prior.At(i, i))
		}
		ms := ps
		for i := 0; i < q; i++ {
			for j := 0; j < nx; j++ {
				ms = math.Max(ms, math.Abs(Kt.At(i, j))/.02)
			}
		}
		d := c.Dst("mean", q, o)
		P := m.Predict(lq.M, d.M)
		c.EqDst("posterior mean", P, d, mean, 1e-7, tol*ms)
		d = c.Dst("mean2", q, o)
		P, std, cov := m.PredictEx(lq.M, d.M, true, false)
		c.EqDst("posterior mean", P, d, mean, 1e-7, tol*ms)
		if cov != nil {
			c.Fatalf("covariance that was not asked for")
		}
		for i := 0; i < q; i++ {
			want := math.Max(0, prior.At(i, i)-ex.At(i, i))
			c.EqF("posterior variance", std.At(i, i)*std.At(i, i), want, 1e-7, tol*ms*10)
		}
		_, std, cov = m.PredictEx(lq.M, nil, false, true)
		if std != nil {
			c.Fatalf("std that was not asked for")
		}
		var want mat.Dense
		want.Sub(prior, ex)
		c.Eq("posterior covariance", cov, &want, 1e-7, tol*ms*10)
		if _, _, cov = m.PredictEx(lq.M, nil, true, true); cov == nil {
			c.Fatalf("no covariance although it was asked for, with the std")
		}
		c.Eq("posterior covariance asked for with the std", cov, &want, 1e-7, tol*ms*10)
		c.Unchanged("Predict", lq)
		T := c.Mat("T", q, o, vk.Gauss)
		score, ok := 0., true
		for k := 0; k < o; k++ {
			_, vt := vk.MeanVar(vk.Col(T, k))
			ok = ok && vt > 1e-3
			e := 0.
			for i := 0; i < q; i++ {
				e += (T.At(i, k) - mean.At(i, k)) * (T.At(i, k) - mean.At(i, k))
			}
			score += (1 - e/vt/float64(q)) / float64(o)
		}
		if ok {
			c.EqF("Score", m.Score(lq.M, T), score, 1e-6, 1e-6)
			c.Eq("mean after Score", m.Predict(Q, nil), mean, 1e-7, tol*ms)
		}
	})
}

func TestNearlyNoiseless(t *testing.T) {
	vk.Prop(t, 1500, "well separated samples with hardly any noise: the posterior passes through the targets, as sure of them as the noise allows; non-trivial: at least 2 samples", func(c *vk.C) {
		p, o, nx := c.Size("p", 1, 3, 6), c.Size("outputs", 1, 3, 6), c.Size("nx", 1, 8, 20)
		ls := c.PickF("scale", 1, .1, 10)
		r := c.Rnd("X")
		X := mat.NewDense(nx, p, nil)
		for i := 0; i < nx; i++ {
			for j := 0; j < p; j++ {
				X.Set(i, j, r.NormFloat64()*ls)
			}
			X.Set(i, 0, ls*(3*float64(i)+r.Float64()))
		}
		Y := c.Mat("Y", nx, o, vk.Gauss)
		alpha := c.PickF("alpha", 1e-8, 1e-10, 1e-6, 1e-4)
		m := gp.NewRegressor(&kernels.RBF{LengthScale: []float64{ls}, LengthScaleBounds: [][2]float64{{1e-5, 1e5}}})
		m.Alpha = []float64{alpha}
		if c.Bool("default alpha") {
			m.Alpha, alpha = gp.NewRegressor(m.Kernel).Alpha, 1e-10
		}
		m.Fit(X, Y)
		c.Mark(nx > 1, "alpha=%g X=%s", alpha, vk.M(X))
		if c.Bool("clone") {
			// the copies' kernels are their own too
			other := m.PredicterClone().(*gp.Regressor)
			if c.Bool("keep") {
				m, other = other, m
			}
			other.Kernel.(*kernels.RBF).LengthScale[0] *= 7
			other.Alpha = []float64{.5}
		}
		mean, std, _ := m.PredictEx(X, nil, true, false)
		for i := 0; i < nx; i++ {
			if s := std.At(i, i); !(s >= 0 && s*s <= alpha*1.001+1e-13) {
				c.Fatalf("std %g at training sample %d, of noise variance %g", s, i, alpha)
			}
			for k := 0; k < o; k++ {
				// the residual is alpha (K+alpha)^-1 y, and the smallest eigenvalue of K is above 1/2
				c.EqF("mean at a training sample", mean.At(i, k), Y.At(i, k), 1e-9, 20*alpha*float64(nx)*(1+math.Abs(Y.At(i, k)))+1e-9)
			}
		}
		far := mat.NewDense(1, p, nil)
		far.Set(0, 0, -100*ls)
		mean, std, _ = m.PredictEx(far, nil, true, false)
		for k := 0; k < o; k++ {
			c.EqF("mean far from every sample", mean.At(0, k), 0, 0, 1e-12)
		}
		c.EqF("std far from every sample", std.At(0, 0), 1, 1e-9, 0)
	})
}
