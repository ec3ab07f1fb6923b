// C40: what a constructor returns works like a value with the documented defaults spelled out.
package c40

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	lm "github.com/pa-m/sklearn/linear_model"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
	"verifharness/vk"
)

func feats(c *vk.C, n, p int) *mat.Dense {
	return c.Mat("X", n, p, c.Pick("kind", vk.Gauss, vk.Unif, vk.Grid))
}

// targets: real columns depending on X, or class numbers, or 0/1
func targets(c *vk.C, X *mat.Dense, kind string, cols int) *mat.Dense {
	n, p := X.Dims()
	r := c.Rnd("Y")
	Y := mat.NewDense(n, cols, nil)
	w := make([]float64, p)
	for o := 0; o < cols; o++ {
		for j := range w {
			w[j] = 3 * r.NormFloat64()
		}
		for i := 0; i < n; i++ {
			s := 2.
			for j := range w {
				s += w[j] * X.At(i, j)
			}
			s += r.NormFloat64()
			switch kind {
			case "sign":
				s = float64(b2i(s > 2))
			case "class":
				s = float64(b2i(s > 2) + b2i(s > 4))
			}
			Y.Set(i, o, s)
		}
	}
	return Y
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func constant(Y *mat.Dense) bool {
	_, o := Y.Dims()
	for j := 0; j < o; j++ {
		if vk.IsConst(vk.Col(Y, j)) {
			return true
		}
	}
	return false
}

// two builds the value by its constructor and the one with every default spelled out.
func linear(c *vk.C, name string, b bool, alpha float64) (got, want base.Predicter) {
	switch name {
	case "linear":
		m, w := lm.NewLinearRegression(), &lm.LinearRegression{}
		w.FitIntercept = true
		m.Normalize, w.Normalize = b, b
		return m, w
	case "ridge":
		m, w := lm.NewRidge(), &lm.Ridge{Tol: 1e-3, Alpha: 1}
		w.FitIntercept = true
		m.Normalize, w.Normalize = b, b
		return m, w
	case "sgd":
		m, w := lm.NewSGDRegressor(), &lm.SGDRegressor{Tol: 1e-4, Alpha: 1e-4, L1Ratio: .15, NJobs: 1, Method: &optimize.LBFGS{}}
		w.FitIntercept = true
		m.Normalize, w.Normalize = b, b
		return m, w
	case "bayes":
		m, w := lm.NewBayesianRidge(), &lm.BayesianRidge{NIter: 300, Tol: 1e-3, Alpha1: 1e-6, Alpha2: 1e-6, Lambda1: 1e-6, Lambda2: 1e-6}
		w.FitIntercept, w.Normalize = true, true
		m.ComputeScore, w.ComputeScore = b, b
		return m, w
	case "logistic":
		m, w := lm.NewLogisticRegression(), &lm.LogisticRegression{Alpha: 1, MaxIter: 200, Tol: 1e-4, NIterNoChange: 10}
		m.RandomState, w.RandomState = base.NewLockedSource(7), base.NewLockedSource(7)
		if b {
			m.Alpha, w.Alpha = alpha, alpha
		}
		return m, w
	}
	w := &lm.ElasticNet{Tol: 1e-4, Alpha: 1, L1Ratio: .5, MaxIter: 1000, Selection: "cyclic"}
	w.FitIntercept = true
	var m *lm.ElasticNet
	switch name {
	case "enet":
		m = lm.NewElasticNet()
	case "mtenet":
		m = lm.NewMultiTaskElasticNet()
	case "lasso":
		m, w.L1Ratio = lm.NewLasso(), 1
	case "mtlasso":
		m, w.L1Ratio = lm.NewMultiTaskLasso(), 1
	}
	if b {
		m.Alpha, w.Alpha = alpha, alpha
	}
	return m, w
}

func params(m base.Predicter) []float64 {
	fl := func(ms ...*mat.Dense) (o []float64) {
		for _, m := range ms {
			if m != nil {
				o = append(o, mat.DenseCopyOf(m).RawMatrix().Data...)
			}
		}
		return
	}
	switch m := m.(type) {
	case *lm.LinearRegression:
		return fl(m.Coef, m.Intercept)
	case *lm.RegularizedRegression:
		return fl(m.Coef, m.Intercept)
	case *lm.SGDRegressor:
		return fl(m.Coef, m.Intercept)
	case *lm.BayesianRidge:
		return append(fl(m.Coef, m.Intercept), m.Alpha, m.Lambda)
	case *lm.ElasticNet:
		return append(fl(m.Coef, m.Intercept), float64(m.CDResult.NIter), m.CDResult.Gap, m.CDResult.Eps)
	case *lm.LogisticRegression:
		return append(append([]float64{}, m.LossCurve...), float64(m.NIter), m.Loss)
	}
	return nil
}

func TestLinear(t *testing.T) {
	vk.Prop(t, 40, "the targets vary", func(c *vk.C) {
		name := c.Pick("model", "linear", "ridge", "sgd", "bayes", "logistic", "enet", "mtenet", "lasso", "mtlasso")
		n, p := c.Size("rows", 4, 25, 150), c.SizeTo("features", 1, 4, 9)
		X := feats(c, n, p)
		kind, cols := "real", c.Int("outputs", 1, 3)
		if name == "logistic" {
			kind, cols = c.Pick("targets", "sign", "class"), 1
		}
		if name == "bayes" {
			cols = 1
			if n <= p {
				return
			}
		}
		Y := targets(c, X, kind, cols)
		if kind != "real" && constant(Y) {
			return
		}
		got, want := linear(c, name, c.Bool("tweak"), c.PickF("alpha", .01, .1, 3))
		got.Fit(X, Y)
		want.Fit(X, Y)
		c.Class(name)
		c.Mark(!constant(Y), "%s %dx%d -> %d", name, n, p, cols)
		tol := 1e-7
		if name == "ridge" || name == "sgd" {
			tol = 1e-5
		}
		c.EqS(name+": fit of the default model", params(got), params(want), tol, tol)
		Z := c.Mat("Z", 5, p, vk.Gauss)
		c.Eq(name+": predictions of the default model", got.Predict(Z, nil), want.Predict(Z, nil), tol, tol)
	})
}

func TestSVM(t *testing.T) {
	vk.Prop(t, 30, "the targets vary", func(c *vk.C) {
		n, p := c.SizeTo("rows", 4, 20, 40), c.SizeTo("features", 1, 4, 9)
		X := feats(c, n, p)
		reg := c.Bool("regression")
		kind := "sign"
		if reg {
			kind = "real"
		}
		Y := targets(c, X, kind, 1)
		if !reg && constant(Y) {
			return
		}
		ker := c.Pick("kernel", "", "poly", "sigmoid", "linear")
		deg := c.Bool("gamma")
		seed := uint64(c.Int("seed", 0, 99))
		set := func(b *svm.BaseLibSVM) {
			if ker != "" {
				b.Kernel = ker
			}
			if deg {
				b.Gamma = 1 / float64(p)
			}
			b.MaxIter = 60
			b.RandomState = base.NewLockedSource(seed)
		}
		full := svm.BaseLibSVM{C: 1, Epsilon: .1, Kernel: "rbf", Degree: 3, Gamma: 1 / float64(p), Coef0: 0, Shrinking: true, Tol: 1e-3, CacheSize: 200}
		c.Mark(!constant(Y), "kernel %q, regression %v, %dx%d", ker, reg, n, p)
		var got, want base.Predicter
		if reg {
			m, w := svm.NewSVR(), &svm.SVR{BaseLibSVM: full}
			set(&m.BaseLibSVM)
			set(&w.BaseLibSVM)
			got, want = m, w
		} else {
			m, w := svm.NewSVC(), &svm.SVC{BaseLibSVM: full}
			set(&m.BaseLibSVM)
			set(&w.BaseLibSVM)
			m.Probability, w.Probability = false, false
			got, want = m, w
		}
		got.Fit(X, Y)
		want.Fit(X, Y)
		Z := c.Mat("Z", 6, p, vk.Gauss)
		c.Eq("predictions of the default machine", got.Predict(Z, nil), want.Predict(Z, nil), 1e-9, 1e-9)
	})
}

type trained struct {
	n      int
	loss   float64
	curve  []float64
	scores []float64
	pred   *mat.Dense
}

func TestMLP(t *testing.T) {
	vk.Prop(t, 14, "the loss curve has more than two epochs", func(c *vk.C) {
		kind := c.Pick("model", "regressor", "classifier", "base64", "base32")
		n, p := c.Size("rows", 12, 40, 60), c.SizeTo("features", 1, 3, 7)
		if c.Int("large", 0, 3) == 0 {
			n = c.Int("large rows", 201, 430)
		}
		X := feats(c, n, p)
		ykind := "real"
		if kind == "classifier" {
			ykind = c.Pick("targets", "sign", "class")
		}
		Y := targets(c, X, ykind, 1)
		if constant(Y) {
			return
		}
		seed := uint64(c.Int("seed", 0, 99))
		hidden := []int{}
		for l := c.Int("layers", 0, 2); l > 0; l-- {
			hidden = append(hidden, c.Int("units", 1, 5))
		}
		act, solver := c.Pick("activation", "relu", "tanh", "logistic", "identity"), c.Pick("solver", "adam", "sgd", "sgd")
		rate, stop, iters := c.Pick("rate", "", "", "invscaling", "adaptive"), c.Int("early stopping", 0, 2) == 0, c.PickI("iterations", 0, 0, 8, 30)
		lr := c.PickF("learning rate", 0, 0, .05)
		defhidden := kind[0] == 'b' && n < 80 && c.Bool("default layers")
		alpha := c.PickF("alpha", .0001, .1, 0)
		run := func(def bool) trained {
			m64 := nn.BaseMultilayerPerceptron64{Activation: "relu", Solver: "adam", Alpha: .0001, BatchSize: 200, LearningRate: "constant", LearningRateInit: .001,
				PowerT: .5, MaxIter: 200, HiddenLayerSizes: []int{100}, Shuffle: true, Tol: 1e-4, Momentum: .9, NesterovsMomentum: true, ValidationFraction: .1,
				Beta1: .9, Beta2: .999, Epsilon: 1e-8, NIterNoChange: 10}
			var m32 nn.BaseMultilayerPerceptron32
			set := func(b *nn.BaseMultilayerPerceptron64) {
				b.RandomState = base.NewLockedSource(seed)
				if rate != "" {
					b.LearningRate = rate
				}
				b.EarlyStopping = stop
				if iters > 0 {
					b.MaxIter = iters
				}
				if lr > 0 {
					b.LearningRateInit = lr
				}
			}
			full := func(b *nn.BaseMultilayerPerceptron64) {
				b.HiddenLayerSizes, b.Activation, b.Solver, b.Alpha = hidden, act, solver, alpha
			}
			switch kind {
			case "regressor":
				m := &nn.MLPRegressor{BaseMultilayerPerceptron64: m64}
				full(&m.BaseMultilayerPerceptron64)
				m.LossFuncName = "square_loss"
				if def {
					m = nn.NewMLPRegressor(hidden, act, solver, alpha)
				}
				set(&m.BaseMultilayerPerceptron64)
				m.Fit(X, Y)
				return trained{m.NIter, m.Loss, m.LossCurve, m.ValidationScores, m.Predict(X, nil)}
			case "classifier":
				m := &nn.MLPClassifier{BaseMultilayerPerceptron64: m64}
				full(&m.BaseMultilayerPerceptron64)
				if def {
					m = nn.NewMLPClassifier(hidden, act, solver, alpha)
				}
				set(&m.BaseMultilayerPerceptron64)
				m.Fit(X, Y)
				return trained{m.NIter, m.Loss, m.LossCurve, m.ValidationScores, m.Predict(X, nil)}
			case "base64":
				m := &m64
				if def {
					m = nn.NewBaseMultilayerPerceptron64()
				}
				if !defhidden {
					full(m)
				}
				set(m)
				m.Fit(X, Y)
				o := trained{m.NIter, m.Loss, m.LossCurve, m.ValidationScores, mat.NewDense(n, 1, nil)}
				m.Predict(X, o.pred)
				return o
			default:
				m32 = nn.BaseMultilayerPerceptron32{Activation: "relu", Solver: "adam", Alpha: .0001, BatchSize: 200, LearningRate: "constant", LearningRateInit: .001,
					PowerT: .5, MaxIter: 200, HiddenLayerSizes: []int{100}, Shuffle: true, Tol: 1e-4, Momentum: .9, NesterovsMomentum: true, ValidationFraction: .1,
					Beta1: .9, Beta2: .999, Epsilon: 1e-8, NIterNoChange: 10}
				m := &m32
				if def {
					m = nn.NewBaseMultilayerPerceptron32()
				}
				if !defhidden {
					m.HiddenLayerSizes, m.Activation, m.Solver, m.Alpha = hidden, act, solver, float32(alpha)
				}
				m.RandomState = base.NewLockedSource(seed)
				if rate != "" {
					m.LearningRate = rate
				}
				m.EarlyStopping = stop
				if iters > 0 {
					m.MaxIter = iters
				}
				if lr > 0 {
					m.LearningRateInit = float32(lr)
				}
				m.Fit(X, Y)
				o := trained{n: m.NIter, loss: float64(m.Loss), pred: mat.NewDense(n, 1, nil)}
				m.Predict(X, o.pred)
				for _, v := range m.LossCurve {
					o.curve = append(o.curve, float64(v))
				}
				for _, v := range m.ValidationScores {
					o.scores = append(o.scores, float64(v))
				}
				return o
			}
		}
		a, b := run(true), run(false)
		if math.IsNaN(b.loss) || math.IsInf(b.loss, 0) || b.loss > 1e6 {
			return
		}
		c.Class(kind + " " + solver)
		c.Mark(len(b.curve) > 2, "%s %s %s rate %q stop %v: %d epochs, loss %.3g", kind, solver, act, rate, stop, b.n, b.loss)
		if a.n != b.n {
			c.Fatalf("%s: default model trained %d epochs, with the documented defaults it takes %d", kind, a.n, b.n)
		}
		c.EqF(kind+": loss", a.loss, b.loss, 1e-6, 1e-6)
		c.EqS(kind+": loss curve", a.curve, b.curve, 1e-6, 1e-6)
		c.EqS(kind+": validation scores", a.scores, b.scores, 1e-6, 1e-6)
		c.Eq(kind+": predictions", a.pred, b.pred, 1e-5, 1e-5)
	})
}

func TestOptimizers(t *testing.T) {
	vk.Prop(t, 40, "at least two steps", func(c *vk.C) {
		name := c.Pick("solver", "sgd", "adagrad", "rmsprop", "adadelta", "adam")
		var got base.Optimizer
		via := c.Int("via", 0, 2)
		switch via {
		case 0:
			got = base.NewOptimizer(name)
		case 1:
			got = base.NewSolver(name)()
		default:
			switch name {
			case "sgd":
				got = base.NewSGDOptimizer()
			case "adagrad":
				got = base.NewAdagradOptimizer()
			case "rmsprop":
				got = base.NewRMSPropOptimizer()
			case "adadelta":
				got = base.NewAdadeltaOptimizer()
			case "adam":
				got = base.NewAdamOptimizer()
			}
		}
		var want *base.SGDOptimizer
		switch name {
		case "sgd":
			want = &base.SGDOptimizer{StepSize: 1e-4, Momentum: .9, RMSPropGamma: .9, Epsilon: 1e-8, BatchPart: 1}
		case "adagrad":
			want = &base.SGDOptimizer{StepSize: .5, RMSPropGamma: .9, Epsilon: 1e-8, BatchPart: 1, Adagrad: true, GradientClipping: 10}
		case "rmsprop":
			want = &base.SGDOptimizer{StepSize: .05, RMSPropGamma: .9, Epsilon: 1e-8, BatchPart: 1, RMSProp: true}
		case "adadelta":
			want = &base.SGDOptimizer{StepSize: 1e-4, RMSPropGamma: .9, Epsilon: 1e-8, BatchPart: 1, Adadelta: true}
		case "adam":
			want = &base.SGDOptimizer{StepSize: .5, Beta1: .9, Beta2: .999, Epsilon: 1e-8, BatchPart: 1, Adam: true}
		}
		steps, r, k := c.Int("steps", 1, 12), c.Int("rows", 1, 4), c.Int("cols", 1, 3)
		scale := c.PickF("scale", 1, 30, 1e-3, 1e-7)
		c.Class(name)
		c.Mark(steps > 1, "%s: %d steps", name, steps)
		for s := 0; s < steps; s++ {
			g := c.Mat(fmt.Sprint("grad", s), r, k, vk.Gauss)
			g.Scale(scale, g)
			a, b := mat.NewDense(r, k, nil), mat.NewDense(r, k, nil)
			got.GetUpdate(a, g)
			want.GetUpdate(b, g)
			c.Eq(fmt.Sprintf("%s: update %d", name, s+1), a, b, 1e-9, 1e-300)
		}
	})
}

func TestNeighbors(t *testing.T) {
	vk.Prop(t, 25, "more samples than neighbours", func(c *vk.C) {
		name := c.Pick("model", "knnc", "knnr", "centroid", "nn", "dbscan", "nb", "kmeans")
		n, p := c.Size("rows", 4, 25, 60), c.SizeTo("features", 1, 3, 7)
		if c.Int("large", 0, 4) == 0 {
			n = c.Int("large rows", 400, 700) // over the limit where the automatic choice is a tree
		}
		X, Z := c.Mat("X", n, p, vk.Gauss), c.Mat("Z", 6, p, vk.Gauss)
		Y := targets(c, X, "class", 1)
		k := c.Int("k", 1, 4)
		base0 := neighbors.NearestNeighbors{Algorithm: "brute", Metric: "minkowski", P: 2, NJobs: 1}
		c.Class(name)
		c.Mark(n > k, "%s %dx%d k=%d", name, n, p, k)
		switch name {
		case "knnc":
			if k2 := -c.Int("bad k", 0, 2); c.Int("invalid", 0, 3) == 0 {
				if vk.Panics(func() { neighbors.NewKNeighborsClassifier(k2, "uniform").Fit(X, Y) }) == nil {
					c.Fatalf("a classifier of %d neighbours is accepted", k2)
				}
				if vk.Panics(func() { neighbors.NewKNeighborsRegressor(k2, "uniform").Fit(X, Y) }) == nil {
					c.Fatalf("a regressor of %d neighbours is accepted", k2)
				}
			}
			w := c.Pick("weights", "uniform", "distance")
			m := neighbors.NewKNeighborsClassifier(k, w)
			m2 := &neighbors.KNeighborsClassifier{NearestNeighbors: base0, K: k, Weight: w, Distance: neighbors.EuclideanDistance}
			m.Fit(X, Y)
			m2.Fit(X, Y)
			c.Eq("default neighbour classifier", m.Predict(Z, nil), m2.Predict(Z, nil), 0, 0)
		case "knnr":
			w := c.Pick("weights", "uniform", "distance")
			m := neighbors.NewKNeighborsRegressor(k, w)
			m2 := &neighbors.KNeighborsRegressor{NearestNeighbors: base0, K: k, Weights: w, Distance: neighbors.EuclideanDistance}
			m.Fit(X, Y)
			m2.Fit(X, Y)
			c.Eq("default neighbour regressor", m.Predict(Z, nil), m2.Predict(Z, nil), 1e-9, 1e-12)
		case "centroid":
			m := neighbors.NewNearestCentroid(c.Pick("metric", "euclidean", ""), 0)
			m2 := &neighbors.NearestCentroid{NearestNeighbors: base0, Metric: "l2"}
			m.Fit(X, Y)
			m2.Fit(X, Y)
			c.Eq("default centroids", m.Centroids, m2.Centroids, 1e-9, 1e-12)
			c.Eq("default centroid classifier", m.Predict(Z, nil), m2.Predict(Z, nil), 0, 0)
		case "nn":
			m, m2 := neighbors.NewNearestNeighbors(), &base0
			m.Fit(X, mat.Matrix(nil))
			m2.Fit(X, mat.Matrix(nil))
			d, i := m.KNeighbors(Z, k)
			d2, i2 := m2.KNeighbors(Z, k)
			c.Eq("default distances", d, d2, 1e-9, 1e-12)
			c.Eq("default indices", i, i2, 0, 0)
		case "dbscan":
			if n > 100 {
				n = 100
				X = vk.RowRange(X, 0, n)
			}
			X.Scale(c.PickF("spread", 1, .4), X)
			a := cluster.NewDBSCAN(nil)
			b := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: .5, MinSamples: 5, Metric: "euclidean", Algorithm: "brute", LeafSize: 30, P: 2, NJobs: 1})
			a.Fit(X, nil)
			b.Fit(X, nil)
			if !reflect.DeepEqual(a.Labels, b.Labels) || !reflect.DeepEqual(append([]int{}, a.CoreSampleIndices...), append([]int{}, b.CoreSampleIndices...)) {
				c.Fatalf("default DBSCAN gives %v %v, eps .5 and 5 samples give %v %v", a.Labels, a.CoreSampleIndices, b.Labels, b.CoreSampleIndices)
			}
		case "nb":
			if constant(Y) {
				return
			}
			X.Set(0, 0, X.At(0, 0)+1)
			m, w := nb.NewGaussianNB(nil, 1e-9), &nb.GaussianNB{VarSmoothing: 1e-9}
			m.Fit(X, Y)
			w.Fit(X, Y)
			c.Eq("default class means", m.Theta, w.Theta, 1e-9, 1e-12)
			c.Eq("default class variances", m.Sigma, w.Sigma, 1e-9, 1e-12)
		case "kmeans":
			m, w := &cluster.KMeans{NClusters: k}, &cluster.KMeans{NClusters: k, NJobs: 1, Distance: func(a, b mat.Vector) float64 {
				s := 0.
				for i := 0; i < a.Len(); i++ {
					s += (a.AtVec(i) - b.AtVec(i)) * (a.AtVec(i) - b.AtVec(i))
				}
				return math.Sqrt(s)
			}}
			m.Fit(X, nil)
			w.Fit(X, nil)
			for _, q := range []*cluster.KMeans{m, w} {
				if r, k2 := q.Centroids.Dims(); r != k || k2 != p {
					c.Fatalf("%d clusters of %d features asked, centroids are %dx%d", k, p, r, k2)
				}
			}
		}
	})
}

func TestGP(t *testing.T) {
	vk.Prop(t, 15, "more than two samples", func(c *vk.C) {
		n, p := c.Int("rows", 2, 8), c.SizeTo("features", 1, 3, 7)
		X, Z := c.Mat("X", n, p, vk.Gauss), c.Mat("Z", 4, p, vk.Gauss)
		Y := targets(c, X, "real", c.Int("outputs", 1, 2))
		mk := func() kernels.Kernel {
			return &kernels.Sum{KernelOperator: kernels.KernelOperator{K1: &kernels.ConstantKernel{ConstantValue: 1, ConstantValueBounds: [2]float64{1, 1}},
				K2: &kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{1, 1}}}}}
		}
		a := gp.NewRegressor(mk())
		b := &gp.Regressor{Kernel: mk(), Alpha: []float64{1e-10}}
		b.KernelOpt = b.Kernel
		a.Fit(X, Y)
		b.Fit(X, Y)
		c.Mark(n > 2, "%dx%d", n, p)
		c.Eq("default Gaussian process", a.Predict(Z, nil), b.Predict(Z, nil), 1e-7, 1e-7)
		c.EqF("default likelihood", a.LogMarginalLikelihoodValue, b.LogMarginalLikelihoodValue, 1e-9, 1e-9)
		// the default noise level is far below the data, so the process interpolates its training data
	})
}

func TestTransformers(t *testing.T) {
	vk.Prop(t, 40, "at least three distinct rows", func(c *vk.C) {
		name := c.Pick("transformer", "minmax", "standard", "robust", "robust-nil", "poly", "binarizer", "normalizer", "kbins", "power", "imputer", "pca", "quantile")
		n, p := c.Size("rows", 3, 15, 40), c.SizeTo("features", 1, 4, 9)
		X, Z := feats(c, n, p), c.Mat("Z", 5, p, vk.Gauss)
		k := c.Int("k", 2, 4)
		var got, want base.Transformer
		switch name {
		case "minmax":
			got, want = pp.NewMinMaxScaler([]float64{0, 1}), &pp.MinMaxScaler{FeatureRange: []float64{0, 1}}
		case "standard":
			got, want = pp.NewStandardScaler(), &pp.StandardScaler{WithMean: true, WithStd: true}
		case "robust":
			got, want = pp.NewDefaultRobustScaler(), &pp.RobustScaler{Center: true, Scale: true, Quantiles: &pp.QuantilePair{Left: .25, Right: .75}}
		case "robust-nil":
			ctr := c.Bool("center")
			got, want = pp.NewRobustScaler(ctr, true, nil), &pp.RobustScaler{Center: ctr, Scale: true, Quantiles: &pp.QuantilePair{Left: .25, Right: .75}}
		case "poly":
			got, want = pp.NewPolynomialFeatures(k), &pp.PolynomialFeatures{Degree: k, IncludeBias: true}
		case "binarizer":
			got, want = pp.NewBinarizer(), &pp.Binarizer{Threshold: 0}
		case "normalizer":
			got, want = pp.NewNormalizer(), &pp.Normalizer{Norm: "l2", Axis: 1}
		case "kbins":
			got, want = pp.NewKBinsDiscretizer(k), &pp.KBinsDiscretizer{NBins: k, Encode: "onehot-dense", Strategy: "quantile"}
		case "power":
			if n < 4 {
				return
			}
			for j := 0; j < p; j++ {
				if vk.IsConst(vk.Col(X, j)) {
					return
				}
			}
			got, want = pp.NewPowerTransformer(), &pp.PowerTransformer{Method: "yeo-johnson", Standardize: true}
		case "imputer":
			for i := 0; i < n; i += 3 {
				X.Set(i, i%p, math.NaN())
			}
			for j := 0; j < p; j++ {
				X.Set(n-1, j, 2)
			}
			got, want = pp.NewImputer(), &pp.Imputer{Strategy: "mean"}
		case "pca":
			if n <= p {
				return
			}
			got, want = pp.NewPCA(), &pp.PCA{NComponents: p}
		case "quantile":
			d := c.Pick("distribution", "uniform", "normal")
			got, want = pp.NewQuantileTransformer(k+3, d, base.NewLockedSource(1)), &pp.QuantileTransformer{NQuantiles: k + 3, Subsample: 1e5, OutputDistribution: d}
		}
		c.Class(name)
		c.Mark(n > 2, "%s %dx%d", name, n, p)
		got.Fit(X, nil)
		want.Fit(X, nil)
		for i, D := range []*mat.Dense{X, Z} {
			a, _ := got.Transform(D, nil)
			b, _ := want.Transform(D, nil)
			c.Eq(fmt.Sprintf("default %s, output %d", name, i), a, b, 1e-9, 1e-9)
		}
	})
}
