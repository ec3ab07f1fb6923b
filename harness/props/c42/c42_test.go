// C42: every predicter is a function of its settings, training data and input: storage layout, row
// grouping, earlier fits, clones and what the caller does with its matrices later make no difference.
package c42

import (
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	lm "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	ms "github.com/pa-m/sklearn/model_selection"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// kind of targets: "class", "real", "reals" (several outputs), "sign" (0/1 columns)
func targets(name string) string {
	switch name {
	case "logistic", "nb", "centroid", "kmeans":
		return "class"
	case "knnc", "mlpc":
		return "classes"
	case "svc":
		return "sign"
	case "svr":
		return "reals-svr"
	case "bayes", "enet", "lasso", "gridsearch":
		return "real"
	}
	return "reals"
}

// mk gives a builder; every model it builds has the same settings and the same seed
func mk(c *vk.C, name string) func() base.Predicter {
	k, b1, b2, seed := c.Int("k", 1, 4), c.Bool("b1"), c.Bool("b2"), uint64(c.Int("seed", 0, 99))
	algo, metric, leaf := c.Pick("algo", "brute", "auto", "kd_tree"), c.Pick("metric", "euclidean", "manhattan"), c.Int("leaf", 1, 8)
	kern := c.Pick("kernel", "rbf", "linear", "poly")
	alpha := c.PickF("alpha", .1, .01, 1)
	return func() base.Predicter {
		switch name {
		case "linear":
			m := lm.NewLinearRegression()
			m.FitIntercept, m.Normalize = b2, b1
			return m
		case "ridge":
			m := lm.NewRidge()
			m.FitIntercept, m.Normalize, m.Alpha = b2, b1, alpha
			return m
		case "sgd":
			m := lm.NewSGDRegressor()
			m.FitIntercept, m.Normalize, m.Alpha, m.L1Ratio = b2, b1, alpha, []float64{0, .15}[k%2]
			return m
		case "bayes":
			m := lm.NewBayesianRidge()
			m.FitIntercept, m.Normalize = b2, b1
			return m
		case "enet":
			m := lm.NewElasticNet()
			m.Alpha, m.FitIntercept, m.Normalize, m.Positive = alpha, b2, b1, k == 1
			return m
		case "lasso":
			m := lm.NewLasso()
			m.Alpha, m.FitIntercept, m.Normalize = alpha, b2, b1
			return m
		case "mtenet":
			m := lm.NewMultiTaskElasticNet()
			m.Alpha, m.FitIntercept = alpha, b2
			return m
		case "mtlasso":
			m := lm.NewMultiTaskLasso()
			m.Alpha, m.FitIntercept = alpha, b2
			return m
		case "logistic":
			m := lm.NewLogisticRegression()
			m.Alpha = alpha
			m.RandomState = base.NewLockedSource(seed)
			return m
		case "nb":
			return nb.NewGaussianNB(nil, 1e-9)
		case "knnc":
			m := neighbors.NewKNeighborsClassifier(k, []string{"uniform", "distance"}[k%2])
			m.Algorithm, m.LeafSize, m.Metric = algo, leaf, metric
			return m
		case "knnr":
			m := neighbors.NewKNeighborsRegressor(k, []string{"uniform", "distance"}[k%2]).(*neighbors.KNeighborsRegressor)
			m.Algorithm, m.LeafSize, m.Metric = algo, leaf, metric
			return m
		case "centroid":
			return neighbors.NewNearestCentroid(metric, 0)
		case "kmeans":
			return &cluster.KMeans{NClusters: k, NJobs: k * 2}
		case "svc":
			m := svm.NewSVC()
			m.MaxIter, m.Kernel = 20, kern
			m.RandomState = base.NewLockedSource(seed)
			return m
		case "svr":
			m := svm.NewSVR()
			m.MaxIter, m.Kernel = 20, kern
			m.RandomState = base.NewLockedSource(seed)
			return m
		case "gpr":
			var kr kernels.Kernel = &kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{.1, 10}}}
			switch k {
			case 2:
				kr = &kernels.Sum{KernelOperator: kernels.KernelOperator{K1: kr, K2: &kernels.WhiteKernel{NoiseLevel: .1, NoiseLevelBounds: [2]float64{.01, 1}}}}
			case 3:
				kr = &kernels.DotProduct{Sigma0: 1, Sigma0Bounds: [2]float64{.1, 10}}
			}
			m := gp.NewRegressor(kr)
			m.Alpha, m.NormalizeY = []float64{.1}, b1
			return m
		case "mlpr":
			m := nn.NewMLPRegressor([]int{3}, []string{"tanh", "relu", "logistic", "identity"}[k-1], []string{"adam", "sgd", "lbfgs"}[k%3], 1e-3)
			m.MaxIter, m.BatchSize, m.Shuffle, m.EarlyStopping = 6, 5, b1, b2
			m.RandomState = base.NewLockedSource(seed)
			return m
		case "mlpc":
			m := nn.NewMLPClassifier([]int{3}, []string{"tanh", "relu", "logistic", "identity"}[k-1], []string{"adam", "sgd", "lbfgs"}[k%3], 1e-3)
			m.MaxIter, m.BatchSize, m.Shuffle, m.EarlyStopping = 6, 5, b1, b2
			m.RandomState = base.NewLockedSource(seed)
			return m
		case "pipeline":
			return pipeline.MakePipeline(pp.NewStandardScaler(), pp.NewPolynomialFeatures(1+k%2), lm.NewLinearRegression())
		case "pipeknn":
			return pipeline.MakePipeline(pp.NewMinMaxScaler([]float64{0, 1}), neighbors.NewKNeighborsRegressor(k, "distance"))
		}
		return &ms.GridSearchCV{Estimator: lm.NewLasso(), NJobs: k,
			ParamGrid:          map[string][]interface{}{"Alpha": {.01, .1, 1.}},
			Scorer:             func(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) },
			LowerScoreIsBetter: true, CV: &ms.KFold{NSplits: 3, RandomState: base.NewLockedSource(seed)}}
	}
}

// reseed gives a model that was used already the random stream a new one starts with
func reseed(m, fresh base.Predicter) {
	switch a := m.(type) {
	case *lm.LogisticRegression:
		a.RandomState = fresh.(*lm.LogisticRegression).RandomState
	case *svm.SVC:
		// fitting replaces a zero Gamma by 1/features, as documented
		a.RandomState, a.Gamma = fresh.(*svm.SVC).RandomState, fresh.(*svm.SVC).Gamma
	case *svm.SVR:
		a.RandomState, a.Gamma = fresh.(*svm.SVR).RandomState, fresh.(*svm.SVR).Gamma
	case *nn.MLPRegressor:
		a.RandomState = fresh.(*nn.MLPRegressor).RandomState
	case *nn.MLPClassifier:
		a.RandomState = fresh.(*nn.MLPClassifier).RandomState
	case *ms.GridSearchCV:
		a.CV = fresh.(*ms.GridSearchCV).CV
	}
}

func data(c *vk.C, label, kind string) (X, Y *mat.Dense) {
	n, p := c.Size(label+"n", 10, 20, 40), c.SizeTo(label+"p", 1, 4, 7)
	if n > 45 && (kind == "sign" || kind == "reals-svr") {
		n = 45 // support vector training slows down with the cube of the rows
	}
	r := c.Rnd(label + "data")
	X = vk.Apply(mat.NewDense(n, p, nil), func(_, _ int, _ float64) float64 { return r.NormFloat64() })
	o := 1
	if strings.HasPrefix(kind, "reals") || kind == "sign" || kind == "classes" {
		o = c.Int(label+"outputs", 1, 3)
	}
	Y = vk.Apply(mat.NewDense(n, o, nil), func(i, j int, _ float64) float64 {
		s := .3 * r.NormFloat64()
		for k := 0; k < p; k++ {
			s += X.At(i, k) * float64((k+j)%3)
		}
		switch kind {
		case "class", "classes":
			return float64((i + j) % 3)
		case "sign":
			if i == 0 || i > 1 && s > 0 {
				return 1
			}
			return 0
		}
		return s
	})
	return
}

// perturb gives other data of the same shape
func perturb(c *vk.C, X, Y *mat.Dense, kind string) (D, E *mat.Dense) {
	r := c.Rnd("perturb")
	n, _ := X.Dims()
	D = vk.Apply(X, func(_, _ int, v float64) float64 { return v + r.NormFloat64() })
	perm := r.Perm(n)
	E = vk.Apply(Y, func(i, j int, _ float64) float64 { return Y.At(perm[i], j) })
	return
}

func query(c *vk.C, label string, p int) *mat.Dense {
	r := c.Rnd(label)
	return vk.Apply(mat.NewDense(c.Size(label+"n", 1, 8, 30), p, nil), func(_, _ int, _ float64) float64 { return r.NormFloat64() })
}

// ridge regression starts its search at a random point
func tol(name string) float64 {
	if name == "ridge" {
		return 1e-3
	}
	return 1e-8
}

func testPredicters(t *testing.T, n int, names ...string) {
	vk.Prop(t, n, "models fitted in any layout after other fits, caller data overwritten after the fit, rows alone, clones and originals refitted; non-trivial: a refit or a non-compact layout", func(c *vk.C) {
		name := c.Pick("model", names...)
		c.Class(name)
		rt := tol(name)
		build := mk(c, name)
		X, Y := data(c, "X", targets(name))
		D, DY := data(c, "D", targets(name))
		if c.Bool("sameshape") {
			D, DY = perturb(c, X, Y, targets(name))
		}
		n, p := X.Dims()
		_, dp := D.Dims()
		refit := c.Bool("refit")
		lx, ly, lq := c.Lay("X", X, true), c.Lay("Y", Y, true), c.Lay("Q", query(c, "Q", p), true)
		Q, DQ := vk.Copy(lq.M), query(c, "DQ", dp)
		q, _ := Q.Dims()
		c.Mark(refit || lx.Name != "compact" || ly.Name != "compact", "%s %s/%s refit=%v n=%d p=%d q=%d", name, lx.Name, ly.Name, refit, n, p, q)
		same := func(what string, got, want mat.Matrix) { c.Helper(); c.Eq(what, got, want, rt, rt) }

		ref := build()
		ref.Fit(vk.Copy(X), vk.Copy(Y))
		want := vk.Copy(ref.Predict(vk.Copy(Q), nil))
		dref := build()
		dref.Fit(vk.Copy(D), vk.Copy(DY))
		dwant := vk.Copy(dref.Predict(vk.Copy(DQ), nil))

		m := build()
		if refit {
			m.Fit(vk.Copy(D), vk.Copy(DY))
			if c.Bool("used") {
				same("prediction before the refit", m.Predict(DQ, nil), dwant)
			}
			reseed(m, build())
		}
		m.Fit(lx.M, ly.M)
		c.Unchanged("Fit", lx, ly)
		lx.Scribble() // the caller may do anything with its matrices now
		ly.Scribble()
		first := m.Predict(lq.M, nil)
		same("same fit, other layout or history", first, want)
		c.Unchanged("Predict", lq)
		lx.Scribble()
		c.Unchanged("Predict", lx, ly)
		// rows on their own, with an earlier result held
		a := c.Int("from", 0, q-1)
		b := c.Int("to", a+1, q)
		_, o := want.Dims()
		same("rows on their own", m.Predict(Q.Slice(a, b, 0, p), nil), want.Slice(a, b, 0, o))
		same("earlier predictions after another prediction", first, want)
		// what the caller does with a result does not matter either
		first.Apply(func(_, _ int, _ float64) float64 { return math.Inf(1) }, first)
		same("prediction after the caller overwrote an earlier one", m.Predict(vk.Copy(Q), nil), want)

		// clones
		cl := m.PredicterClone()
		if fmt.Sprintf("%T", cl) != fmt.Sprintf("%T", m) {
			c.Fatalf("the clone of a %T is a %T", m, cl)
		}
		if g, w := cl.GetNOutputs(), m.GetNOutputs(); g != w || cl.IsClassifier() != m.IsClassifier() {
			c.Fatalf("clone has %d outputs, the original %d", g, w)
		}
		same("clone", cl.Predict(Q, nil), want)
		ld, ldy := c.Lay("D", D, true), c.Lay("DY", DY, true)
		x, y := m, cl
		if c.Bool("refitClone") {
			x, y = cl, m
		}
		reseed(x, build())
		x.Fit(ld.M, ldy.M)
		c.Unchanged("Fit", ld, ldy)
		ld.Scribble()
		ldy.Scribble()
		same("prediction after a clone or the original was refitted", y.Predict(Q, nil), want)
		same("refitted clone or original", x.Predict(DQ, nil), dwant)
		same("prediction after the other one predicted", y.Predict(Q, nil), want)
	})
}

func TestLinearModels(t *testing.T) {
	testPredicters(t, 1200, "linear", "ridge", "sgd", "bayes", "enet", "lasso", "mtenet", "mtlasso", "logistic")
}
func TestNeighbourModels(t *testing.T) {
	testPredicters(t, 2000, "knnc", "knnr", "centroid", "kmeans", "nb", "pipeknn")
}
func TestKernelModels(t *testing.T)    { testPredicters(t, 200, "svc", "svr", "gpr") }
func TestNetworks(t *testing.T)        { testPredicters(t, 500, "mlpr", "mlpc") }
func TestCompositeModels(t *testing.T) { testPredicters(t, 200, "pipeline", "gridsearch") }
