// C39: estimators give the same results however many processors work, on clones fitted at the
// same time on the same data, and when one fitted estimator serves several goroutines.
package c39

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	lm "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	ms "github.com/pa-m/sklearn/model_selection"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

var predicters = []string{"linear", "ridge", "sgd", "bayes", "enet", "lasso", "mtenet", "logistic", "nb", "knnc", "knnr", "knnc-kd", "knnr-kd",
	"centroid", "kmeans", "svc", "svr", "gpr", "mlpr", "mlpc", "pipeline", "gridsearch"}

// kind of targets: "class", "real", "reals" (several outputs), "sign" (0/1 columns)
func targets(name string) string {
	switch name {
	case "logistic", "nb", "knnc", "knnc-kd", "centroid", "kmeans", "mlpc":
		return "class"
	case "svc":
		return "sign"
	case "svr":
		return "reals-svr"
	case "bayes", "enet", "lasso", "gridsearch":
		return "real"
	}
	return "reals"
}

func mk(c *vk.C, name string) func() base.Predicter {
	k, b1, seed := c.Int("k", 1, 4), c.Bool("b1"), uint64(c.Int("seed", 0, 99))
	return func() base.Predicter {
		switch name {
		case "linear":
			m := lm.NewLinearRegression()
			m.FitIntercept, m.Normalize = true, b1
			return m
		case "ridge":
			m := lm.NewRidge()
			m.Normalize = b1
			return m
		case "sgd":
			m := lm.NewSGDRegressor()
			m.Normalize, m.L1Ratio = b1, 0
			return m
		case "bayes":
			return lm.NewBayesianRidge()
		case "enet":
			m := lm.NewElasticNet()
			m.Alpha = .1
			return m
		case "lasso":
			m := lm.NewLasso()
			m.Alpha = .05
			return m
		case "mtenet":
			m := lm.NewMultiTaskElasticNet()
			m.Alpha = .1
			return m
		case "logistic":
			m := lm.NewLogisticRegression()
			m.RandomState = base.NewLockedSource(seed)
			return m
		case "nb":
			return nb.NewGaussianNB(nil, 1e-9)
		case "knnc", "knnc-kd":
			m := neighbors.NewKNeighborsClassifier(k, []string{"uniform", "distance"}[k%2])
			if name == "knnc-kd" {
				m.Algorithm, m.LeafSize = "kd_tree", 1+k
			}
			return m
		case "knnr", "knnr-kd":
			m := neighbors.NewKNeighborsRegressor(k, []string{"uniform", "distance"}[k%2]).(*neighbors.KNeighborsRegressor)
			if name == "knnr-kd" {
				m.Algorithm, m.LeafSize = "kd_tree", 1+k
			}
			return m
		case "centroid":
			return neighbors.NewNearestCentroid("", 0)
		case "kmeans":
			return &cluster.KMeans{NClusters: k, NJobs: k * 2}
		case "svc":
			m := svm.NewSVC()
			m.MaxIter, m.Kernel = 20, []string{"linear", "rbf"}[k%2]
			m.RandomState = base.NewLockedSource(seed)
			return m
		case "svr":
			m := svm.NewSVR()
			m.MaxIter, m.Kernel = 20, []string{"linear", "rbf"}[k%2]
			m.RandomState = base.NewLockedSource(seed)
			return m
		case "gpr":
			m := gp.NewRegressor(&kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{.1, 10}}})
			m.Alpha = []float64{.1}
			return m
		case "mlpr":
			m := nn.NewMLPRegressor([]int{3}, "tanh", []string{"adam", "sgd", "lbfgs"}[k%3], 1e-3)
			m.MaxIter, m.BatchSize, m.RandomState = 6, 5, base.NewLockedSource(seed)
			return m
		case "mlpc":
			m := nn.NewMLPClassifier([]int{3}, "tanh", []string{"adam", "sgd", "lbfgs"}[k%3], 1e-3)
			m.MaxIter, m.BatchSize, m.RandomState = 6, 5, base.NewLockedSource(seed)
			return m
		case "pipeline":
			return pipeline.MakePipeline(pp.NewStandardScaler(), pp.NewPolynomialFeatures(1+k%2), lm.NewRidge())
		}
		m := &ms.GridSearchCV{Estimator: lm.NewRidge(), NJobs: k,
			ParamGrid:          map[string][]interface{}{"Alpha": {.1, 1., 10.}},
			Scorer:             func(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) },
			LowerScoreIsBetter: true, CV: &ms.KFold{NSplits: 3, RandomState: base.NewLockedSource(seed)}}
		return m
	}
}

func data(c *vk.C, kind string) (X, Y *mat.Dense) {
	n, p := c.Size("n", 10, 40, 80), c.SizeTo("p", 1, 5, 8)
	if n > 80 && (kind == "sign" || kind == "reals-svr") {
		n = 80 // support vector training slows down with the cube of the rows
	}
	r := c.Rnd("data")
	X = vk.Apply(mat.NewDense(n, p, nil), func(_, _ int, _ float64) float64 { return r.NormFloat64() })
	o := 1
	if strings.HasPrefix(kind, "reals") || kind == "sign" {
		o = c.Int("outputs", 1, 4)
	}
	Y = vk.Apply(mat.NewDense(n, o, nil), func(i, j int, _ float64) float64 {
		s := .3 * r.NormFloat64()
		for k := 0; k < p; k++ {
			s += X.At(i, k) * float64((k+j)%3)
		}
		switch kind {
		case "class":
			return float64(i % 3)
		case "sign":
			if i == 0 || i > 1 && s > 0 {
				return 1
			}
			return 0
		}
		return s
	})
	return
}

func query(c *vk.C, label string, p int) *mat.Dense {
	r := c.Rnd(label)
	return vk.Apply(mat.NewDense(c.Int(label+"n", 1, 25), p, nil), func(_, _ int, _ float64) float64 { return r.NormFloat64() })
}

// tol allows a rounding of chunked sums; ridge regression starts its search at a random point.
func tol(name string) float64 {
	if name == "ridge" || name == "pipeline" || name == "gridsearch" {
		return 1e-3
	}
	return 1e-8
}

func agree(what string, got, want *mat.Dense, tol float64) string {
	if d := vk.Diff(got, want, tol, tol); d != "" {
		return what + ": " + d
	}
	return ""
}

// together runs f(0..k-1) in goroutines released at the same time; the first complaint or panic is the answer.
func together(k int, f func(g int) string) string {
	var wg sync.WaitGroup
	start, out := make(chan struct{}), make([]string, k)
	for g := 0; g < k; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					out[g] = fmt.Sprint("panic: ", p)
				}
			}()
			<-start
			out[g] = f(g)
		}(g)
	}
	close(start)
	wg.Wait()
	for g, s := range out {
		if s != "" {
			return fmt.Sprintf("goroutine %d of %d: %s", g, k, s)
		}
	}
	return ""
}

func procs(n int, f func()) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(n))
	f()
}

func testPredicters(t *testing.T, n int, names ...string) {
	vk.Prop(t, n, "several processors, goroutines and query rows", func(c *vk.C) {
		name := c.Pick("model", names...)
		c.Class(name)
		rtol := tol(name)
		X, Y := data(c, targets(name))
		n, p := X.Dims()
		build := mk(c, name)
		nproc, k := c.PickI("procs", 8, 2, 3, 5, 1), c.Int("goroutines", 2, 5)
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		qs := make([]*vk.Layout, k)
		for g := range qs {
			qs[g] = c.Lay(fmt.Sprint("q", g), query(c, fmt.Sprint("q", g), p), true)
		}
		qn, _ := qs[0].M.Dims()
		_, o := Y.Dims()
		c.Mark(nproc > 1 && qn > 1, "%s n=%d p=%d outputs=%d procs=%d goroutines=%d", name, n, p, o, nproc, k)
		want := make([]*mat.Dense, k)
		procs(1, func() {
			m := build()
			m.Fit(lx.M, ly.M)
			for g := range want {
				want[g] = m.Predict(qs[g].M, nil)
			}
		})
		var shared base.Predicter
		procs(nproc, func() {
			shared = build()
			shared.Fit(lx.M, ly.M)
			if d := agree("fitted with "+fmt.Sprint(nproc, " processors"), shared.Predict(qs[0].M, nil), want[0], rtol); d != "" {
				c.Fatalf("%s", d)
			}
			if d := together(k, func(g int) string {
				return agree("prediction of a shared model", shared.Predict(qs[g].M, nil), want[g], rtol)
			}); d != "" {
				c.Fatalf("%s", d)
			}
			proto := build()
			models := make([]base.Predicter, k)
			for g := range models {
				models[g] = proto.PredicterClone()
			}
			if d := together(k, func(g int) string {
				models[g].Fit(lx.M, ly.M)
				return agree("clone fitted concurrently", models[g].Predict(qs[g].M, nil), want[g], rtol)
			}); d != "" {
				c.Fatalf("%s", d)
			}
			// clones of a fitted model are refitted while the model itself serves
			again := make([]base.Predicter, k)
			for g := range again {
				again[g] = shared.PredicterClone()
			}
			if d := together(k, func(g int) string {
				if g == 0 {
					return agree("prediction while clones are refitted", shared.Predict(qs[g].M, nil), want[g], rtol)
				}
				again[g].Fit(lx.M, ly.M)
				return ""
			}); d != "" {
				c.Fatalf("%s", d)
			}
			if d := agree("prediction after clones were refitted", shared.Predict(qs[0].M, nil), want[0], rtol); d != "" {
				c.Fatalf("%s", d)
			}
		})
		c.Unchanged("training data and queries", append(qs, lx, ly)...)
	})
}

func TestLinearModels(t *testing.T) {
	testPredicters(t, 20, "linear", "ridge", "sgd", "bayes", "enet", "lasso", "mtenet", "logistic")
}
func TestNeighbourModels(t *testing.T) {
	testPredicters(t, 20, "knnc", "knnr", "knnc-kd", "knnr-kd", "centroid", "kmeans", "nb")
}
func TestKernelModels(t *testing.T)    { testPredicters(t, 6, "svc", "svr", "gpr") }
func TestNetworks(t *testing.T)        { testPredicters(t, 15, "mlpr", "mlpc") }
func TestCompositeModels(t *testing.T) { testPredicters(t, 6, "pipeline", "gridsearch") }

var transformers = []string{"minmax", "standard", "robust", "maxabs", "normalizer", "binarizer", "quantile",
	"power", "boxcox", "poly", "onehot", "kbins", "imputer", "pca"}

func mkT(c *vk.C, name string) func() base.Transformer {
	k, b1 := c.Int("k", 2, 5), c.Bool("b1")
	return func() base.Transformer {
		switch name {
		case "minmax":
			return pp.NewMinMaxScaler([]float64{-1, 2})
		case "standard":
			return pp.NewStandardScaler()
		case "robust":
			return pp.NewDefaultRobustScaler()
		case "maxabs":
			return pp.NewMaxAbsScaler()
		case "normalizer":
			return pp.NewNormalizer()
		case "binarizer":
			return pp.NewBinarizer()
		case "quantile":
			return pp.NewQuantileTransformer(k, "uniform", nil)
		case "power":
			return pp.NewPowerTransformer()
		case "boxcox":
			m := pp.NewPowerTransformer()
			m.Method = "box-cox"
			return m
		case "poly":
			m := pp.NewPolynomialFeatures(k % 4)
			m.InteractionOnly = b1
			return m
		case "onehot":
			return pp.NewOneHotEncoder()
		case "kbins":
			m := pp.NewKBinsDiscretizer(k)
			if b1 {
				m.Encode = "ordinal"
			}
			return m
		case "imputer":
			m := pp.NewImputer()
			if b1 {
				m.Strategy = "median"
			}
			return m
		}
		m := pp.NewPCA()
		m.NComponents = 1
		return m
	}
}

func TestTransformers(t *testing.T) {
	vk.Prop(t, 40, "several processors and columns", func(c *vk.C) {
		name := c.Pick("transformer", transformers...)
		c.Class(name)
		rtol := tol(name)
		n, p := c.Size("n", 8, 30, 60), c.Size("p", 1, 9, 14)
		k, nproc := c.Int("goroutines", 2, 5), c.PickI("procs", 8, 2, 3, 5, 1)
		gen := func(label string, n int) *vk.Layout {
			r := c.Rnd(label)
			return c.Lay(label, vk.Apply(mat.NewDense(n, p, nil), func(i, j int, _ float64) float64 {
				switch {
				case name == "onehot" && label == "X":
					return float64(i % 3)
				case name == "onehot":
					return float64(r.Intn(3))
				case name == "boxcox":
					return math.Exp(r.NormFloat64() / 2)
				case name == "imputer" && i > 0 && r.Intn(4) == 0:
					return math.NaN()
				}
				return r.NormFloat64()
			}), true)
		}
		build := mkT(c, name)
		X, qs, want := gen("X", n), make([]*vk.Layout, k), make([]*mat.Dense, k)
		c.Mark(nproc > 1 && p > 1, "%s n=%d p=%d procs=%d goroutines=%d", name, n, p, nproc, k)
		procs(1, func() {
			m := build()
			m.Fit(X.M, nil)
			for g := range qs {
				qs[g] = gen(fmt.Sprint("q", g), c.Int("qn", 1, 15))
				want[g], _ = m.Transform(qs[g].M, nil)
			}
		})
		procs(nproc, func() {
			shared := build()
			shared.Fit(X.M, nil)
			// a normalizer remembers the norms of its last transform for the inverse
			if d := together(k, func(g int) string {
				if name == "normalizer" && g > 0 {
					return ""
				}
				got, _ := shared.Transform(qs[g].M, nil)
				return agree("transform by a shared transformer", got, want[g], rtol)
			}); d != "" {
				c.Fatalf("%s", d)
			}
			clones := make([]base.Transformer, k)
			for g := range clones {
				clones[g] = shared.TransformerClone()
			}
			if d := together(k, func(g int) string {
				m := clones[g]
				if g == 0 {
					m = shared
				} else {
					m.Fit(X.M, nil)
				}
				got, _ := m.Transform(qs[g].M, nil)
				return agree("clone fitted concurrently", got, want[g], rtol)
			}); d != "" {
				c.Fatalf("%s", d)
			}
		})
		c.Unchanged("data", append(qs, X)...)
	})
}

func TestNeighbourSearch(t *testing.T) {
	vk.Prop(t, 12, "several processors and query rows", func(c *vk.C) {
		n, p := c.Size("n", 2, 60, 150), c.Size("p", 1, 4, 7)
		k, nproc, leaf := c.Int("goroutines", 2, 5), c.PickI("procs", 8, 2, 3, 1), c.Int("leaf", 1, 8)
		nb, njobs := c.Int("neighbours", 1, n), c.PickI("njobs", -1, 1, 3)
		r := c.Rnd("X")
		X := c.Lay("X", vk.Apply(mat.NewDense(n, p, nil), func(_, _ int, _ float64) float64 { return r.NormFloat64() }), true)
		qs := make([]*vk.Layout, k)
		for g := range qs {
			qs[g] = c.Lay(fmt.Sprint("q", g), query(c, fmt.Sprint("q", g), p), true)
		}
		rtol := tol("")
		alg := c.Pick("algorithm", "auto", "brute", "kd_tree")
		qn, _ := qs[0].M.Dims()
		c.Mark(nproc > 1 && qn > 1, "%s n=%d p=%d neighbours=%d njobs=%d leaf=%d procs=%d goroutines=%d", alg, n, p, nb, njobs, leaf, nproc, k)
		type res struct{ d, i *mat.Dense }
		ask := func(m *neighbors.NearestNeighbors, g int) (a res) {
			a.d, a.i = m.KNeighbors(qs[g].M, nb)
			return
		}
		build := func(nj int) *neighbors.NearestNeighbors {
			m := neighbors.NewNearestNeighbors()
			m.Algorithm, m.NJobs, m.LeafSize = alg, nj, leaf
			m.Fit(X.M, nil)
			return m
		}
		want := make([]res, k)
		procs(1, func() {
			m := build(1)
			for g := range want {
				want[g] = ask(m, g)
			}
		})
		procs(nproc, func() {
			m := build(njobs)
			tree := neighbors.NewKDTree(X.M, leaf)
			if d := together(k, func(g int) string {
				got := ask(m, g)
				if d := agree("distances", got.d, want[g].d, rtol); d != "" {
					return d
				}
				if d := agree("indices", got.i, want[g].i, rtol); d != "" {
					return d
				}
				td, ti := tree.Query(qs[g].M, nb, 0, 2, math.Inf(1))
				if d := agree("tree distances", td, want[g].d, rtol); d != "" {
					return d
				}
				return agree("tree indices", ti, want[g].i, rtol)
			}); d != "" {
				c.Fatalf("%s", d)
			}
		})
		c.Unchanged("points", append(qs, X)...)
	})
}

func TestDBSCAN(t *testing.T) {
	vk.Prop(t, 8, "several jobs and more than one label", func(c *vk.C) {
		n, p := c.Size("n", 2, 60, 150), c.Size("p", 1, 3, 6)
		r := c.Rnd("X")
		X := c.Lay("X", vk.Apply(mat.NewDense(n, p, nil), func(_, _ int, _ float64) float64 { return r.NormFloat64() }), true)
		eps, min := c.PickF("eps", .2, .5, 1), c.Int("min", 1, 5)
		fit := func(njobs int) []int {
			m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: float64(min), NJobs: njobs})
			m.Fit(X.M, nil)
			return m.Labels
		}
		want := fit(1)
		labels := map[int]bool{}
		for _, l := range want {
			labels[l] = true
		}
		nproc, k := c.PickI("procs", 8, 2, 3), c.Int("goroutines", 1, 4)
		c.Mark(len(labels) > 1, "dbscan n=%d p=%d eps=%g min=%d labels=%d procs=%d goroutines=%d", n, p, eps, min, len(labels), nproc, k)
		procs(nproc, func() {
			if d := together(k, func(g int) string {
				if got := fit(g*3 - 1); fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Sprintf("labels %v, with one job %v", got, want)
				}
				return ""
			}); d != "" {
				c.Fatalf("%s", d)
			}
		})
		c.Unchanged("points", X)
	})
}
