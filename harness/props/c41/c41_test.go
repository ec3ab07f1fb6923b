// C41: settings and arguments outside their documented domain are refused, values inside (the
// ends of the domain included) are accepted, and a refused call leaves a fitted model as it was.
package c41

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"reflect"
	"testing"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/interpolate"
	lm "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	ms "github.com/pa-m/sklearn/model_selection"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
	"verifharness/mlpref"
	"verifharness/vk"
)

func init() { log.SetOutput(ioutil.Discard) }

// refused tells whether f panics.
func refused(f func()) (r bool, what interface{}) {
	defer func() {
		if p := recover(); p != nil {
			r, what = true, p
		}
	}()
	f()
	return
}

// expect requires f to be refused exactly when bad.
func expect(c *vk.C, what string, bad bool, f func()) {
	c.Helper()
	r, p := refused(f)
	switch {
	case bad && !r:
		c.Fatalf("%s is accepted", what)
	case !bad && r:
		c.Fatalf("%s is refused: %v", what, p)
	}
}

// setting is a hyperparameter value and whether it lies outside the domain.
type setting struct {
	field string
	value interface{}
	bad   bool
}

func (s setting) String() string { return fmt.Sprintf("%s=%v", s.field, s.value) }

// around draws a value of [lo,hi] (or open ends) or just outside of it.
func around(c *vk.C, field string, lo float64, loIn bool, hi float64, hiIn bool) setting {
	var good, bad []float64
	in := lo + .25
	if !math.IsInf(hi, 1) {
		in = (lo + hi) / 2
		bad = append(bad, math.Nextafter(hi, math.Inf(1)), hi+1, hi+c.Float("above", .001, 50))
		if hiIn {
			good = append(good, hi)
		} else {
			bad = append(bad, hi)
			good = append(good, math.Nextafter(hi, lo))
		}
	}
	good = append(good, in)
	bad = append(bad, math.Nextafter(lo, math.Inf(-1)), lo-1, lo-c.Float("below", .001, 50), math.Inf(-1))
	if loIn {
		good = append(good, lo)
	} else {
		bad = append(bad, lo)
		good = append(good, 1e-6)
	}
	if c.Bool("outside") {
		return setting{field, bad[c.Int("which", 0, len(bad)-1)], true}
	}
	return setting{field, good[c.Int("which", 0, len(good)-1)], false}
}

func count(c *vk.C, field string) setting {
	v := c.PickI("count", 0, 1, -1, 2, -7)
	return setting{field, v, v <= 0}
}

func name(c *vk.C, field string, good []string, bad ...string) setting {
	if c.Bool("outside") {
		return setting{field, c.Pick("name", bad...), true}
	}
	return setting{field, c.Pick("name", good...), false}
}

func set(m interface{}, field string, v interface{}) interface{} {
	f := reflect.Indirect(reflect.ValueOf(m)).FieldByName(field)
	old := f.Interface()
	f.Set(reflect.ValueOf(v).Convert(f.Type()))
	return old
}

func classes(n, k int) *mat.Dense {
	return vk.Apply(mat.NewDense(n, 1, nil), func(i, _ int, _ float64) float64 { return float64(i%k) * 2 })
}

func predict(m interface{}, Q *mat.Dense) *mat.Dense {
	n, _ := Q.Dims()
	switch b := m.(type) {
	case *nn.BaseMultilayerPerceptron64:
		Y := mat.NewDense(n, b.GetNOutputs(), nil)
		b.Predict(Q, Y)
		return Y
	case *nn.BaseMultilayerPerceptron32:
		Y := mat.NewDense(n, b.GetNOutputs(), nil)
		b.Predict(Q, Y)
		return Y
	}
	return m.(base.Predicter).Predict(Q, nil)
}

// TestNetworkSettings: every hyperparameter that Fit validates.
func TestNetworkSettings(t *testing.T) {
	vk.Prop(t, 400, "a fitted network, then a fit with one setting in or out of its domain; non-trivial: the setting is out of its domain", func(c *vk.C) {
		kind := c.Pick("model", "regressor", "classifier", "base64", "base32", "logistic")
		n, p := c.Int("n", 4, 9), c.Int("p", 1, 3)
		X, Y := c.Mat("X", n, p, vk.Gauss), classes(n, 3)
		X2, Y2 := c.Mat("X2", n+1, p, vk.Gauss), classes(n+1, 2)
		var m interface{}
		var s setting
		field := c.Pick("field", "MaxIter", "Alpha", "NIterNoChange", "LearningRateInit", "Momentum", "ValidationFraction", "Beta1", "Beta2",
			"Epsilon", "Activation", "LearningRate", "Solver", "HiddenLayerSizes")
		if kind == "logistic" {
			field = c.Pick("logistic field", "MaxIter", "Alpha", "NIterNoChange")
			l := lm.NewLogisticRegression()
			l.MaxIter, l.RandomState = 5, base.NewLockedSource(1)
			m = l
		} else {
			m = mlpref.New(kind, []int{2}, "tanh")
			mlpref.Set(m, map[string]interface{}{"MaxIter": 3, "Solver": c.Pick("solver", "adam", "sgd", "lbfgs")})
			mlpref.SetState(m, base.NewLockedSource(1))
		}
		switch field {
		case "MaxIter", "NIterNoChange":
			s = count(c, field)
		case "Alpha":
			s = around(c, field, 0, true, math.Inf(1), false)
		case "LearningRateInit", "Epsilon":
			s = around(c, field, 0, false, math.Inf(1), false)
		case "Momentum":
			s = around(c, field, 0, true, 1, true)
		case "ValidationFraction":
			s = around(c, field, 0, true, 1, false)
			if c.Bool("stopping") && s.bad {
				set(m, "EarlyStopping", true)
			}
		case "Beta1", "Beta2":
			s = around(c, field, 0, true, 1, false)
			if v, _ := s.value.(float64); !s.bad && v > .9999999 {
				s.value = .875
			}
		case "Activation":
			s = name(c, field, []string{"relu", "tanh", "logistic", "identity"}, "", "Tanh2", "sigmoid", "step", "square")
		case "LearningRate":
			s = name(c, field, []string{"constant", "invscaling", "adaptive"}, "", "linear", "Constant ", "step")
		case "Solver":
			s = name(c, field, []string{"sgd", "adam", "lbfgs"}, "", "newton", "adadelta", "lbfgsb", "rmsprop")
		case "HiddenLayerSizes":
			h := []int{c.Int("h1", 1, 3), c.Int("h2", 1, 3), c.Int("h3", 1, 3)}[:c.Int("layers", 0, 3)]
			s = setting{field, h, false}
			if len(h) > 0 && c.Bool("outside") {
				s.bad = true
				h[c.Int("layer", 0, len(h)-1)] = c.PickI("size", 0, -1, -5)
			}
		}
		if kind == "base32" {
			if v, ok := s.value.(float64); ok { // the nearest 32-bit values
				f := float32(v)
				if lo := float32(0); s.bad && f == lo && v < 0 {
					f = math.Nextafter32(0, -1)
				} else if s.bad && f == 1 && v > 1 {
					f = math.Nextafter32(1, 2)
				} else if !s.bad && f == 1 && v < 1 {
					f = math.Nextafter32(1, 0)
				}
				s.value = f
			}
		}
		c.Class(kind + " " + field)
		c.Mark(s.bad, "%s %v", kind, s)
		fitted := c.Bool("fitted")
		var before *mat.Dense
		if fitted {
			mlpFit(m, X, Y)
			before = predict(m, X)
		}
		old := set(m, s.field, s.value)
		expect(c, fmt.Sprintf("%s with %v", kind, s), s.bad, func() { mlpFit(m, X2, Y2) })
		if !s.bad {
			return
		}
		set(m, s.field, old)
		if fitted {
			c.Eq("predictions after a refused fit", predict(m, X), before, 0, 0)
		}
		expect(c, "a fit with the setting put back", false, func() { mlpFit(m, X2, Y2) })
	})
}

func mlpFit(m interface{}, X, Y *mat.Dense) {
	if l, ok := m.(*lm.LogisticRegression); ok {
		l.Fit(X, Y)
		return
	}
	mlpref.Fit(m, X, Y)
}

// TestNetworkJSON: a damaged description is an error, not a panic, and not a network.
func TestNetworkJSON(t *testing.T) {
	vk.Prop(t, 600, "descriptions of networks with a damage; non-trivial: all", func(c *vk.C) {
		units := []int{c.Int("in", 1, 3), c.Int("h", 1, 3), c.Int("out", 1, 2)}
		net := mlpref.Gen(c, "net", units, "tanh", "identity", 1)
		buf := net.JSON(nil, c.Bool("nested"))
		bits := c.Pick("bits", "64", "32")
		load := func(b []byte) error {
			if bits == "64" {
				return nn.NewMLPRegressor([]int{}, "tanh", "adam", 0).Unmarshal(b)
			}
			return nn.NewBaseMultilayerPerceptron32().Unmarshal(b)
		}
		if err := load(buf); err != nil {
			c.Fatalf("%s: %v", buf, err)
		}
		damage := c.Pick("damage", "cut", "ragged", "type", "rows", "intercept", "layers", "no intercepts", "empty", "deep", "null")
		c.Class(damage)
		var mp map[string]interface{}
		if err := json.Unmarshal(buf, &mp); err != nil {
			c.Fatalf("%v", err)
		}
		coefs, inter := mp["coefs_"].([]interface{}), mp["intercepts_"].([]interface{})
		l := c.Int("layer", 0, 1)
		layer := coefs[l].([]interface{})
		r := c.Int("row", 0, len(layer)-1)
		row := layer[r].([]interface{})
		junk := []interface{}{"x", true, map[string]interface{}{}, nil, []interface{}{1.}}[c.Int("junk", 0, 4)]
		switch damage {
		case "ragged":
			if len(layer) == 1 {
				damage = "intercept"
				inter[l] = append(inter[l].([]interface{}), 1.)
			} else if c.Bool("longer") {
				layer[r] = append(row, 1.)
			} else {
				layer[r] = row[1:]
			}
		case "type":
			row[c.Int("col", 0, len(row)-1)] = junk
		case "rows":
			if c.Bool("more") {
				coefs[1] = append(coefs[1].([]interface{}), coefs[1].([]interface{})[0])
			} else {
				coefs[1] = coefs[1].([]interface{})[1:]
			}
		case "intercept":
			if c.Bool("more") {
				inter[l] = append(inter[l].([]interface{}), 1.)
			} else if c.Bool("less") {
				inter[l] = inter[l].([]interface{})[1:]
			} else {
				inter[l] = junk
				if _, ok := junk.([]interface{}); ok {
					inter[l] = []interface{}{"x"}
				}
			}
		case "layers":
			mp["intercepts_"] = inter[:1]
			if c.Bool("more") {
				mp["intercepts_"] = append(inter, inter[0])
			}
		case "no intercepts":
			delete(mp, "intercepts_")
			if c.Bool("other") {
				mp["intercepts_"] = 3.5
			}
		case "empty":
			switch c.Int("what", 0, 2) {
			case 0:
				mp["coefs_"] = []interface{}{}
			case 1:
				coefs[l] = []interface{}{}
			default:
				for i := range layer {
					layer[i] = []interface{}{}
				}
			}
		case "deep":
			coefs[l] = junk
		case "null":
			mp["coefs_"] = []interface{}{"x", 1.5, true, nil, map[string]interface{}{}}[c.Int("top", 0, 4)]
		}
		bad, err := json.Marshal(mp)
		if err != nil {
			c.Fatalf("%v", err)
		}
		if damage == "cut" {
			bad = buf[:c.Int("length", 0, len(buf)-1)]
		}
		c.Mark(true, "%s: %s", damage, bad)
		if r, p := refused(func() { err = load(bad) }); r {
			c.Fatalf("reading %s panics: %v", bad, p)
		}
		if err == nil {
			c.Fatalf("%s is accepted", bad)
		}
	})
}

// TestNaiveBayes: labels, priors and shapes; a refused batch leaves the model alone.
func TestNaiveBayes(t *testing.T) {
	vk.Prop(t, 500, "a model fitted or not, then a batch with or without a fault; non-trivial: a fault after a fit", func(c *vk.C) {
		n, p, K := c.Int("n", 4, 9), c.Int("p", 1, 3), c.Int("K", 2, 4)
		X, Y := c.Mat("X", n, p, vk.Gauss), classes(n, K)
		m := nb.NewGaussianNB(nil, 1e-3)
		fitted := c.Bool("fitted")
		if fitted {
			m.Fit(X, Y)
		}
		var before *mat.Dense
		cls := []float64{0, 2, 4, 6}[:K]
		refit := c.Bool("refit")
		fault := c.Pick("fault", "none", "columns", "priors number", "priors sum", "priors sign", "features", "label", "Y columns after fit")
		pr := make([]float64, K)
		for i := range pr {
			pr[i] = 1 / float64(K)
		}
		X2, Y2 := c.Mat("X2", n, p, vk.Unif), classes(n, K)
		bad := fault != "none"
		first := refit || !fitted
		switch fault {
		case "none":
			if c.Bool("priors") {
				m.Priors = pr
				if c.Bool("rounded") {
					pr[0] += c.PickF("rounding", 5e-7, -5e-7)
				}
				if c.Bool("zero") {
					pr[1] += pr[0]
					pr[0] = 0
				}
			}
		case "columns", "Y columns after fit":
			Y2 = mat.NewDense(n, 2, nil)
		case "priors number":
			m.Priors = append(pr, 0)
			if c.Bool("short") {
				pr[1] += pr[0]
				m.Priors = pr[1:]
			}
			bad = first
		case "priors sum":
			m.Priors = pr
			pr[c.Int("which", 0, K-1)] += c.PickF("off", .1, -.1, 1e-5, -1e-5)
			bad = first
		case "priors sign":
			m.Priors = pr
			pr[1] += pr[0] + .25
			pr[0] = -.25
			bad = first
		case "features":
			X2 = c.Mat("X3", n, p+1, vk.Gauss)
			bad = !first
		case "label":
			Y2.Set(c.Int("row", 0, n-1), 0, c.PickF("new", 1, 8, -2))
		}
		c.Class(fault)
		c.Mark(bad && fitted, "%s fitted=%v refit=%v K=%d", fault, fitted, refit, K)
		if fitted {
			pri := m.Priors
			before = mat.NewDense(n, K, nil)
			m.Priors = nil
			m.PredictProbas(X, before)
			m.Priors = pri
		}
		given := append([]float64{}, m.Priors...)
		expect(c, fault, bad, func() { m.PartialFit(X2, Y2, cls, refit, nil) })
		c.EqS("priors given by the user", m.Priors, given, 0, 0)
		if bad && fitted {
			m.Priors = nil
			after := mat.NewDense(n, K, nil)
			m.PredictProbas(X, after)
			c.Eq("probabilities after a refused batch", after, before, 0, 0)
			// the model goes on like one that never saw the batch
			ref := nb.NewGaussianNB(nil, 1e-3)
			ref.Fit(X, Y)
			X3, Y3 := c.Mat("X3", n, p, vk.Gauss), classes(n, K)
			ref.PartialFit(X3, Y3, cls, false, nil)
			m.PartialFit(X3, Y3, cls, false, nil)
			ref.PredictProbas(X, before)
			m.PredictProbas(X, after)
			c.Eq("probabilities after the next batch", after, before, 0, 0)
		}
	})
}

// TestEstimators: everything else that fits.
func TestEstimators(t *testing.T) {
	vk.Prop(t, 1500, "one call in or out of its domain; non-trivial: out of its domain", func(c *vk.C) {
		n, p := c.Int("n", 3, 9), c.Int("p", 1, 3)
		X, Q := c.Mat("X", n, p, vk.Gauss), c.Mat("Q", c.Int("q", 1, 5), p, vk.Gauss)
		q, _ := Q.Dims()
		what := c.Pick("call", "kmeans", "dbscan", "knn proba", "centroid", "centroid proba", "gp alpha", "gp scale", "svm kernel", "kbins", "power",
			"pipeline", "grid field", "grid type", "mlb", "knn k")
		c.Class(what)
		switch what {
		case "kmeans":
			k := c.Int("k", 1, n+3)
			m := &cluster.KMeans{NClusters: 1}
			m.Fit(X, nil)
			m.NClusters = k
			c.Mark(k > n, "kmeans of %d samples into %d clusters", n, k)
			expect(c, fmt.Sprintf("%d clusters of %d samples", k, n), k > n, func() { m.Fit(X, nil) })
		case "knn k":
			k, alg := c.Int("k", -3, n+2), c.Pick("algorithm", "auto", "brute", "kd_tree")
			clf := neighbors.NewKNeighborsClassifier(1, "uniform")
			clf.Algorithm = alg
			var m base.Predicter = clf
			setK := func(k int) { clf.K = k }
			if c.Bool("regressor") {
				reg := neighbors.NewKNeighborsRegressor(1, "uniform").(*neighbors.KNeighborsRegressor)
				reg.Algorithm = alg
				m, setK = reg, func(k int) { reg.K = k }
			}
			m.Fit(X, classes(n, 3))
			before := m.Predict(Q, nil)
			setK(k)
			bad := k <= 0 || k > n
			c.Mark(bad, "K=%d of %d", k, n)
			expect(c, fmt.Sprintf("K=%d of %d", k, n), bad, func() {
				if k > 0 && c.Bool("fitted") {
					m.Predict(Q, nil)
					return
				}
				m.Fit(X, classes(n, 2))
				m.Predict(Q, nil)
			})
			if k <= 0 {
				setK(1)
				c.Eq("predictions after a refused fit", m.Predict(Q, nil), before, 0, 0)
			}
		case "dbscan":
			m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: 1, MinSamples: 2})
			m.Fit(X, nil)
			rows, yr, yc := c.Int("rows", n-1, n+1), c.Int("yr", n-1, n+1), c.Int("yc", 1, 2)
			if c.Bool("right") {
				rows, yr, yc = n, n, 1
			}
			bad := rows != n || yr != n || yc != 1
			c.Mark(bad, "DBSCAN of %d rows predicts %d into %dx%d", n, rows, yr, yc)
			expect(c, fmt.Sprintf("predicting %d rows into %dx%d after fitting %d", rows, yr, yc, n), bad, func() {
				m.Predict(mat.NewDense(rows, p, nil), mat.NewDense(yr, yc, nil))
			})
		case "knn proba":
			outs, K := c.Int("outs", 1, 2), c.Int("K", 2, 3)
			cols := c.PickI("cols", K, K, K-1, K+1)
			Y := mat.NewDense(n, outs, nil)
			for o := 0; o < outs; o++ {
				Y.Slice(0, n, o, o+1).(*mat.Dense).Copy(classes(n, K))
			}
			m := neighbors.NewKNeighborsClassifier(1, c.Pick("w", "uniform", "distance"))
			m.Fit(X, Y)
			bad := outs > 1 || cols != K
			c.Mark(bad, "probabilities of %d outputs with %d classes into %d columns", outs, K, cols)
			expect(c, fmt.Sprintf("probabilities of %d outputs with %d classes into %d columns", outs, K, cols), bad, func() {
				m.PredictProba(Q, mat.NewDense(q, cols, nil))
			})
		case "centroid":
			cols := c.Int("cols", 1, 3)
			m := neighbors.NewNearestCentroid("", 0)
			c.Mark(cols > 1, "centroids for %d outputs", cols)
			expect(c, fmt.Sprintf("%d outputs", cols), cols != 1, func() {
				m.Fit(X, vk.Apply(mat.NewDense(n, cols, nil), func(i, _ int, _ float64) float64 { return float64(i % 2) }))
			})
		case "centroid proba":
			m := neighbors.NewNearestCentroid("", 0)
			m.Fit(X, classes(n, 2))
			c.Mark(true, "probabilities of a nearest centroid")
			expect(c, "PredictProba", true, func() { m.PredictProba(Q, mat.NewDense(q, 2, nil)) })
		case "gp alpha":
			k := c.Int("alphas", 0, n+2)
			if c.Bool("all") {
				k = n
			}
			m := gp.NewRegressor(&kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{.1, 10}}})
			m.Alpha = []float64{.5}
			m.Fit(Q, classes(q, 2))
			before := m.Predict(Q, nil)
			m.Alpha = make([]float64, k)
			for i := range m.Alpha {
				m.Alpha[i] = .5 + float64(i)/8
			}
			bad := k != 1 && k != n
			c.Mark(bad, "%d alphas for %d samples", k, n)
			expect(c, fmt.Sprintf("%d alphas for %d samples", k, n), bad, func() { m.Fit(X, classes(n, 2)) })
			if bad {
				m.Alpha = []float64{.5}
				c.Eq("predictions after a refused fit", m.Predict(Q, nil), before, 0, 0)
			}
		case "gp scale":
			k := c.Int("scales", 1, 4)
			K := &kernels.RBF{LengthScale: make([]float64, k), LengthScaleBounds: make([][2]float64, k)}
			for i := range K.LengthScale {
				K.LengthScale[i], K.LengthScaleBounds[i] = 1+float64(i)/4, [2]float64{.1, 10}
			}
			bad := k != 1 && k != p
			c.Mark(bad, "%d scales for %d features", k, p)
			expect(c, fmt.Sprintf("%d length scales for %d features", k, p), bad, func() { K.Eval(X, nil, false) })
		case "svm kernel":
			vals := []interface{}{"rbf", svm.LinearKernel{}, func(a, b []float64) float64 { return a[0] * b[0] }, 3, nil, 1.5, []string{"rbf"}, true}
			v := vals[c.Int("kernel", 0, len(vals)-1)]
			bad := !(reflect.DeepEqual(v, "rbf") || reflect.DeepEqual(v, svm.LinearKernel{}) || v != nil && reflect.TypeOf(v).Kind() == reflect.Func)
			var m base.Predicter
			var b *svm.BaseLibSVM
			if c.Bool("svr") {
				r := svm.NewSVR()
				m, b = r, &r.BaseLibSVM
			} else {
				r := svm.NewSVC()
				m, b = r, &r.BaseLibSVM
			}
			b.MaxIter, b.RandomState = 2, base.NewLockedSource(1)
			Y := vk.Apply(mat.NewDense(n, 1, nil), func(i, _ int, _ float64) float64 { return float64(i % 2) })
			m.Fit(X, Y)
			before := m.Predict(Q, nil)
			b.Kernel = v
			c.Mark(bad, "kernel %T", v)
			expect(c, fmt.Sprintf("kernel %#v", v), bad, func() { m.Fit(X, Y) })
			if bad {
				b.Kernel = "rbf"
				c.Eq("predictions after a refused fit", m.Predict(Q, nil), before, 0, 0)
			}
		case "kbins":
			m := pp.NewKBinsDiscretizer(2)
			m.Encode = "ordinal"
			m.Fit(X, nil)
			before, _ := m.Transform(Q, nil)
			s := name(c, "Strategy", []string{"quantile", "uniform"}, "kmeans", "", "Uniform", "quantiles")
			m.Strategy = s.value.(string)
			c.Mark(s.bad, "%v", s)
			expect(c, s.String(), s.bad, func() { m.Fit(c.Mat("X2", n, p, vk.Unif), nil) })
			if s.bad {
				after, _ := m.Transform(Q, nil)
				c.Eq("bins after a refused fit", after, before, 0, 0)
			}
		case "power":
			s := name(c, "Method", []string{"yeo-johnson", "box-cox"}, "", "boxcox", "yeo", "Box-Cox")
			pos := vk.Apply(X, func(_, _ int, v float64) float64 { return math.Exp(v / 4) })
			m := pp.NewPowerTransformer()
			if !s.bad {
				m.Method = s.value.(string)
			}
			m.Fit(pos, nil)
			m.Method = s.value.(string)
			when := c.Pick("when", "fit", "transform", "inverse", "fit transform")
			c.Mark(s.bad, "%v at %s", s, when)
			expect(c, s.String()+" at "+when, s.bad, func() {
				switch when {
				case "fit":
					m.Fit(pos, nil)
				case "transform":
					m.Transform(pos, nil)
				case "inverse":
					m.InverseTransform(pos, nil)
				default:
					m.FitTransform(pos, nil)
				}
			})
		case "pipeline":
			steps := []pipeline.NamedStep{{Name: "a", Fiter: pp.NewStandardScaler()}, {Name: "b", Fiter: pp.NewMinMaxScaler([]float64{0, 1})}, {Name: "c", Fiter: lm.NewLinearRegression()}}
			k := c.Int("odd", 0, 3)
			if k < 3 {
				steps[k].Fiter = odd{}
			}
			m := pipeline.NewPipeline(steps...)
			Y := classes(n, 2)
			when := c.Pick("when", "fit", "score", "clone")
			c.Mark(k < 3, "step %d of 3 only fits, %s", k, when)
			bad := k < 3 && (k < 2 || when != "fit")
			expect(c, fmt.Sprintf("%s of a pipeline whose step %d can only fit", when, k), bad, func() {
				if when != "clone" {
					m.Fit(X, Y)
				}
				if when == "score" {
					m.Score(X, Y)
				}
				if when == "clone" {
					m.PredicterClone()
				}
			})
		case "grid field":
			s := name(c, "field", []string{"Alpha", "alpha", "ALPHA"}, "Alhpa", "", "Alpha ", "NoSuchField", "alpha_")
			m := grid(map[string][]interface{}{s.value.(string): {.5, 1.}}, c.Int("jobs", 1, 3))
			c.Mark(s.bad, "%v", s)
			expect(c, s.String(), s.bad, func() { m.Fit(X, classes(n, 2)) })
		case "grid type":
			vals := []interface{}{1, .5, float32(.5), "x", true, []float64{1}, struct{}{}}
			i := c.Int("value", 0, len(vals)-1)
			m := grid(map[string][]interface{}{"Alpha": {vals[i]}}, c.Int("jobs", 1, 3))
			c.Mark(i > 2, "%T", vals[i])
			expect(c, fmt.Sprintf("Alpha=%#v", vals[i]), i > 2, func() { m.Fit(X, classes(n, 2)) })
		case "mlb":
			vals := []interface{}{classes(n, 2), [][]string{{"a"}, {"b", "a"}}, []string{"a"}, 3, [][]float64{{1}}, "a"}
			i := c.Int("value", 0, len(vals)-1)
			c.Mark(i > 1, "%T", vals[i])
			expect(c, fmt.Sprintf("labels %#v", vals[i]), i > 1, func() { pp.NewMultiLabelBinarizer().Fit2(nil, vals[i]) })
		}
	})
}

func grid(g map[string][]interface{}, jobs int) *ms.GridSearchCV {
	return &ms.GridSearchCV{Estimator: lm.NewLasso(), ParamGrid: g, NJobs: jobs, CV: &ms.KFold{NSplits: 2},
		Scorer: func(a, b mat.Matrix) float64 { return metrics.MeanSquaredError(a, b, nil, "").At(0, 0) }, LowerScoreIsBetter: true}
}

// odd can be fitted, and nothing else.
type odd struct{}

func (o odd) Fit(X, Y mat.Matrix) base.Fiter { return o }

// TestFunctions: plain functions and matrix views.
func TestFunctions(t *testing.T) {
	vk.Prop(t, 1500, "one call in or out of its domain; non-trivial: out of its domain", func(c *vk.C) {
		what := c.Pick("call", "interp", "interp", "posLabel", "solver", "optimizer", "uses", "slice", "rowslice", "colslice", "dims", "view", "less")
		c.Class(what)
		switch what {
		case "interp":
			a, b := c.Int("x", 0, 4), c.Int("y", 0, 4)
			if c.Bool("same") {
				b = a
			}
			x, y := make([]float64, a), make([]float64, b)
			for i := range x {
				x[i] = float64(i)
			}
			bad := a != b || a < 2
			c.Mark(bad, "%d abscissae, %d ordinates", a, b)
			expect(c, fmt.Sprintf("%d abscissae, %d ordinates", a, b), bad, func() { interpolate.Interp1d(x, y) })
		case "posLabel":
			K := c.Int("K", 1, 4)
			n := c.Int("n", K, 9)
			pos := c.Int("pos", -1, K+2)
			Y := classes(n, K)
			c.Mark(pos >= K, "class %d of %d", pos, K)
			expect(c, fmt.Sprintf("class %d of %d", pos, K), pos >= K, func() {
				metrics.PrecisionRecallFScoreSupport(Y, Y, 1, nil, pos, c.Pick("avg", "macro", "micro", "weighted"), nil, nil)
			})
		case "solver", "optimizer":
			s := name(c, "name", []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam"}, "", "lbfgs", "SGDx", "momentum", "adamw")
			c.Mark(s.bad, "%v", s)
			expect(c, what+" "+s.String(), s.bad, func() {
				var o base.Optimizer
				if what == "solver" {
					o = base.NewSolver(s.value.(string))()
				} else {
					o = base.NewOptimizer(s.value.(string))
				}
				if o == base.Optimizer(nil) {
					panic("no optimizer")
				}
			})
		case "uses":
			grad := c.Bool("grad")
			o := base.NewOptimizer(c.Pick("name", "sgd", "adagrad", "rmsprop", "adadelta", "adam"))
			_, err := o.(optimize.Method).Uses(optimize.Available{Grad: grad})
			c.Mark(!grad, "gradient %v", grad)
			if (err != nil) != !grad {
				c.Fatalf("a problem with gradient %v: error %v", grad, err)
			}
		case "slice", "rowslice", "colslice":
			r, k := c.Int("r", 1, 4), c.Int("c", 1, 4)
			M := c.Mat("M", r, k, vk.Grid)
			i, e := c.Int("i", 0, r), c.Int("e", 0, r)
			j, l := c.Int("j", 0, k-1), k
			bad := e <= i
			call := func() { base.MatDenseSlice(M, i, e, j, l) }
			if what == "rowslice" {
				call = func() { base.MatDenseRowSlice(M, i, e) }
			} else if what == "colslice" {
				j, l = c.Int("jj", 0, k), c.Int("l", 0, k)
				bad = l <= j
				call = func() { base.MatDenseColSlice(M, j, l) }
			}
			c.Mark(bad, "%s rows %d:%d columns %d:%d of %dx%d", what, i, e, j, l, r, k)
			expect(c, fmt.Sprintf("%s rows %d:%d columns %d:%d of %dx%d", what, i, e, j, l, r, k), bad, call)
		case "dims":
			d := func(l string) *mat.Dense { return mat.NewDense(c.Int(l+"r", 1, 2), c.Int(l+"c", 1, 2), nil) }
			A, B, R := d("A"), d("B"), d("R")
			op := c.Pick("op", "+", "-", "*", "/", ".")
			ra, ca := A.Dims()
			rb, cb := B.Dims()
			rr, cr := R.Dims()
			bad := ra != rb || ca != cb || rr != ra || cr != ca
			if op == "." {
				bad = ca != rb || rr != ra || cr != cb
			}
			c.Mark(bad, "%dx%d = %dx%d %s %dx%d", rr, cr, ra, ca, op, rb, cb)
			expect(c, fmt.Sprintf("%dx%d = %dx%d %s %dx%d", rr, cr, ra, ca, op, rb, cb), bad, func() { base.MatDimsCheck(op, R, A, B) })
		case "view":
			r, k := c.Int("r", 2, 5), c.Int("c", 1, 3)
			M := c.Mat("M", r, k, vk.Grid)
			s := c.Int("s", 0, r-2)
			e := c.Int("e", s+1, r-1)
			i := c.Int("row", -1, r)
			bad := i < 0 || i >= e-s
			c.Mark(bad, "row %d of a view of rows %d:%d of %d", i, s, e, r)
			expect(c, fmt.Sprintf("row %d of a view of rows %d:%d of %d", i, s, e, r), bad, func() {
				if v := (base.MatRowSlice{Matrix: M, Start: s, End: e}).At(i, 0); v != M.At(s+i, 0) {
					c.Fatalf("row %d of a view from %d is %g", i, s, v)
				}
			})
			ro := c.Bool("read only")
			var under mat.Matrix = vk.Copy(M)
			if ro {
				under = vk.Generic{M: vk.Copy(M)}
			}
			expect(c, fmt.Sprintf("writing through a view, read only %v", ro), ro, func() {
				base.MatRowSlice{Matrix: under, Start: s, End: e}.Set(0, 0, 1)
			})
			expect(c, fmt.Sprintf("writing through a transposition, read only %v", ro), ro, func() {
				base.MatTranspose{Matrix: under}.Set(0, 0, 1)
			})
		case "less":
			k := c.Int("cols", 1, 3)
			g64, g32 := nn.General64{Rows: 2, Cols: k, Stride: k, Data: make([]float64, 2*k)}, nn.General32{Rows: 2, Cols: k, Stride: k, Data: make([]float32, 2*k)}
			c.Mark(k != 1, "ordering rows of %d columns", k)
			expect(c, fmt.Sprintf("ordering rows of %d columns (64)", k), k != 1, func() { g64.Less(0, 1) })
			expect(c, fmt.Sprintf("ordering rows of %d columns (32)", k), k != 1, func() { g32.Less(0, 1) })
		}
	})
}
