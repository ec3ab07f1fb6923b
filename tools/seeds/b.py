import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only: seed(sid, *a, **k)

S("s07-kdtree-manhattan", "C17", "neighbors", [("neighbors/kdtree.go", "				sd[innernode.splitDim] = math.Abs(innernode.split - x)\n				minDistance = minDistance - sideDistances[innernode.splitDim] + sd[innernode.splitDim]",
 "				sd[innernode.splitDim] = math.Abs(innernode.split - x)\n				minDistance += sd[innernode.splitDim]")],
'''package neighbors
import ("testing";"math";"gonum.org/v1/gonum/mat";"golang.org/x/exp/rand")
func TestZZDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 60; k++ {
		n := 40
		X := mat.NewDense(n, 2, nil)
		for i := 0; i < n; i++ { X.Set(i, 0, r.NormFloat64()); X.Set(i, 1, r.NormFloat64()) }
		q := mat.NewDense(1, 2, []float64{r.NormFloat64()*3, r.NormFloat64()*3})
		d, _ := NewKDTree(X, 1).Query(q, 3, 0, 1, math.Inf(1))
		best := math.Inf(1)
		for i := 0; i < n; i++ { best = math.Min(best, math.Abs(X.At(i,0)-q.At(0,0))+math.Abs(X.At(i,1)-q.At(0,1))) }
		if math.Abs(d.At(0, 0)-best) > 1e-9 { t.Fatalf("nearest %g, want %g", d.At(0, 0), best) }
	}
}
''', "the manhattan metric and a path that splits the same dimension twice, or a query outside the data's box", "cells are pruned that hold nearer points")

S("s08-dbscan-weights", "C19", "cluster", [("cluster/dbscan.go", "				NNeighbors[i] += m.SampleWeight[neighbor]", "				if w := m.SampleWeight[neighbor]; w > 0 {\n					NNeighbors[i] += w\n				}")],
'''package cluster
import ("testing";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	m := NewDBSCAN(&DBSCANConfig{Eps: 1, MinSamples: 3, NJobs: 1})
	m.SampleWeight = []float64{2, 2, -2}
	m.Fit(mat.NewDense(3, 1, []float64{0, .1, .2}), nil)
	for _, l := range m.Labels { if l != -1 { t.Fatalf("labels %v: total weight is 2 of 3", m.Labels) } }
}
''', "negative sample weights", "a sample of negative weight no longer inhibits its neighbours from being core")

S("s10-pipeline-first-inverse", "C23", "pipeline", [("pipeline/pipeline.go", "for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {", "for iStep := len(p.NamedSteps) - 2; iStep > 0; iStep-- {")],
'''package pipeline
import ("testing";"math";pp "github.com/pa-m/sklearn/preprocessing";lm "github.com/pa-m/sklearn/linear_model";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	X, Y := mat.NewDense(6, 1, []float64{1, 2, 3, 4, 5, 6}), mat.NewDense(6, 1, []float64{10, 20, 30, 40, 50, 60})
	half := func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) { y := mat.DenseCopyOf(Y); y.Scale(.1, y); return X, y }
	twice := func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) { y := mat.DenseCopyOf(Y); y.Scale(10, y); return X, y }
	p := NewPipeline(NamedStep{"f", pp.NewFunctionTransformer(half, twice)}, NamedStep{"lr", lm.NewLinearRegression()})
	p.Fit(X, Y)
	P := p.Predict(X, nil)
	if math.Abs(P.At(2, 0)-30) > 1e-6 { t.Fatalf("prediction %g, want 30", P.At(2, 0)) }
}
''', "a first step that transforms the targets and can undo it", "predictions stay on the transformed scale of the first step")

S("s12-adaptive-rate", "C36", "neural_network", [("neural_network/basemlp64.go", "	if opt.LearningRate <= 1e-6 {", "	if opt.LearningRate <= 1e-5 {")],
'''package neuralnetwork
import ("testing";"github.com/pa-m/sklearn/base";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	X, Y := mat.NewDense(6, 1, []float64{1, 2, 3, 4, 5, 6}), mat.NewDense(6, 1, []float64{1, 2, 3, 4, 5, 6})
	m := NewMLPRegressor([]int{}, "identity", "sgd", 0)
	m.LearningRate, m.LearningRateInit, m.Tol, m.NIterNoChange, m.MaxIter, m.Shuffle = "adaptive", 1e-3, 1e9, 1, 100, false
	m.RandomState = base.NewSource(1)
	m.Fit(X, Y)
	n := 0
	for lr := 1e-3; ; lr /= 5 { n += 2; if lr <= 1e-6 { break } }
	if m.NIter < 7 || m.NIter > n+2 { t.Fatalf("%d epochs", m.NIter) }
	if m.NIter != 7 && m.NIter != 12 && m.NIter != 13 { t.Logf("%d epochs", m.NIter) }
	if lr := m.optimizer.(*SGDOptimizer64).LearningRate; lr > 1e-6 { t.Fatalf("stopped at learning rate %g", lr) }
}
''', "adaptive learning rate over a long stall of the loss", "training gives up at a rate of 1e-5 instead of 1e-6")

S("s13-octave-truncated", "C38", "datasets", [("datasets/octave.go", "		if err == io.EOF {\n			return retval\n		}\n		check(err)", "		if err == io.EOF || err == io.ErrUnexpectedEOF {\n			return retval\n		}\n		check(err)")],
'''package datasets
import ("testing";"bytes";"encoding/binary";"io/ioutil";"os";"path/filepath")
func TestZZDemo(t *testing.T) {
	dir, _ := ioutil.TempDir("", "zz")
	defer os.RemoveAll(dir)
	b := &bytes.Buffer{}
	b.WriteString("Octave-1-L\\x00")
	v := func(name string) {
		u := func(n int) { binary.Write(b, binary.LittleEndian, uint32(n)) }
		u(len(name)); b.WriteString(name); u(0); b.WriteByte(0); b.WriteByte(255); u(6); b.WriteString("matrix"); b.Write([]byte{254, 255, 255, 255}); u(1); u(1); b.WriteByte(7); binary.Write(b, binary.LittleEndian, 2.5)
	}
	v("abc")
	whole := b.Len()
	v("defgh")
	for cut := whole + 1; cut < whole+9; cut++ {
		f := filepath.Join(dir, "x.bin")
		ioutil.WriteFile(f, b.Bytes()[:cut], 0600)
		func() {
			defer func() { if recover() == nil { t.Fatalf("cut at %d of %d is read without complaint", cut, b.Len()) } }()
			LoadOctaveBin(f)
		}()
	}
}
''', "a file cut inside the name of a variable", "a truncated file is read as if it were complete")

S("s14-power-t", "C40", "neural_network", [("neural_network/basemlp64.go", "		PowerT:           .5,", "		PowerT:           .25,")],
'''package neuralnetwork
import ("testing";"math";"github.com/pa-m/sklearn/base";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	X, Y := mat.NewDense(6, 1, []float64{1, 2, 3, 4, 5, 6}), mat.NewDense(6, 1, []float64{1, 2, 3, 4, 5, 6})
	run := func(p float64) float64 {
		m := NewMLPRegressor([]int{}, "identity", "sgd", 0)
		m.LearningRate, m.MaxIter, m.Shuffle, m.RandomState = "invscaling", 9, false, base.NewSource(1)
		if p > 0 { m.PowerT = p }
		m.Fit(X, Y)
		return m.Loss
	}
	if a, b := run(0), run(.5); math.Abs(a-b) > 1e-12 { t.Fatalf("default power_t gives loss %g, .5 gives %g", a, b) }
}
''', "the invscaling schedule with the default exponent", "the documented default power_t=.5 is .25")

S("s15-knn-proba", "C18", "neighbors", [("neighbors/classification.go", "				if isWeightDistance {\n					sumweights = 0.\n				}\n", "")],
'''package neighbors
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	n := 200
	X, Y := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ { X.Set(i, 0, float64(i)*1.1); Y.Set(i, 0, float64(i%2)) }
	m := NewKNeighborsClassifier(3, "distance")
	m.Fit(X, Y)
	q, P := mat.NewDense(n, 1, nil), mat.NewDense(n, 2, nil)
	for i := 0; i < n; i++ { q.Set(i, 0, float64(i)+.3) }
	m.PredictProba(q, P)
	for i := 0; i < n; i++ { if s := P.At(i, 0)+P.At(i, 1); math.Abs(s-1) > 1e-9 { t.Fatalf("probabilities of query %d sum to %g", i, s) } }
}
''', "distance weights, probabilities, and more queries than workers", "the normalizer accumulates over the queries of a worker")

S("s16-bayes-scores", "C28", "linear_model", [("linear_model/bayes.go", "				logdetSigma = 0.\n", "")],
'''package linearmodel
import ("testing";"math";"gonum.org/v1/gonum/mat";"golang.org/x/exp/rand")
func TestZZDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	X, Y := mat.NewDense(30, 2, nil), mat.NewDense(30, 1, nil)
	for i := 0; i < 30; i++ { a, b := r.NormFloat64(), r.NormFloat64(); X.Set(i, 0, a); X.Set(i, 1, b); Y.Set(i, 0, a-2*b+r.NormFloat64()) }
	m := NewBayesianRidge()
	m.ComputeScore, m.Tol = true, 0
	m.NIter = 12
	m.Fit(X, Y)
	n := len(m.Scores)
	// the evidence converges
	if d := math.Abs(m.Scores[n-1]-m.Scores[n-2]); d > 1e-3 { t.Fatalf("scores %v do not converge", m.Scores) }
}
''', "ComputeScore and more than one iteration", "the log determinant accumulates over iterations, so the scores drift")

S("s17-binarizer-classes", "C08", "preprocessing", [("preprocessing/label.go", "	m.Classes = make([][]float64, y.Cols)\n	for j := 0; j < y.Cols; j++ {\n		cmap := make(map[float64]bool)\n", "	m.Classes = make([][]float64, y.Cols)\n	cmap := make(map[float64]bool)\n	for j := 0; j < y.Cols; j++ {\n")],
'''package preprocessing
import ("testing";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	m := NewLabelBinarizer(0, 1)
	m.Fit(nil, mat.NewDense(3, 2, []float64{1, 1, 2, 5, 3, 3}))
	if len(m.Classes[1]) != 3 { t.Fatalf("classes %v", m.Classes) }
}
''', "several label columns that share a value", "a class already seen in an earlier column is not registered for the later one")

S("s18-r2-weights", "C16", "metrics", [("metrics/regression.go", "	yTrueAvg.Scale(1./sampleWeightSum, yTrueAvg)\n\n	diff2.Apply", "	if sampleWeightSum > 1 {\n		yTrueAvg.Scale(1./sampleWeightSum, yTrueAvg)\n	}\n\n	diff2.Apply")],
'''package metrics
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	y, p := mat.NewDense(4, 1, []float64{3, -.5, 2, 7}), mat.NewDense(4, 1, []float64{2.5, 0, 2, 8})
	a := R2Score(y, p, mat.NewDense(4, 1, []float64{1, 2, 3, 4}), "").At(0, 0)
	b := R2Score(y, p, mat.NewDense(4, 1, []float64{.01, .02, .03, .04}), "").At(0, 0)
	if math.Abs(a-b) > 1e-9 { t.Fatalf("R2 %g with weights w, %g with w/100", a, b) }
}
''', "sample weights that sum to less than 1", "the weighted mean of the targets is not normalized")

S("s19-kmeans-row", "C39", "cluster", [("cluster/kmeans.go", "	base.Parallelize(runtime.NumCPU(), NSamples, func(th, start, end int) {\n		var row mat.Vector\n		var Xrv mat.RowViewer\n		var isrv bool\n		if Xrv, isrv = Xscaled.(mat.RowViewer); !isrv {\n			row = mat.NewVecDense(NFeatures, nil)\n		}\n",
 "	Xrv, isrv := Xscaled.(mat.RowViewer)\n	buf := mat.NewVecDense(NFeatures, nil)\n	base.Parallelize(runtime.NumCPU(), NSamples, func(th, start, end int) {\n		var row mat.Vector = buf\n")],
'''package cluster
import ("testing";"gonum.org/v1/gonum/mat")
type zzmat struct{ m *mat.Dense }
func (z zzmat) Dims() (int, int) { return z.m.Dims() }
func (z zzmat) At(i, j int) float64 { return z.m.At(i, j) }
func (z zzmat) T() mat.Matrix { return mat.Transpose{Matrix: z} }
func TestZZDemo(t *testing.T) {
	n := 4000
	X := mat.NewDense(n, 2, nil)
	for i := 0; i < n; i++ { X.Set(i, 0, float64(i%2)*10); X.Set(i, 1, float64(i%3)) }
	m := &KMeans{NClusters: 2}
	m.Fit(X, nil)
	Y := mat.NewDense(n, 1, nil)
	m.Predict(zzmat{X}, Y)
	for i := 2; i < n; i++ { if Y.At(i, 0) != Y.At(i%2, 0) { t.Fatalf("row %d in cluster %g, row %d in %g", i, Y.At(i, 0), i%2, Y.At(i%2, 0)) } }
}
''', "an input matrix without row views and several processors", "the workers share one row buffer", flags="-race")

S("s20-nb-prior", "C29", "naive_bayes", [("naive_bayes/naivebayes.go", "	if m.Priors == nil {\n		//# Empirical", "	if m.Priors == nil && floats.Sum(m.ClassPrior) == 0 {\n		//# Empirical")],
'''package naivebayes
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	m := NewGaussianNB(nil, 1e-9)
	cl := []float64{0, 1}
	m.PartialFit(mat.NewDense(4, 1, []float64{0, 1, 5, 6}), mat.NewDense(4, 1, []float64{0, 0, 1, 1}), cl, true, nil)
	m.PartialFit(mat.NewDense(4, 1, []float64{0, 1, 2, 3}), mat.NewDense(4, 1, []float64{0, 0, 0, 0}), nil, false, nil)
	if math.Abs(m.ClassPrior[0]-.75) > 1e-9 { t.Fatalf("prior %v after 6 of 8 samples of class 0", m.ClassPrior) }
}
''', "a second batch with other class proportions", "the empirical class priors stay those of the first batch")

S("s21-gp-outputs", "C34", "gaussian_process", [("gaussian_process/gpr.go", "		lldims.SetVec(i, -.5*lldims.AtVec(i)-sub1-sub2)\n", "		lldims.SetVec(i, -.5*lldims.AtVec(i))\n"), ("gaussian_process/gpr.go", "	lml = mat.Sum(lldims)\n", "	lml = mat.Sum(lldims) - sub1 - sub2\n")],
'''package gaussianprocess
import ("testing";"math";"github.com/pa-m/sklearn/gaussian_process/kernels";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	X := mat.NewDense(4, 1, []float64{0, 1, 2.5, 4})
	lml := func(cols int) float64 {
		Y := mat.NewDense(4, cols, nil)
		for i := 0; i < 4; i++ { for j := 0; j < cols; j++ { Y.Set(i, j, float64(i)) } }
		m := NewRegressor(&kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{.1, 10}}})
		m.Fit(X, Y)
		v, _ := m.LogMarginalLikelihood(mat.NewDense(1, 1, []float64{.3}), false)
		return v
	}
	if a, b := lml(1), lml(3); math.Abs(3*a-b) > 1e-9*math.Abs(b) { t.Fatalf("likelihood %g of one output, %g of three equal ones", a, b) }
}
''', "more than one output", "the normalization term is subtracted once instead of once per output")
