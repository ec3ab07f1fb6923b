import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only: seed(sid, *a, **k)

S("s22-roc-zero-weight", "C15", "metrics", [("metrics/ranking.go", "			if sampleWeight != nil {\n				w = sampleWeight[i3]\n			}\n\n			if tp {", "			if sampleWeight != nil && sampleWeight[i3] != 0 {\n				w = sampleWeight[i3]\n			}\n\n			if tp {")],
'''package metrics
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	y := mat.NewDense(4, 1, []float64{1, 0, 1, 0})
	s := mat.NewDense(4, 1, []float64{.9, .8, .4, .1})
	fpr, tpr, _ := ROCCurve(y, s, 1, []float64{1, 0, 1, 1})
	if a := AUC(fpr, tpr); math.Abs(a-1) > 1e-12 { t.Fatalf("AUC %g, want 1: the misranked sample weighs nothing", a) }
}
''', "a sample of weight exactly 0", "a sample without weight counts with the weight of the sample before it")

S("s23-onehot-64", "C08", "preprocessing", [("preprocessing/data.go", "			cmap[val] = true\n", "			if len(cmap) < 64 {\n				cmap[val] = true\n			}\n")],
'''package preprocessing
import ("testing";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	X := mat.NewDense(70, 1, nil)
	for i := 0; i < 70; i++ { X.Set(i, 0, float64(i)) }
	T, _ := NewOneHotEncoder().FitTransform(X, nil)
	r, c := T.Dims()
	if r != 70 || c != 70 { t.Fatalf("%d x %d, want 70 x 70", r, c) }
	for i := 0; i < 70; i++ { if T.At(i, i) != 1 { t.Fatalf("row %d", i) } }
}
''', "a categorical column with more than 64 values", "the values beyond the 64th are treated as never seen")

S("s24-enet-path-positive", "C25", "linear_model", [("linear_model/coordinatedescent.go", "			m.Positive = positive\n", "			m.Positive = positive && ialpha < 16\n")],
'''package linearmodel
import ("testing";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	X := mat.NewDense(6, 1, []float64{-3, -2, -1, 1, 2, 3})
	Y := mat.NewDense(6, 1, []float64{3, 2, 1, -1, -2, -3})
	al := make([]float64, 24)
	for i := range al { al[i] = 1 / float64(i+1) }
	_, coefs, _, _ := EnetPath(X, Y, .5, 1e-6, 24, &al, false, true)
	for i, c := range coefs { if c.At(0, 0) < 0 { t.Fatalf("coefficient %d of a positive path is %g", i, c.At(0, 0)) } }
}
''', "a path with positive coefficients over more than 16 penalties", "later points of the path have negative coefficients")

S("s25-svm-cache-key", "C31", "svm", [("svm/cache.go", "	KcacheNDiag := map[[2]int]*KcacheEntry{}", "	KcacheNDiag := map[int]*KcacheEntry{}"),
 ("svm/cache.go", "		if e, ok := KcacheNDiag[[2]int{i, j}]; ok {", "		key := i<<6 + j\n		if e, ok := KcacheNDiag[key]; ok {"),
 ("svm/cache.go", "			var old [2]int\n", "			var old int\n"), ("svm/cache.go", "		KcacheNDiag[[2]int{i, j}] = e", "		KcacheNDiag[key] = e")],
'''package svm
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	n := 100
	X := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ { X.Set(i, 0, math.Sin(float64(i))) }
	f := func(a, b []float64) float64 { return a[0]*b[0] + a[0] + b[0] }
	K := cachedKernel(X, 1, f)
	for i := 0; i < n; i++ { for j := 0; j < n; j++ {
		if w := f(X.RawRowView(i), X.RawRowView(j)); math.Abs(K(i, j)-w) > 1e-12 { t.Fatalf("kernel of %d and %d is %g, want %g", i, j, K(i, j), w) }
	} }
}
''', "more than 64 training samples", "the kernel of one pair of samples is taken from the cache for another pair")

S("s26-pipeline-outputs", "C23", "pipeline", [("pipeline/pipeline.go", "	_, p.NOutputs = Y.Dims()\n	Xtmp, Ytmp := X, Y", "	if _, no := Y.Dims(); no > p.NOutputs {\n		p.NOutputs = no\n	}\n	Xtmp, Ytmp := X, Y")],
'''package pipeline
import ("testing";pp "github.com/pa-m/sklearn/preprocessing";lm "github.com/pa-m/sklearn/linear_model";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	X := mat.NewDense(6, 1, []float64{1, 2, 3, 4, 5, 6})
	Y2 := mat.NewDense(6, 2, []float64{1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7})
	Y1 := mat.NewDense(6, 1, []float64{1, 2, 3, 4, 5, 6})
	p := NewPipeline(NamedStep{"s", pp.NewStandardScaler()}, NamedStep{"lr", lm.NewLinearRegression()})
	p.Fit(X, Y2)
	p.Fit(X, Y1)
	if n := p.GetNOutputs(); n != 1 { t.Fatalf("%d outputs after fitting 1", n) }
	P := p.Predict(X, nil)
	if _, c := P.Dims(); c != 1 { t.Fatalf("%d columns predicted", c) }
}
''', "a pipeline fitted again with fewer outputs", "it predicts as many columns as the earlier fit had")

S("s27-kmeans-shared", "C42", "cluster", [("cluster/kmeans.go", "	m.Centroids = mat.NewDense(m.NClusters, NFeatures, nil)\n", "	if m.Centroids == nil || m.Centroids.RawMatrix().Rows != m.NClusters || m.Centroids.RawMatrix().Cols != NFeatures {\n		m.Centroids = mat.NewDense(m.NClusters, NFeatures, nil)\n	}\n")],
'''package cluster
import ("testing";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	m := &KMeans{NClusters: 2, NJobs: 1}
	A := mat.NewDense(4, 1, []float64{0, 1, 10, 11})
	m.Fit(A, nil)
	k := m.PredicterClone().(*KMeans)
	before := mat.DenseCopyOf(k.Centroids)
	m.Fit(mat.NewDense(4, 1, []float64{100, 101, 500, 501}), nil)
	if !mat.Equal(before, k.Centroids) { t.Fatalf("centroids of the clone were %v, now %v", before.RawMatrix().Data, k.Centroids.RawMatrix().Data) }
}
''', "a fitted k-means is cloned and then fitted again on data of the same width", "the clone's centroids change")
