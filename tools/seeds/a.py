import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from seed import seed
only = sys.argv[1:]
def S(sid, *a, **k):
    if not only or sid in only: seed(sid, *a, **k)

S("s01-parallel-tail", "C01", "base", [("base/parallel.go", "if end <= start {", "if end <= start+1 && th > 8 {")],
'''package base
import ("testing";"sync/atomic")
func TestZZDemo(t *testing.T) {
	for th := 2; th < 20; th++ {
		for n := 0; n < 60; n++ {
			h := make([]int32, n)
			Parallelize(th, n, func(_, a, b int) { for i := a; i < b; i++ { atomic.AddInt32(&h[i], 1) } })
			for i := range h { if h[i] != 1 { t.Fatalf("threads %d n %d: index %d visited %d times", th, n, i, h[i]) } }
		}
	}
}
''', "a worker count above 9 whose last part holds a single item", "the last item is never processed")

S("s02-adam-steps", "C04", "base", [("base/optimizers.go", "VtDen := 1. - math.Pow(s.Beta2, s.TimeStep)", "VtDen := 1. - math.Pow(s.Beta2, math.Min(s.TimeStep, 12))")],
'''package base
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	s := NewAdamOptimizer()
	m, v := 0., 0.
	for k := 1; k <= 30; k++ {
		g := mat.NewDense(1, 1, []float64{float64(k%5) - 1.5})
		u := mat.NewDense(1, 1, nil)
		s.GetUpdate(u, g)
		gg := g.At(0, 0)
		m = s.Beta1*m + (1-s.Beta1)*gg
		v = s.Beta2*v + (1-s.Beta2)*gg*gg
		want := -s.StepSize * m / (1 - math.Pow(s.Beta1, float64(k))) / (math.Sqrt(v/(1-math.Pow(s.Beta2, float64(k)))) + s.Epsilon)
		if math.Abs(u.At(0, 0)-want) > 1e-9 { t.Fatalf("step %d: %g want %g", k, u.At(0, 0), want) }
	}
}
''', "a history of more than 12 optimizer steps", "adam's second-moment bias correction stops after 12 steps")

S("s03-roc-ties", "C15", "metrics", [("metrics/ranking.go", "if ii == 0 || Yscore.At(descScoreIndices[ii], 0) < Yscore.At(descScoreIndices[ii-1], 0) {", "if ii == 0 || Yscore.At(descScoreIndices[ii], 0) < Yscore.At(descScoreIndices[0], 0) && ii > 6 || Yscore.At(descScoreIndices[ii], 0) < Yscore.At(descScoreIndices[ii-1], 0) {")],
'''package metrics
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	y := []float64{1, 0, 1, 0, 1, 0, 0, 1}
	s := []float64{.9, .8, .7, .6, .5, .5, .5, .5}
	num, den := 0., 0.
	for i := range y { for j := range y { if y[i] == 1 && y[j] == 0 { den++; if s[i] > s[j] { num++ } else if s[i] == s[j] { num += .5 } } } }
	fpr, tpr, thr := ROCCurve(mat.NewDense(8, 1, y), mat.NewDense(8, 1, s), 1, nil)
	for i := 1; i < len(thr); i++ { if thr[i] >= thr[i-1] { t.Fatalf("thresholds %v", thr) } }
	if a := AUC(fpr, tpr); math.Abs(a-num/den) > 1e-9 { t.Fatalf("auc %g want %g", a, num/den) }
}
''', "tied scores below the top score", "samples with equal scores are split over several curve points")

S("s04-seed-unlocked", "C03", "base", [("base/source.go", "	s.lk.Lock()\n	n = s.src.Uint64()\n	s.lk.Unlock()\n	return", "	s.lk.Lock()\n	src := s.src\n	s.lk.Unlock()\n	n = src.Uint64()\n	return")],
'''package base
import ("testing";"sync")
func TestZZDemo(t *testing.T) {
	s := NewLockedSource(3)
	var wg sync.WaitGroup
	out := make([][]uint64, 8)
	for g := 0; g < 8; g++ { wg.Add(1); go func(g int) { defer wg.Done(); for i := 0; i < 20000; i++ { out[g] = append(out[g], s.Uint64()) } }(g) }
	wg.Wait()
	seen := map[uint64]bool{}
	for g := range out { for _, v := range out[g] { if seen[v] { t.Fatalf("value %d handed out twice", v) }; seen[v] = true } }
	ref := NewSource(3)
	for i := 0; i < 160000; i++ { if v := ref.Uint64(); !seen[v] { t.Fatalf("value %d of the stream is lost", i) } }
}
''', "two goroutines drawing from the same source at the same time", "the generator state is advanced outside the lock: values are lost or handed out twice", flags="-race")

S("s05-impute-median", "C11", "preprocessing", [("preprocessing/imputation.go", "				sort.Float64s(tmp)\n", "				if len(tmp) < 2 || tmp[0] > tmp[len(tmp)-1] {\n					sort.Float64s(tmp)\n				}\n")],
'''package preprocessing
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	m := NewImputer(); m.Strategy = "median"
	X := mat.NewDense(6, 1, []float64{1, 9, 2, 8, 3, math.NaN()})
	m.Fit(X, nil)
	o, _ := m.Transform(X, nil)
	if o.At(5, 0) != 3 { t.Fatalf("median %g", o.At(5, 0)) }
}
''', "an unsorted column whose first value is not above its last", "the median is taken of an unsorted column (panics or is wrong)")

S("s06-mse-rows", "C13", "preprocessing", [("preprocessing/imputation.go", "			for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {", "			for jX, jXout := 0, 0; jXout < Xmat.Rows*Xoutmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xmat.Stride {")],
'''package preprocessing
import ("testing";"math";"gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
	big := mat.NewDense(4, 5, nil)
	big.Apply(func(i, j int, _ float64) float64 { if (i+j)%3 == 0 { return math.NaN() }; return float64(10*i + j) }, big)
	w := big.Slice(0, 4, 1, 3).(*mat.Dense)
	c := mat.DenseCopyOf(w)
	m := NewImputer(); m.Fit(c, nil)
	a, _ := m.Transform(c, nil)
	b, _ := m.Transform(w, nil)
	if !mat.Equal(a, b) { t.Fatalf("window: %v compact: %v", mat.Formatted(b), mat.Formatted(a)) }
}
''', "transforming a window of a larger matrix", "output rows are placed with the stride of the input, so windows come out wrong")
