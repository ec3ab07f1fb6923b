// C22: cross-validation and grid search report what fitting clones split by split by hand gives.
package c22

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	modelselection "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// probe predicts an affine function of a digest of its training rows (order matters).
type probe struct {
	Alpha   float64
	Shift   int
	Mode    string
	Flag    bool
	Any     interface{}
	digest  []float64
	outputs int
	fits    int
	delay   time.Duration
}

func (m *probe) Fit(X, Y mat.Matrix) base.Fiter {
	n, p := X.Dims()
	ny, o := Y.Dims()
	if ny != n {
		panic("rows differ")
	}
	m.fits++
	m.outputs = o
	m.digest = make([]float64, o)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			m.digest[0] += X.At(i, j) * float64(1+(i*7+j)%5)
		}
		for j := range m.digest {
			m.digest[j] += Y.At(i, j) * float64(1+i%3)
		}
	}
	if m.delay > 0 {
		time.Sleep(m.delay)
	}
	return m
}
func (m *probe) GetNOutputs() int { return m.outputs }
func (m *probe) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	n, p := X.Dims()
	out := mat.NewDense(n, m.outputs, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < m.outputs; o++ {
			v := m.digest[o]*m.Alpha + float64(m.Shift)
			if m.Mode == "sum" {
				for j := 0; j < p; j++ {
					v += X.At(i, j) * float64(j+o+1)
				}
			}
			if m.Flag {
				v = -v
			}
			if f, ok := m.Any.(float64); ok {
				v += f
			}
			out.Set(i, o, v)
		}
	}
	return base.FromDense(Y, out)
}
func (m *probe) Score(X, Y mat.Matrix) float64 { return scorer(Y, m.Predict(X, nil)) }
func (m *probe) IsClassifier() bool            { return m.Flag }
func (m *probe) PredicterClone() base.Predicter {
	cl := *m
	return &cl
}

// scorer is not symmetric and depends on the row order.
func scorer(Ytrue, Ypred mat.Matrix) float64 {
	n, o := Ytrue.Dims()
	if a, b := Ypred.Dims(); a != n || b != o {
		panic(fmt.Sprintf("scorer got %dx%d and %dx%d", n, o, a, b))
	}
	s := 0.
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			d := Ytrue.At(i, j) - Ypred.At(i, j)
			s += d*d*float64(1+i%2) + .125*Ytrue.At(i, j)
		}
	}
	return s / float64(n)
}

// lists is a splitter with fixed index lists: rows may be left out, and test sets differ in size.
type lists struct{ sp []modelselection.Split }

func (l *lists) Split(X, Y *mat.Dense) chan modelselection.Split {
	ch := make(chan modelselection.Split)
	go func() {
		for _, s := range l.sp {
			ch <- s
		}
		close(ch)
	}()
	return ch
}
func (l *lists) GetNSplits(X, Y *mat.Dense) int         { return len(l.sp) }
func (l *lists) SplitterClone() modelselection.Splitter { return l }

type world struct {
	X, Y, Q *mat.Dense
	n, p, o int
	sp      []modelselection.Split
	cv      modelselection.Splitter
}

func gen(c *vk.C) *world {
	w := &world{n: c.Size("n", 8, 16, 70), p: c.Int("p", 1, 3), o: c.Int("o", 1, 3)}
	kind := c.Pick("kind", vk.Grid, vk.Unif, vk.Gauss)
	w.X, w.Y = c.Mat("X", w.n, w.p, kind), c.Mat("Y", w.n, w.o, kind)
	w.Q = c.Mat("Q", 3, w.p, kind)
	if c.Bool("kfold") {
		kf := &modelselection.KFold{NSplits: c.Int("k", 1, 9), Shuffle: c.Bool("shuffle"), RandomState: base.NewSource(c.Seed("seed"))}
		if c.Bool("locked") {
			kf.RandomState = base.NewLockedSource(c.Seed("seed2"))
		}
		if w.n < kf.NSplits || kf.NSplits == 1 {
			kf.NSplits = 2
		}
		for s := range kf.SplitterClone().Split(w.X, w.Y) {
			w.sp = append(w.sp, s)
		}
		w.cv = kf
	} else {
		r := c.Rnd("lists")
		l := &lists{}
		for k := c.Int("k", 1, 12); k > 0; k-- {
			ind := r.Perm(w.n)
			a := 3 + r.Intn(w.n-4)
			b := a + 1 + r.Intn(w.n-a)
			l.sp = append(l.sp, modelselection.Split{TrainIndex: ind[:a], TestIndex: ind[a:b]})
		}
		w.cv, w.sp = l, l.sp
	}
	return w
}

// byHand fits and scores a clone on every split.
func (w *world) byHand(est base.Predicter) (scores []float64, fitted []base.Predicter) {
	for _, s := range w.sp {
		e := est.PredicterClone()
		e.Fit(vk.Rows(w.X, s.TrainIndex...), vk.Rows(w.Y, s.TrainIndex...))
		P := mat.NewDense(len(s.TestIndex), w.o, nil)
		e.Predict(vk.Rows(w.X, s.TestIndex...), P)
		scores = append(scores, scorer(vk.Rows(w.Y, s.TestIndex...), P))
		fitted = append(fitted, e)
	}
	return
}

func (w *world) predict(e base.Predicter) *mat.Dense {
	P := mat.NewDense(3, w.o, nil)
	e.Predict(w.Q, P)
	return P
}

func estimator(c *vk.C) (base.Predicter, string) {
	switch k := c.Pick("est", "probe", "probe", "knn", "knc", "linear"); k {
	case "knn":
		m := neighbors.NewKNeighborsRegressor(c.Int("K", 1, 3), c.Pick("w", "uniform", "distance")).(*neighbors.KNeighborsRegressor)
		m.Algorithm = c.Pick("algo", "auto", "brute", "kd_tree")
		return m, k
	case "knc":
		return neighbors.NewKNeighborsClassifier(c.Int("K", 1, 3), "uniform"), k
	case "linear":
		m := linearmodel.NewLinearRegression()
		m.FitIntercept = c.Bool("icpt")
		return m, k
	}
	return &probe{Alpha: c.Float("alpha", -2, 2), Mode: c.Pick("mode", "", "sum")}, "probe"
}

func TestCrossValidate(t *testing.T) {
	vk.Prop(t, 1200, "probe, nearest-neighbour and linear estimators; seeded KFold or arbitrary index lists (also leaving rows out); any number of jobs; non-trivial: at least 2 splits", func(c *vk.C) {
		w := gen(c)
		est, name := estimator(c)
		if name == "linear" {
			w.X = c.Mat("XL", w.n, w.p, vk.Gauss)
			for _, s := range w.sp {
				if len(s.TrainIndex) < w.p+2 {
					c.Skip("too few rows")
				}
			}
		}
		jobs := c.Int("jobs", -1, 14)
		if p, ok := est.(*probe); ok && c.Int("slow", 0, 20) == 0 {
			p.delay = 200 * time.Microsecond
		}
		c.Mark(len(w.sp) > 1, "%s jobs=%d splits=%d X=%s", name, jobs, len(w.sp), vk.M(w.X))
		want, fitted := w.byHand(est)
		lx, ly := c.Lay("X", w.X, false), c.Lay("Y", w.Y, false)
		score, slow := scorer, time.Duration(0)
		if c.Int("slow scorer", 0, 20) == 0 {
			slow = 200 * time.Microsecond
			score = func(a, b mat.Matrix) float64 { time.Sleep(slow); return scorer(a, b) }
		}
		res := modelselection.CrossValidate(est, lx.M.(*mat.Dense), ly.M.(*mat.Dense), nil, score, w.cv, jobs)
		for i := range res.ScoreTime {
			if res.ScoreTime[i] < slow {
				c.Fatalf("score time %v of split %d is below the %v the scorer sleeps", res.ScoreTime[i], i, slow)
			}
		}
		c.Unchanged("CrossValidate", lx, ly)
		c.EqS("test scores", res.TestScore, want, 1e-7, 1e-7)
		if len(res.Estimator) != len(want) || len(res.FitTime) != len(want) || len(res.ScoreTime) != len(want) {
			c.Fatalf("%d estimators, %d fit times, %d score times for %d splits", len(res.Estimator), len(res.FitTime), len(res.ScoreTime), len(want))
		}
		for i := range want {
			c.Eq(fmt.Sprintf("predictions of the estimator of split %d", i), w.predict(res.Estimator[i]), w.predict(fitted[i]), 1e-6, 1e-6)
		}
		if p, ok := est.(*probe); ok {
			if p.fits != 0 {
				c.Fatalf("the given estimator itself was fitted")
			}
			for i := range res.Estimator {
				if f := res.Estimator[i].(*probe).fits; f != 1 {
					c.Fatalf("estimator %d was fitted %d times", i, f)
				}
			}
			for i := range res.FitTime {
				if res.FitTime[i] < p.delay {
					c.Fatalf("fit time %v of split %d is below the %v the fit sleeps", res.FitTime[i], i, p.delay)
				}
			}
		}
		// sorting puts the highest score first and keeps the rows together
		type pair struct {
			s float64
			e base.Predicter
			f time.Duration
		}
		var before []pair
		for i := range want {
			res.FitTime[i] = time.Duration(i)
			before = append(before, pair{res.TestScore[i], res.Estimator[i], time.Duration(i)})
		}
		sort.Sort(res)
		for i := range want {
			if i > 0 && res.TestScore[i] > res.TestScore[i-1] {
				c.Fatalf("sorted scores %v", res.TestScore)
			}
			b := before[int(res.FitTime[i])]
			if b.s != res.TestScore[i] || b.e != res.Estimator[i] {
				c.Fatalf("sorting separates scores from their estimators")
			}
		}
	})
}

func TestDefaultSplitter(t *testing.T) {
	vk.Prop(t, 60, "no splitter given: three splits; non-trivial: all", func(c *vk.C) {
		n := c.Int("n", 6, 40)
		X, Y := c.Mat("X", n, 2, vk.Unif), c.Mat("Y", n, 1, vk.Unif)
		c.Mark(true, "%s", vk.M(X))
		res := modelselection.CrossValidate(&probe{}, X, Y, nil, scorer, nil, c.Int("jobs", 0, 5))
		if len(res.TestScore) != 3 || len(res.Estimator) != 3 {
			c.Fatalf("%d scores", len(res.TestScore))
		}
		for _, e := range res.Estimator {
			if e.(*probe).fits != 1 {
				c.Fatalf("estimator not fitted")
			}
		}
	})
}

func key(m map[string]interface{}) string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%s=%T:%v;", k, m[k], m[k])
	}
	return s
}

func product(grid map[string][]interface{}) map[string]int {
	out := map[string]int{}
	ks := []string{}
	for k := range grid {
		ks = append(ks, k)
	}
	var rec func(i int, m map[string]interface{})
	rec = func(i int, m map[string]interface{}) {
		if i == len(ks) {
			out[key(m)]++
			return
		}
		for _, v := range grid[ks[i]] {
			m[ks[i]] = v
			rec(i+1, m)
		}
	}
	rec(0, map[string]interface{}{})
	return out
}

func TestParameterGrid(t *testing.T) {
	vk.Prop(t, 800, "grids of up to 4 parameters with up to 5 values, repeated values; non-trivial: at least 2 parameters of at least 2 values", func(c *vk.C) {
		grid := map[string][]interface{}{}
		big := 0
		for _, k := range []string{"a", "b", "Z", "c"}[:c.Int("params", 1, 4)] {
			nv := c.Int("values", 1, 5)
			for i := 0; i < nv; i++ {
				if c.Bool("string") {
					grid[k] = append(grid[k], c.Pick("s", "x", "y", "z"))
				} else {
					grid[k] = append(grid[k], c.Int("i", 0, 4))
				}
			}
			if nv > 1 {
				big++
			}
		}
		c.Mark(big > 1, "%v", grid)
		want := product(grid)
		got := map[string]int{}
		first := modelselection.ParameterGrid(grid)
		for _, m := range first {
			got[key(m)]++
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fatalf("got %v want %v", got, want)
		}
		again := modelselection.ParameterGrid(grid)
		for i := range first {
			if key(first[i]) != key(again[i]) {
				c.Fatalf("candidate order changes between calls")
			}
		}
		first[0]["a"] = "changed"
		for _, m := range first[1:] {
			if m["a"] == "changed" {
				c.Fatalf("candidates share a map")
			}
		}
	})
}

func TestGridSearch(t *testing.T) {
	vk.Prop(t, 900, "grids over float, int, string, bool, interface fields (names in any case, floats given as int, repeated values), probe and nearest-neighbour estimators, both directions, any jobs, refits; non-trivial: at least 3 candidates and 2 splits", func(c *vk.C) {
		w := gen(c)
		grid := map[string][]interface{}{}
		var est base.Predicter
		setp := func(e base.Predicter, k string, v interface{}) {
			f := func(x interface{}) float64 {
				switch v := x.(type) {
				case int:
					return float64(v)
				case float32:
					return float64(v)
				}
				return x.(float64)
			}
			switch m := e.(type) {
			case *probe:
				switch strings.ToLower(k) {
				case "alpha":
					m.Alpha = f(v)
				case "shift":
					m.Shift = v.(int)
				case "mode":
					m.Mode = v.(string)
				case "flag":
					m.Flag = v.(bool)
				case "any":
					m.Any = v
				}
			case *neighbors.KNeighborsRegressor:
				if strings.EqualFold(k, "K") {
					m.K = v.(int)
				} else {
					m.Weights = v
				}
			}
		}
		vals := func(k string, f func() interface{}) {
			for n := c.Int("values", 1, 4); n > 0; n-- {
				grid[k] = append(grid[k], f())
			}
		}
		knn := c.Int("knn", 0, 3) == 0
		if knn {
			est = neighbors.NewKNeighborsRegressor(1, "uniform")
			vals("K", func() interface{} { return c.Int("K", 1, 3) })
			if c.Bool("weights") {
				vals("Weights", func() interface{} { return c.Pick("w", "uniform", "distance") })
			}
		} else {
			est = &probe{Alpha: .5, Mode: c.Pick("mode0", "", "sum")}
			if c.Bool("a") {
				vals(c.Pick("name", "Alpha", "alpha", "ALPHA"), func() interface{} {
					if c.Bool("int") {
						return c.Int("ai", -2, 2)
					}
					if c.Int("float32", 0, 3) == 0 {
						return float32(c.PickF("af32", -1.5, .25, 1))
					}
					return c.PickF("af", -1, 0, .25, .5, 1)
				})
			}
			if c.Bool("s") {
				vals("Shift", func() interface{} { return c.Int("shift", -3, 3) })
			}
			if c.Bool("m") {
				vals("mode", func() interface{} { return c.Pick("mode", "", "sum", "else") })
			}
			if c.Bool("f") {
				vals("Flag", func() interface{} { return c.Bool("flag") })
			}
			if len(grid) == 0 || c.Bool("any") {
				vals("Any", func() interface{} { return c.PickF("any", 0, 1, 2) })
			}
		}
		want := product(grid)
		ncand := 0
		for _, v := range want {
			ncand += v
		}
		lower := c.Bool("lower")
		jobs := c.Int("jobs", -1, 12)
		c.Mark(ncand > 2 && len(w.sp) > 1, "grid=%v lower=%v jobs=%d splits=%d X=%s", grid, lower, jobs, len(w.sp), vk.M(w.X))
		gs := &modelselection.GridSearchCV{Estimator: est, ParamGrid: grid, Scorer: scorer, CV: w.cv, NJobs: jobs, LowerScoreIsBetter: lower, UseChannels: c.Bool("chan")}
		lx, ly := c.Lay("X", w.X, true), c.Lay("Y", w.Y, true)
		var m base.Predicter = gs
		if c.Bool("clone") {
			m = gs.PredicterClone()
			gs2 := m.(*modelselection.GridSearchCV)
			if c.Bool("fitorigin") {
				gs.Fit(c.Mat("D", w.n, w.p, vk.Unif), c.Mat("DY", w.n, w.o, vk.Unif))
			}
			gs = gs2
		}
		if c.Bool("fitother") { // scores of any size, another number of outputs
			gs.CV = &modelselection.KFold{NSplits: 3, RandomState: base.NewSource(1)}
			o2 := c.Int("o2", 1, 4)
			D, DY := c.Mat("D2", w.n, w.p, vk.Unif), c.Mat("DY2", w.n, o2, vk.Unif)
			if c.Bool("near") {
				DY.Scale(c.PickF("dscale", 1e-3, 1e3), DY)
			}
			gs.Fit(D, DY)
			gs.CV = w.cv
		}
		for pass := c.Int("passes", 1, 2); pass > 0; pass-- {
			gs.Fit(lx.M, ly.M)
		}
		c.Unchanged("Fit", lx, ly)
		if p, ok := est.(*probe); ok && (p.fits != 0 || p.Alpha != .5) {
			c.Fatalf("the given estimator was changed: %+v", p)
		}
		better := func(a, b float64) bool {
			if lower {
				return a < b
			}
			return a > b
		}
		scores := gs.CVResults["score"]
		if len(scores) != ncand {
			c.Fatalf("%d scores for %d candidates", len(scores), ncand)
		}
		got := map[string]int{}
		best := 0
		for i := range scores {
			params := map[string]interface{}{}
			for k := range grid {
				if len(gs.CVResults[k]) != ncand {
					c.Fatalf("%d values of %s for %d candidates", len(gs.CVResults[k]), k, ncand)
				}
				params[k] = gs.CVResults[k][i]
			}
			got[key(params)]++
			e := est.PredicterClone()
			for k, v := range params {
				setp(e, k, v)
			}
			fold, _ := w.byHand(e)
			mean := 0.
			for _, f := range fold {
				mean += f
			}
			mean /= float64(len(fold))
			c.EqF(fmt.Sprintf("score of candidate %s", key(params)), scores[i].(float64), mean, 1e-7, 1e-7)
			if better(scores[i].(float64), scores[best].(float64)) {
				best = i
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fatalf("candidates %v, not %v", got, want)
		}
		if gs.BestIndex != best || gs.BestScore != scores[best].(float64) {
			c.Fatalf("best index %d score %g, not %d score %v of %v", gs.BestIndex, gs.BestScore, best, scores[best], scores)
		}
		bp := map[string]interface{}{}
		for k := range grid {
			bp[k] = gs.CVResults[k][best]
		}
		if key(gs.BestParams) != key(bp) {
			c.Fatalf("best params %v, not %v", gs.BestParams, bp)
		}
		e := est.PredicterClone()
		for k, v := range bp {
			setp(e, k, v)
		}
		fold, fitted := w.byHand(e)
		bs := fold[0]
		for _, f := range fold {
			if better(f, bs) {
				bs = f
			}
		}
		P := w.predict(gs)
		ok := false
		for i, f := range fold {
			if vk.Close(f, bs, 1e-7, 1e-7) && vk.Diff(P, w.predict(fitted[i]), 1e-6, 1e-6) == "" {
				ok = true
			}
		}
		if !ok {
			c.Fatalf("predictions %s are not those of the best candidate's best fold", vk.M(P))
		}
		if gs.GetNOutputs() != w.o || gs.IsClassifier() != est.IsClassifier() {
			c.Fatalf("outputs %d classifier %v", gs.GetNOutputs(), gs.IsClassifier())
		}
		c.EqF("score", gs.Score(w.X, w.Y), gs.BestEstimator.Score(w.X, w.Y), 1e-12, 0)
		dst := c.Dst("P", 3, w.o)
		c.EqDst("Predict", gs.Predict(w.Q, dst.M), dst, P, 1e-9, 1e-9)
		if math.IsNaN(gs.BestScore) {
			c.Fatalf("NaN")
		}
	})
}
