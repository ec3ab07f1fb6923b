// C26: logistic regression minimizes the penalized cross entropy and predicts from its coefficients.
package c26

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	lm "github.com/pa-m/sklearn/linear_model"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

type data struct {
	X, Y    *mat.Dense
	classes []float64 // of the single target column; nil for one-hot targets
	T       *mat.Dense
	binary  bool // one sigmoid output
}

func gen(c *vk.C, label string, p int) data {
	var d data
	n := c.Size(label+"n", 2, 14, 60)
	d.X = c.Mat(label+"X", n, p, c.Pick(label+"kind", vk.Grid, vk.Unif, vk.Gauss))
	k := c.SizeTo(label+"classes", 2, 4, 9)
	r := c.Rnd(label + "labels")
	idx := make([]int, n)
	for i := range idx {
		idx[i] = r.Intn(k)
		if c.Bool(label + "sep") { // correlate with the first feature
			idx[i] = int(math.Abs(d.X.At(i, 0))) % k
		}
	}
	idx[0], idx[n-1] = 0, 1
	switch c.Pick(label+"coding", "values", "values", "01", "onehot") {
	case "01":
		d.binary = true
		d.classes = []float64{0, 1}
		d.Y = mat.NewDense(n, 1, nil)
		for i := range idx {
			idx[i] %= 2
			d.Y.Set(i, 0, float64(idx[i]))
		}
		d.T = d.Y
		return d
	case "onehot":
		d.Y = mat.NewDense(n, k, nil)
		for i, v := range idx {
			d.Y.Set(i, v, 1)
		}
		d.T = d.Y
		return d
	}
	step := c.PickF(label+"step", 1, .5, 10)
	off := c.PickF(label+"off", -3, 2, 100)
	vals := make([]float64, k)
	for i := range vals {
		vals[i] = off + step*float64(i*i+i)
	}
	if c.Bool(label + "small") { // values around 0 and 1
		for i := range vals {
			vals[i] = float64(i - 1)
			if k == 2 {
				vals[i] = float64(2*i - 1)
			}
		}
	}
	d.Y = mat.NewDense(n, 1, nil)
	for i, v := range idx {
		d.Y.Set(i, 0, vals[v])
	}
	d.classes = vk.Uniq(vk.Col(d.Y, 0))
	d.T = mat.NewDense(n, len(d.classes), nil)
	for i := 0; i < n; i++ {
		for j, v := range d.classes {
			if v == d.Y.At(i, 0) {
				d.T.Set(i, j, 1)
			}
		}
	}
	return d
}

// linear returns X*coef+intercept.
func linear(X mat.Matrix, m *lm.LogisticRegression) *mat.Dense {
	n, p := X.Dims()
	return vk.Apply(mat.NewDense(n, m.Coef.Cols, nil), func(i, k int, _ float64) float64 {
		z := m.Intercept[k]
		for j := 0; j < p; j++ {
			z += X.At(i, j) * m.Coef.Data[j*m.Coef.Stride+k]
		}
		return z
	})
}

func probas(Z *mat.Dense, binary bool) *mat.Dense {
	n, k := Z.Dims()
	P := mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		if binary {
			P.Set(i, 0, 1/(1+math.Exp(-Z.At(i, 0))))
			continue
		}
		mx, s := math.Inf(-1), 0.
		for j := 0; j < k; j++ {
			mx = math.Max(mx, Z.At(i, j))
		}
		for j := 0; j < k; j++ {
			s += math.Exp(Z.At(i, j) - mx)
		}
		for j := 0; j < k; j++ {
			P.Set(i, j, math.Exp(Z.At(i, j)-mx)/s)
		}
	}
	return P
}

// objective is the mean cross entropy plus alpha/2n the squared coefficients.
func objective(d data, m *lm.LogisticRegression) float64 {
	Z := linear(d.X, m)
	n, k := Z.Dims()
	s := 0.
	for i := 0; i < n; i++ {
		if d.binary {
			z := Z.At(i, 0)
			s += math.Max(z, 0) - z*d.T.At(i, 0) + math.Log1p(math.Exp(-math.Abs(z)))
			continue
		}
		mx, e := math.Inf(-1), 0.
		for j := 0; j < k; j++ {
			mx = math.Max(mx, Z.At(i, j))
		}
		for j := 0; j < k; j++ {
			e += math.Exp(Z.At(i, j) - mx)
			s -= d.T.At(i, j) * Z.At(i, j)
		}
		s += mx + math.Log(e)
	}
	for _, v := range m.Coef.Data {
		s += m.Alpha / 2 * v * v
	}
	return s / float64(n)
}

func check(c *vk.C, m *lm.LogisticRegression, d data, X, Y *mat.Dense) {
	n, _ := X.Dims()
	Z := linear(X, m)
	P := probas(Z, d.binary)
	_, k := P.Dims()
	if !m.IsClassifier() {
		c.Fatalf("not a classifier")
	}
	_, o := d.Y.Dims()
	if m.GetNOutputs() != o {
		c.Fatalf("GetNOutputs %d, not %d", m.GetNOutputs(), o)
	}
	lx, dp := c.Lay("PX", X, true), c.Dst("proba", n, k)
	c.EqDst("PredictProbas", m.PredictProbas(lx.M, dp.M), dp, P, 1e-9, 1e-12)
	dy := c.Dst("pred", n, o)
	got := m.Predict(lx.M, dy.M)
	c.Unchanged("Predict", lx)
	c.EqDst("Predict", got, dy, got, 0, 0)
	hits := 0
	for i := 0; i < n; i++ {
		best, second := 0, math.Inf(-1)
		for j := 1; j < k; j++ {
			if P.At(i, j) > P.At(i, best) {
				best = j
			}
		}
		for j := 0; j < k; j++ {
			if j != best {
				second = math.Max(second, P.At(i, j))
			}
		}
		if d.binary {
			best, second = 0, 1-P.At(i, 0)
			if P.At(i, 0) > .5 {
				best = 1
			}
		}
		clear := math.Abs(P.At(i, best%k)-second) > 1e-9
		if d.classes == nil {
			for j := 0; j < k && clear; j++ {
				if want := map[bool]float64{true: 1}[j == best]; got.At(i, j) != want {
					c.Fatalf("row %d: prediction %v for probabilities %v", i, vk.Row(got, i), vk.Row(P, i))
				}
			}
		} else if clear && got.At(i, 0) != d.classes[best] {
			c.Fatalf("row %d: class %g for probabilities %v of %v", i, got.At(i, 0), vk.Row(P, i), d.classes)
		}
		hit := true
		for j := 0; j < o; j++ {
			hit = hit && got.At(i, j) == Y.At(i, j)
		}
		if hit {
			hits++
		}
	}
	ly := c.Lay("PY", Y, true)
	c.EqF("Score", m.Score(lx.M, ly.M), float64(hits)/float64(n), 1e-12, 0)
	c.Unchanged("Score", lx, ly)
}

func TestLogisticRegression(t *testing.T) {
	vk.Prop(t, 1500, "two to four classes (0/1, any values, one-hot), any penalty, stopping rule, seed, storage, refits and clones; non-trivial: at least 3 classes or one-hot targets", func(c *vk.C) {
		p := c.SizeTo("p", 1, 4, 9)
		d := gen(c, "", p)
		m := lm.NewLogisticRegression()
		alpha := c.PickF("alpha", .001, .01, .1, 1, 5)
		m.Alpha = alpha
		tight := c.Bool("tight")
		if tight {
			m.Tol, m.MaxIter = 1e-13, 4000
		} else {
			m.MaxIter = c.PickI("maxiter", 1, 2, 3, 5, 10, 30, 200)
			if m.MaxIter > 30 && c.Bool("nopenalty") {
				m.Alpha = 0
			}
		}
		seed := c.Seed("seed")
		state := c.Pick("state", "source", "locked", "nil")
		mkState := func() base.RandomState {
			switch state {
			case "source":
				return base.NewSource(seed)
			case "locked":
				return base.NewLockedSource(seed)
			}
			return nil
		}
		m.RandomState = mkState()
		if c.Bool("refit") {
			d2 := gen(c, "D", c.SizeTo("p2", 1, 4, 9))
			m.Fit(d2.X, d2.Y)
			if c.Bool("clone") {
				m = m.PredicterClone().(*lm.LogisticRegression)
			}
			m.RandomState = mkState()
		}
		if state != "nil" && c.Bool("cloneFirst") { // what the clone draws is not taken from the original's sequence
			cl := m.PredicterClone()
			defer func(m *lm.LogisticRegression) {
				cl.Fit(d.X, d.Y)
				c.EqS("coefficients of an earlier clone", cl.(*lm.LogisticRegression).Coef.Data, m.Coef.Data, 1e-12, 1e-15)
			}(m)
		}
		lx, ly := c.Lay("X", d.X, true), c.Lay("Y", d.Y, true)
		c.Mark(!d.binary, "alpha=%g maxiter=%d X=%s Y=%s", m.Alpha, m.MaxIter, vk.M(d.X), vk.M(d.Y))
		if r := m.Fit(lx.M, ly.M); r != base.Fiter(m) {
			c.Fatalf("Fit returns something else")
		}
		c.Unchanged("Fit", lx, ly)
		_, k := d.T.Dims()
		if m.Coef.Rows != p || m.Coef.Cols != k || len(m.Intercept) != k {
			c.Fatalf("coefficients %dx%d, %d intercepts; %dx%d wanted", m.Coef.Rows, m.Coef.Cols, len(m.Intercept), p, k)
		}
		if m.Alpha > 0 {
			J := objective(d, m)
			c.EqF("Loss", m.Loss, J, 1e-7, 1e-9)
			if len(m.LossCurve) == 0 {
				c.Fatalf("empty LossCurve")
			}
			best := math.Inf(1)
			for _, v := range m.LossCurve {
				best = math.Min(best, v)
			}
			c.EqF("BestLoss", m.BestLoss, best, 0, 0)
			c.EqF("Loss", m.Loss, best, 1e-9, 0)
		}
		if tight {
			n, _ := d.X.Dims()
			P := probas(linear(d.X, m), d.binary)
			for o := 0; o < k; o++ {
				gi := 0.
				xs := 0.
				for i := 0; i < n; i++ {
					gi += P.At(i, o) - d.T.At(i, o)
				}
				if math.Abs(gi)/float64(n) > 1e-4 {
					c.Fatalf("slope %g along intercept %d after convergence", gi/float64(n), o)
				}
				for j := 0; j < p; j++ {
					g := alpha * m.Coef.Data[j*m.Coef.Stride+o]
					xs = 0
					for i := 0; i < n; i++ {
						g += d.X.At(i, j) * (P.At(i, o) - d.T.At(i, o))
						xs = math.Max(xs, math.Abs(d.X.At(i, j)))
					}
					if math.Abs(g)/float64(n) > 1e-4*(1+xs) {
						c.Fatalf("slope %g along coefficient (%d,%d) after convergence", g/float64(n), j, o)
					}
				}
			}
		}
		keep := append([]float64(nil), m.Coef.Data...)
		keepI := append([]float64(nil), m.Intercept...)
		if c.Bool("cloneMovesOn") {
			cl := m.PredicterClone()
			d3 := gen(c, "E", p)
			curve := append([]float64(nil), m.LossCurve...)
			cl.Fit(d3.X, d3.Y)
			c.EqS("LossCurve after the clone's fit", m.LossCurve, curve, 0, 0)
			c.EqS("coefficients after the clone's fit", m.Coef.Data, keep, 0, 0)
			c.EqS("intercepts after the clone's fit", m.Intercept, keepI, 0, 0)
		}
		check(c, m, d, d.X, d.Y)
		q := c.Size("q", 1, 6, 20)
		Q := c.Mat("Q", q, p, c.Pick("qkind", vk.Unif, vk.Scaled))
		n, _ := d.Y.Dims()
		_, o := d.Y.Dims()
		QY := vk.Apply(mat.NewDense(q, o, nil), func(i, j int, _ float64) float64 { return d.Y.At(i%n, j) })
		if vk.Finite(linear(Q, m)) {
			check(c, m, d, Q, QY)
		}
		if state != "nil" && c.PickI("patience", 0, 0, 1) == 1 {
			run := func(patience int) []float64 {
				m := lm.NewLogisticRegression()
				m.Alpha, m.Tol, m.MaxIter, m.RandomState, m.NIterNoChange = alpha, 1e10, 200, mkState(), patience
				m.Fit(d.X, d.Y)
				return m.LossCurve
			}
			short, long := run(1), run(80)
			if len(long) > 70 && len(short) == len(long) {
				c.Fatalf("%d evaluations with NIterNoChange 1 as with 80", len(long))
			}
			if len(short) > len(long) {
				c.Fatalf("%d evaluations with NIterNoChange 1, %d with 80", len(short), len(long))
			}
			c.EqS("losses up to the earlier stop", short, long[:len(short)], 1e-9, 1e-12)
		}
		if state != "nil" && c.Bool("again") {
			m2 := lm.NewLogisticRegression()
			m2.Alpha, m2.Tol, m2.MaxIter, m2.RandomState = m.Alpha, m.Tol, m.MaxIter, mkState()
			m2.Fit(d.X, d.Y)
			c.EqS("coefficients of the same seed", m2.Coef.Data, keep, 1e-12, 1e-15)
			c.EqS("intercepts of the same seed", m2.Intercept, keepI, 1e-12, 1e-15)
		}
	})
}
