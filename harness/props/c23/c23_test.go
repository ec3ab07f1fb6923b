// C23: a pipeline equals running its steps by hand.
package c23

import (
	"math"
	"strings"
	"testing"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// probe is an affine estimator whose state digests all it was fitted on; it predicts as many columns as its targets had.
type probe struct {
	clf     bool
	digest  []float64
	outputs int
}

func (m *probe) Fit(X, Y mat.Matrix) base.Fiter {
	n, p := X.Dims()
	_, o := Y.Dims()
	m.outputs = o
	m.digest = make([]float64, o)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			m.digest[0] += X.At(i, j) * float64(1+(i*7+j)%5)
		}
		for j := range m.digest {
			m.digest[j] += Y.At(i, j) * float64(1+i%3)
		}
	}
	return m
}
func (m *probe) GetNOutputs() int { return m.outputs }
func (m *probe) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	n, p := X.Dims()
	out := mat.NewDense(n, m.outputs, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < m.outputs; o++ {
			v := m.digest[o]
			for j := 0; j < p; j++ {
				v += X.At(i, j) * float64((i+j*3+o)%5-2)
			}
			out.Set(i, o, v)
		}
	}
	return base.FromDense(Y, out)
}
func (m *probe) Score(X, Y mat.Matrix) float64 {
	P := m.Predict(X, nil)
	s := 0.
	n, o := Y.Dims()
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			s += math.Abs(2*P.At(i, j)-Y.At(i, j)) * float64(1+i%3)
		}
	}
	return s
}
func (m *probe) IsClassifier() bool { return m.clf }
func (m *probe) PredicterClone() base.Predicter {
	cl := *m
	return &cl
}

func step(c *vk.C, name string) base.Transformer {
	switch name {
	case "standard":
		return pp.NewStandardScaler()
	case "minmax":
		return pp.NewMinMaxScaler([]float64{-1, 2})
	case "maxabs":
		return pp.NewMaxAbsScaler()
	case "robust":
		return pp.NewDefaultRobustScaler()
	case "normalizer":
		return pp.NewNormalizer()
	case "binarizer":
		b := pp.NewBinarizer()
		b.Threshold = .25
		return b
	case "poly":
		return pp.NewPolynomialFeatures(2)
	case "pca":
		m := pp.NewPCA()
		m.NComponents = 1
		return m
	case "power":
		return pp.NewPowerTransformer()
	case "kbins":
		return pp.NewKBinsDiscretizer(3)
	case "quantile":
		return pp.NewQuantileTransformer(5, "uniform", nil)
	case "onehot":
		return pp.NewOneHotEncoder()
	case "imputer":
		return pp.NewImputer()
	case "function":
		return pp.NewFunctionTransformer(func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			return vk.Apply(X, func(_, j int, v float64) float64 { return v*2 + float64(j) }), Y
		}, nil)
	case "functionY":
		return pp.NewFunctionTransformer(func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			return X, vk.Apply(Y, func(_, _ int, v float64) float64 { return v*4 + 1 })
		}, func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			return X, vk.Apply(Y, func(_, _ int, v float64) float64 { return (v - 1) / 4 })
		})
	case "labelbinarizer":
		return pp.NewLabelBinarizer(0, 1)
	case "labelencoder":
		return pp.NewLabelEncoder()
	}
	return pp.NewShuffler()
}

func inverseY(t base.Transformer, name string, Y *mat.Dense) *mat.Dense {
	switch name {
	case "labelbinarizer", "labelencoder", "functionY", "shuffler":
		_, Y = t.(pp.InverseTransformer).InverseTransform(nil, Y)
	}
	return Y
}

func TestPipeline(t *testing.T) {
	all := []string{"standard", "minmax", "maxabs", "robust", "normalizer", "binarizer", "poly", "pca", "power", "kbins", "quantile", "onehot", "imputer", "function", "functionY", "labelbinarizer", "labelencoder", "shuffler"}
	vk.Prop(t, 3500, "0 to 9 transformers (scalers, encoders, target encoders, row shuffler, user functions) before a probe, nearest-neighbour or linear estimator; clones, refits, any storage and destination; non-trivial: at least 2 transformers", func(c *vk.C) {
		n, p, o := c.Size("n", 6, 14, 50), c.Int("p", 1, 4), c.Int("o", 1, 3)
		X, Y := c.Mat("X", n, p, c.Pick("xkind", vk.Grid, vk.Unif, vk.Gauss)), c.Mat("Y", n, o, vk.Grid)
		var names []string
		var steps []base.Transformer
		power, shuffled, labels, wide := false, false, false, false
		for k := c.SizeTo("steps", 0, 4, 9); k > 0; k-- {
			nm := c.Pick("step", all...)
			if nm == "power" && power || (nm == "labelencoder" || nm == "labelbinarizer") && labels || nm == "shuffler" && shuffled {
				continue
			}
			if nm == "poly" && wide || nm == "onehot" && wide { // keep the width bounded
				continue
			}
			wide = wide || nm == "poly" || nm == "onehot"
			power = power || nm == "power"
			labels = labels || strings.HasPrefix(nm, "label")
			st := step(c, nm)
			if nm == "shuffler" {
				shuffled = true
			}
			names = append(names, nm)
			steps = append(steps, st)
		}
		seed := c.Seed("seed")
		reseed := func(st base.Transformer) base.Transformer {
			if sh, ok := st.(*pp.Shuffler); ok {
				sh.RandomState = base.NewSource(seed)
			}
			return st
		}
		lastName := c.Pick("last", "probe", "probe", "knn", "knc", "linear")
		if labels && (lastName == "linear" || lastName == "probe") {
			lastName = c.Pick("last2", "probe", "knn", "knc")
		}
		mkLast := func() base.Predicter {
			switch lastName {
			case "knn":
				return neighbors.NewKNeighborsRegressor(3, "uniform")
			case "knc":
				return neighbors.NewKNeighborsClassifier(3, "uniform")
			case "linear":
				r := linearmodel.NewElasticNet()
				r.Alpha = .1
				r.MaxIter = 50
				return r
			}
			return &probe{clf: o == 2}
		}
		if c.Bool("holes") && len(names) > 0 && names[0] == "imputer" {
			r := c.Rnd("holes")
			for i := 1; i < n; i++ {
				X.Set(i, r.Intn(p), math.NaN())
			}
		}
		c.Mark(len(names) > 1, "%v -> %s X=%s Y=%s", names, lastName, vk.M(X), vk.M(Y))

		// by hand
		hand := make([]base.Transformer, len(steps))
		Xi, Yi := vk.Copy(X), vk.Copy(Y)
		for i := range steps {
			hand[i] = reseed(step(c, names[i]))
			hand[i].Fit(Xi, Yi)
			Xi, Yi = hand[i].Transform(Xi, Yi)
		}
		if !vk.Finite(Xi) || !vk.Finite(Yi) {
			c.Skip("not finite")
		}
		last := mkLast()
		last.Fit(Xi, Yi)
		through := func(Q, QY *mat.Dense) (*mat.Dense, *mat.Dense) {
			Qi, Yi := vk.Copy(Q), vk.Copy(QY)
			for i := range hand {
				Qi, Yi = hand[i].Transform(Qi, Yi)
			}
			return Qi, Yi
		}
		predict := func(Q *mat.Dense) *mat.Dense {
			r, _ := Q.Dims()
			Qi, _ := through(Q, mat.NewDense(r, o, nil))
			P := mat.NewDense(r, last.GetNOutputs(), nil)
			last.Predict(Qi, P)
			for i := len(hand) - 1; i >= 0; i-- {
				P = inverseY(hand[i], names[i], P)
			}
			return P
		}

		mkPipe := func() *pipeline.Pipeline {
			var fs []base.Fiter
			var ns []pipeline.NamedStep
			for i := range steps {
				st := reseed(step(c, names[i]))
				fs = append(fs, st)
				ns = append(ns, pipeline.NamedStep{Name: names[i], Fiter: st})
			}
			l := mkLast()
			fs = append(fs, l)
			ns = append(ns, pipeline.NamedStep{Name: "last", Fiter: l})
			if c.Bool("make") {
				return pipeline.MakePipeline(fs...)
			}
			return pipeline.NewPipeline(ns...)
		}
		pl := mkPipe()
		if pl.IsClassifier() != mkLast().IsClassifier() {
			c.Fatalf("IsClassifier %v", pl.IsClassifier())
		}
		if !shuffled && c.Bool("clone") {
			orig := pl
			if c.Bool("cloneFitted") {
				orig.Fit(c.Mat("D", 20, p, vk.Gauss), c.Mat("DY", 20, o, vk.Grid))
			}
			pl = orig.PredicterClone().(*pipeline.Pipeline)
			if len(pl.NamedSteps) != len(orig.NamedSteps) {
				c.Fatalf("clone has %d steps", len(pl.NamedSteps))
			}
			for i := range pl.NamedSteps {
				if pl.NamedSteps[i].Name != orig.NamedSteps[i].Name {
					c.Fatalf("clone's step %d is called %s", i, pl.NamedSteps[i].Name)
				}
			}
		} else if !shuffled && c.Bool("refit") {
			pl.Fit(c.Mat("D", 20, p, vk.Gauss), c.Mat("DY", 20, c.Int("refito", 1, 4), vk.Grid))
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		if c.Bool("fittransform") && !shuffled {
			Xo, Yo := pl.FitTransform(lx.M, ly.M)
			c.Eq("FitTransform X", Xo, X, 0, 0)
			c.Eq("FitTransform Y", Yo, predict(X), 1e-7, 1e-7)
		} else if r := pl.Fit(lx.M, ly.M); r != base.Fiter(pl) {
			c.Fatalf("Fit returns something else")
		}
		c.Unchanged("Fit", lx, ly)
		if pl.GetNOutputs() != o {
			c.Fatalf("GetNOutputs %d, not %d", pl.GetNOutputs(), o)
		}
		if !shuffled && c.Bool("cloneFittedToo") {
			cl := pl.PredicterClone()
			if c.Bool("useClone") { // the clone is fitted on other data; the origin stays
				cl.Fit(c.Mat("D2", 18, p, vk.Gauss), c.Mat("DY2", 18, o, vk.Grid))
			} else { // the origin moves on; the clone, fitted again on the data, is what counts
				cl.Fit(vk.Copy(X), vk.Copy(Y))
				pl.Fit(c.Mat("D2", 18, p, vk.Gauss), c.Mat("DY2", 18, o, vk.Grid))
				pl = cl.(*pipeline.Pipeline)
			}
		}
		check := func(what string, Q, QY *mat.Dense) {
			want := predict(Q)
			lq, lqy := c.Lay(what, Q, true), c.Lay(what+"Y", QY, true)
			r, _ := Q.Dims()
			dst := c.Dst(what+"dst", r, o)
			ret := pl.Predict(lq.M, dst.M)
			c.Unchanged("Predict", lq)
			c.EqDst(what+": Predict", ret, dst, want, 1e-7, 1e-7)
			Qi, Yi := through(Q, QY)
			c.EqF(what+": Score", pl.Score(lq.M, lqy.M), last.Score(Qi, Yi), 1e-7, 1e-7)
			c.Unchanged("Score", lq, lqy)
			Xo, Yo := pl.Transform(lq.M, lqy.M)
			c.Eq(what+": Transform X", Xo, Q, 0, 0)
			c.Eq(what+": Transform Y", Yo, want, 1e-7, 1e-7)
			c.Unchanged("Transform", lq, lqy)
		}
		check("training data", X, Y)
		if !shuffled {
			q := c.Int("q", 1, 9)
			Q := c.Mat("Q", q, p, vk.Unif)
			for i := 0; i < q; i += 2 {
				Q.SetRow(i, vk.Row(X, c.Int("row", 0, n-1)))
			}
			QY := vk.Apply(mat.NewDense(q, o, nil), func(i, j int, _ float64) float64 { return Y.At((i*3+1)%n, j) })
			check("new data", Q, QY)
		} else {
			Q := c.Mat("Q", n, p, vk.Unif)
			check("new data of the same length", Q, Y)
		}
	})
}
