// Package mlpref is a reference multilayer perceptron: forward pass, loss, backpropagation and the
// stochastic trainers, written from their definitions, plus adapters to the types under test.
package mlpref

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"reflect"

	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func init() { log.SetOutput(ioutil.Discard) }

// Net is a fully connected network.
type Net struct {
	W        [][][]float64 // layer, input, output
	B        [][]float64   // layer, output
	Act, Out string
}

// Gen draws a network; units includes the input and output layers.
func Gen(c *vk.C, label string, units []int, act, out string, scale float64) *Net {
	r := c.Rnd(label)
	n := &Net{Act: act, Out: out}
	for l := 0; l+1 < len(units); l++ {
		w := make([][]float64, units[l])
		for i := range w {
			w[i] = make([]float64, units[l+1])
			for j := range w[i] {
				w[i][j] = r.NormFloat64() * scale
			}
		}
		b := make([]float64, units[l+1])
		for j := range b {
			b[j] = r.NormFloat64() * scale
		}
		n.W, n.B = append(n.W, w), append(n.B, b)
	}
	return n
}

// Clone returns a deep copy.
func (n *Net) Clone() *Net {
	o := &Net{Act: n.Act, Out: n.Out}
	for l := range n.W {
		w := make([][]float64, len(n.W[l]))
		for i := range w {
			w[i] = append([]float64(nil), n.W[l][i]...)
		}
		o.W, o.B = append(o.W, w), append(o.B, append([]float64(nil), n.B[l]...))
	}
	return o
}

// Hidden returns the hidden layer sizes.
func (n *Net) Hidden() []int {
	h := []int{}
	for l := 0; l+1 < len(n.B); l++ {
		h = append(h, len(n.B[l]))
	}
	return h
}

// Act1 is the activation function of hidden units.
func Act1(name string, z float64) float64 {
	switch name {
	case "logistic":
		return 1 / (1 + math.Exp(-z))
	case "tanh":
		return math.Tanh(z)
	case "relu":
		return math.Max(z, 0)
	}
	return z
}

// Apply applies an activation to a row.
func Apply(name string, z []float64) []float64 {
	o := make([]float64, len(z))
	if name == "softmax" {
		m, s := math.Inf(-1), 0.
		for _, v := range z {
			m = math.Max(m, v)
		}
		for i, v := range z {
			o[i] = math.Exp(v - m)
			s += o[i]
		}
		for i := range o {
			o[i] /= s
		}
		return o
	}
	for i, v := range z {
		o[i] = Act1(name, v)
	}
	return o
}

// Forward returns the activations of the output layer; kink is the smallest absolute relu argument met.
func (n *Net) Forward(x []float64) (out []float64, kink float64) {
	kink = math.Inf(1)
	for l := range n.W {
		z := append([]float64(nil), n.B[l]...)
		for i, v := range x {
			for j := range z {
				z[j] += v * n.W[l][i][j]
			}
		}
		if l+1 == len(n.W) {
			return Apply(n.Out, z), kink
		}
		if n.Act == "relu" {
			for _, v := range z {
				kink = math.Min(kink, math.Abs(v))
			}
		}
		x = Apply(n.Act, z)
	}
	return x, kink
}

// ForwardMat applies Forward to every row.
func (n *Net) ForwardMat(X *mat.Dense) *mat.Dense {
	r, _ := X.Dims()
	Y := mat.NewDense(r, len(n.B[len(n.B)-1]), nil)
	for i := 0; i < r; i++ {
		o, _ := n.Forward(vk.Row(X, i))
		Y.SetRow(i, o)
	}
	return Y
}

// Decide turns output activations into 0/1 predictions; margin is the distance to the nearest tie.
func Decide(P *mat.Dense) (D *mat.Dense, margin float64) {
	margin = math.Inf(1)
	r, k := P.Dims()
	D = mat.NewDense(r, k, nil)
	for i := 0; i < r; i++ {
		if k == 1 {
			if P.At(i, 0) > .5 {
				D.Set(i, 0, 1)
			}
			margin = math.Min(margin, math.Abs(P.At(i, 0)-.5))
			continue
		}
		m := 0
		for j := 1; j < k; j++ {
			if P.At(i, j) > P.At(i, m) {
				m = j
			}
		}
		D.Set(i, m, 1)
		for j := 0; j < k; j++ {
			if j != m {
				margin = math.Min(margin, P.At(i, m)-P.At(i, j))
			}
		}
	}
	return
}

// Loss1 is the loss of one row for an output activation.
func Loss1(out string, y, h []float64) (s float64) {
	clip := func(v float64) float64 {
		return math.Min(math.Max(v, math.Nextafter(0, 1)), math.Nextafter(1, 0))
	}
	for j := range y {
		switch out {
		case "identity":
			s += (y[j] - h[j]) * (y[j] - h[j]) / 2
		case "softmax":
			if y[j] != 0 {
				s -= y[j] * math.Log(clip(h[j]))
			}
		default:
			if y[j] != 0 {
				s -= y[j] * math.Log(clip(h[j]))
			}
			if y[j] != 1 {
				s -= (1 - y[j]) * math.Log1p(-clip(h[j]))
			}
		}
	}
	return
}

// SumSquares of the weights (not of the intercepts).
func (n *Net) SumSquares() (s float64) {
	for _, w := range n.W {
		for _, r := range w {
			for _, v := range r {
				s += v * v
			}
		}
	}
	return
}

// Loss is the regularized mean loss.
func (n *Net) Loss(X, Y *mat.Dense, alpha float64) (s float64) {
	r, _ := X.Dims()
	for i := 0; i < r; i++ {
		h, _ := n.Forward(vk.Row(X, i))
		s += Loss1(n.Out, vk.Row(Y, i), h)
	}
	return (s + .5*alpha*n.SumSquares()) / float64(r)
}

// Pack lists the parameters layer by layer, intercepts first.
func (n *Net) Pack() (p []float64) {
	for l := range n.W {
		p = append(p, n.B[l]...)
		for _, r := range n.W[l] {
			p = append(p, r...)
		}
	}
	return
}

// Unpack is the inverse of Pack.
func (n *Net) Unpack(p []float64) {
	for l := range n.W {
		p = p[copy(n.B[l], p):]
		for _, r := range n.W[l] {
			p = p[copy(r, p):]
		}
	}
}

// Cfg are the hyperparameters of training.
type Cfg struct {
	Solver, Schedule                     string
	Alpha, WeightDecay                   float64
	Batch, MaxIter                       int
	LR, PowerT, Momentum                 float64
	Nesterov                             bool
	Beta1, Beta2, Eps                    float64
	Tol                                  float64
	NoChange                             int
	Early                                bool
	ValFraction                          float64
	Norm                                 bool
	StaleRows, AdamPerParam, ClassifierY bool // the first two: the two recorded defects
}

// Result of training.
type Result struct {
	Net        *Net
	LossCurve  []float64
	Scores     []float64
	Loss, Best float64
	NIter      int
	// Risk is the smallest distance of a comparison the trainer made to its tie.
	Risk    float64
	Partial bool
	Blown   bool
	Stopped bool
	Cut     int // learning rate cuts
}

type trainer struct {
	n          *Net
	cfg        Cfg
	act, delta [][][]float64
	res        *Result
}

func grid(r, c int) [][]float64 {
	g := make([][]float64, r)
	for i := range g {
		g[i] = make([]float64, c)
	}
	return g
}

// gradient runs one batch and returns loss and packed gradient. Buffers hold t.cfg.Batch rows; with
// StaleRows a smaller batch leaves the remaining rows as the previous batch left them and uses them.
func (t *trainer) gradient(X, Y [][]float64) (float64, []float64) {
	n, R := t.n, len(X)
	RB := R
	if t.cfg.StaleRows {
		RB = len(t.act[1])
	}
	if t.cfg.WeightDecay > 0 {
		p := n.Pack()
		for i := range p {
			p[i] *= 1 - t.cfg.WeightDecay
		}
		n.Unpack(p)
	}
	L := len(n.W)
	t.act[0] = X
	for l := 0; l < L; l++ {
		rows := R
		if l > 0 {
			rows = RB
		}
		for r := 0; r < RB; r++ {
			z := t.act[l+1][r]
			if r < rows {
				for j := range z {
					z[j] = 0
					for i, v := range t.act[l][r] {
						z[j] += v * n.W[l][i][j]
					}
				}
			}
			for j := range z {
				z[j] += n.B[l][j]
				if l+1 < L && n.Act == "relu" {
					t.res.Risk = math.Min(t.res.Risk, math.Abs(z[j]))
				}
			}
			f := n.Act
			if l+1 == L {
				f = n.Out
			}
			copy(z, Apply(f, z))
		}
	}
	norm := make([][]float64, L)
	if t.cfg.Norm {
		for l := 1; l < L; l++ {
			norm[l] = make([]float64, len(n.B[l-1]))
			for j := range norm[l] {
				for r := 0; r < RB; r++ {
					norm[l][j] = math.Max(norm[l][j], math.Abs(t.act[l][r][j]))
				}
				if norm[l][j] > 0 {
					for r := 0; r < RB; r++ {
						t.act[l][r][j] /= norm[l][j]
					}
				}
			}
		}
	}
	loss := 0.
	for r := 0; r < R; r++ {
		loss += Loss1(n.Out, Y[r], t.act[L][r])
		for j := range Y[r] {
			t.delta[L][r][j] = t.act[L][r][j] - Y[r][j]
		}
	}
	loss = loss/float64(RB) + .5*t.cfg.Alpha*n.SumSquares()/float64(R)
	g := n.Clone()
	for l := L; l >= 1; l-- {
		rows := RB
		if l == 1 {
			rows = R
		}
		for j := range n.B[l-1] {
			s := 0.
			for r := 0; r < RB; r++ {
				s += t.delta[l][r][j]
			}
			g.B[l-1][j] = s / float64(RB)
			for i := range n.W[l-1] {
				s := 0.
				for r := 0; r < rows; r++ {
					s += t.act[l-1][r][i] * t.delta[l][r][j]
				}
				g.W[l-1][i][j] = (s + t.cfg.Alpha*n.W[l-1][i][j]) / float64(R)
			}
		}
		if l > 1 {
			for r := 0; r < RB; r++ {
				for i := range n.W[l-1] {
					s := 0.
					for j := range n.B[l-1] {
						s += t.delta[l][r][j] * n.W[l-1][i][j]
					}
					a := t.act[l-1][r][i]
					switch n.Act {
					case "logistic":
						s *= a * (1 - a)
					case "tanh":
						s *= 1 - a*a
					case "relu":
						if a == 0 {
							s = 0
						}
					}
					if t.cfg.Norm && norm[l-1][i] > 0 {
						s /= norm[l-1][i]
					}
					t.delta[l-1][r][i] = s
				}
			}
		}
	}
	return loss, g.Pack()
}

// Gradient is the loss and packed gradient on all rows.
func (n *Net) Gradient(X, Y *mat.Dense, alpha float64) (float64, []float64) {
	r, _ := X.Dims()
	t := newTrainer(n.Clone(), Cfg{Alpha: alpha, Batch: r})
	return t.gradient(rows(X), rows(Y))
}

func rows(X *mat.Dense) (o [][]float64) {
	r, _ := X.Dims()
	for i := 0; i < r; i++ {
		o = append(o, vk.Row(X, i))
	}
	return
}

func newTrainer(n *Net, cfg Cfg) *trainer {
	t := &trainer{n: n, cfg: cfg, res: &Result{Risk: math.Inf(1)}}
	t.act = make([][][]float64, len(n.W)+1)
	t.delta = make([][][]float64, len(n.W)+1)
	for l := range n.W {
		t.act[l+1], t.delta[l+1] = grid(cfg.Batch, len(n.B[l])), grid(cfg.Batch, len(n.B[l]))
	}
	return t
}

// R2 averages over the columns; constant targets count 1 when predicted exactly and 0 otherwise.
func R2(Y, P *mat.Dense) (s float64) {
	r, k := Y.Dims()
	for j := 0; j < k; j++ {
		m, num, den := 0., 0., 0.
		for i := 0; i < r; i++ {
			m += Y.At(i, j) / float64(r)
		}
		for i := 0; i < r; i++ {
			num += math.Pow(Y.At(i, j)-P.At(i, j), 2)
			den += math.Pow(Y.At(i, j)-m, 2)
		}
		switch {
		case !vk.IsConst(vk.Col(Y, j)):
			s += 1 - num/den
		case num == 0:
			s++
		}
	}
	return s / float64(k)
}

// Accuracy is the fraction of equal rows.
func Accuracy(Y, P *mat.Dense) (s float64) {
	r, k := Y.Dims()
	for i := 0; i < r; i++ {
		eq := 1.
		for j := 0; j < k; j++ {
			if Y.At(i, j) != P.At(i, j) {
				eq = 0
			}
		}
		s += eq
	}
	return s / float64(r)
}

// Train runs the stochastic trainers without shuffling.
func Train(n0 *Net, X, Y *mat.Dense, cfg Cfg) *Result {
	N, _ := X.Dims()
	if cfg.Batch <= 0 {
		cfg.Batch = 200
	}
	if cfg.Batch > N {
		cfg.Batch = N
	}
	test := 0
	if cfg.Early {
		test = int(math.Ceil(cfg.ValFraction * float64(N)))
	}
	nt := N - test
	t := newTrainer(n0.Clone(), cfg)
	t.res.Partial = nt%cfg.Batch != 0
	xs, ys := rows(X), rows(Y)
	np := len(n0.Pack())
	vel, ms, vs := make([]float64, np), make([]float64, np), make([]float64, np)
	lr := cfg.LR
	b1, b2 := 1., 1.
	best, bestScore, noImp, seen := math.Inf(1), math.Inf(-1), 0, 0
	bestP := make([]float64, np)
	risk := func(d float64) { t.res.Risk = math.Min(t.res.Risk, math.Abs(d)) }
	for it := 0; it < cfg.MaxIter; it++ {
		acc := 0.
		for a := 0; a < nt; a += cfg.Batch {
			b := a + cfg.Batch
			if b > nt {
				b = nt
			}
			l, g := t.gradient(xs[a:b], ys[a:b])
			acc += l * float64(b-a)
			p := t.n.Pack()
			if cfg.Solver == "sgd" {
				for i := range p {
					vel[i] = cfg.Momentum*vel[i] - lr*g[i]
					if cfg.Nesterov {
						p[i] += cfg.Momentum*vel[i] - lr*g[i]
					} else {
						p[i] += vel[i]
					}
				}
			} else {
				b1, b2 = b1*cfg.Beta1, b2*cfg.Beta2
				for i := range p {
					if cfg.AdamPerParam && i > 0 {
						b1, b2 = b1*cfg.Beta1, b2*cfg.Beta2
					}
					ms[i] = cfg.Beta1*ms[i] + (1-cfg.Beta1)*g[i]
					vs[i] = cfg.Beta2*vs[i] + (1-cfg.Beta2)*g[i]*g[i]
					p[i] -= cfg.LR * math.Sqrt(1-b2) / (1 - b1) * ms[i] / (math.Sqrt(vs[i]) + cfg.Eps)
				}
			}
			t.n.Unpack(p)
		}
		t.res.NIter++
		loss := acc / float64(nt)
		t.res.Loss = loss
		t.res.LossCurve = append(t.res.LossCurve, loss)
		seen += nt
		for _, v := range t.n.Pack() {
			if !(math.Abs(v) < 1e3) {
				t.res.Blown = true
			}
		}
		if t.res.Blown {
			break
		}
		if cfg.Early {
			Xv, Yv := vk.RowRange(X, nt, N), vk.RowRange(Y, nt, N)
			P := t.n.ForwardMat(Xv)
			var s float64
			if t.n.Out == "identity" {
				s = R2(Yv, P)
			} else {
				D, m := Decide(P)
				risk(m)
				s = Accuracy(Yv, D)
			}
			t.res.Scores = append(t.res.Scores, s)
			if !math.IsInf(bestScore, 0) {
				if d := s - bestScore - cfg.Tol; d != 0 || t.n.Out == "identity" {
					risk(d)
				}
				if t.n.Out == "identity" {
					risk(s - bestScore)
				}
			}
			if s < bestScore+cfg.Tol {
				noImp++
			} else {
				noImp = 0
			}
			if s > bestScore {
				bestScore = s
				bestP = t.n.Pack()
			}
		} else {
			if !math.IsInf(best, 0) {
				risk(loss - best + cfg.Tol)
			}
			if loss > best-cfg.Tol {
				noImp++
			} else {
				noImp = 0
			}
		}
		best = math.Min(best, loss)
		if cfg.Solver == "sgd" && cfg.Schedule == "invscaling" {
			lr = cfg.LR / math.Pow(float64(seen+1), cfg.PowerT)
		}
		if noImp > cfg.NoChange {
			if cfg.Solver != "sgd" || cfg.Schedule != "adaptive" || lr <= 1e-6 {
				t.res.Stopped = true
				break
			}
			lr /= 5
			t.res.Cut++
			noImp = 0
		}
	}
	if cfg.Early {
		t.n.Unpack(bestP)
		t.res.Best = bestScore
	} else {
		t.res.Best = best
	}
	t.res.Net = t.n
	return t.res
}

// Sensitivity trains again from weights changed in their 12th digit and returns the largest change of
// a trained weight or loss: where rounding is amplified, no exact comparison is possible.
func Sensitivity(n0 *Net, X, Y *mat.Dense, cfg Cfg, r *Result) float64 {
	q := n0.Clone()
	p := q.Pack()
	for i := range p {
		p[i] += 1e-12 * (1 + math.Abs(p[i])) * float64(1-2*(i%2)) * (.5 + float64(i%3)/4)
	}
	q.Unpack(p)
	s := Train(q, X, Y, cfg)
	if s.NIter != r.NIter || len(s.LossCurve) != len(r.LossCurve) {
		return math.Inf(1)
	}
	d := 0.
	for i, v := range s.Net.Pack() {
		d = math.Max(d, math.Abs(v-r.Net.Pack()[i]))
	}
	for i, v := range s.LossCurve {
		d = math.Max(d, math.Abs(v-r.LossCurve[i]))
	}
	return d
}

// Set assigns exported fields of a model by name, converting numbers to the field's type.
func Set(m interface{}, kv map[string]interface{}) {
	v := reflect.Indirect(reflect.ValueOf(m))
	for k, x := range kv {
		f := v.FieldByName(k)
		f.Set(reflect.ValueOf(x).Convert(f.Type()))
	}
}

// Configure applies cfg to a model.
func (cfg Cfg) Configure(m interface{}) {
	Set(m, map[string]interface{}{"Solver": cfg.Solver, "LearningRate": cfg.Schedule, "Alpha": cfg.Alpha,
		"WeightDecay": cfg.WeightDecay, "BatchSize": cfg.Batch, "MaxIter": cfg.MaxIter, "LearningRateInit": cfg.LR,
		"PowerT": cfg.PowerT, "Momentum": cfg.Momentum, "NesterovsMomentum": cfg.Nesterov, "Beta1": cfg.Beta1,
		"Beta2": cfg.Beta2, "Epsilon": cfg.Eps, "Tol": cfg.Tol, "NIterNoChange": cfg.NoChange,
		"EarlyStopping": cfg.Early, "ValidationFraction": cfg.ValFraction, "BatchNormalize": cfg.Norm})
}

// JSON is the scikit-learn style dump of the network.
func (n *Net) JSON(extra map[string]interface{}, nested bool) []byte {
	par := map[string]interface{}{"activation": n.Act, "hidden_layer_sizes": n.Hidden(), "batch_size": "auto", "random_state": 7, "verbose": false}
	for k, v := range extra {
		par[k] = v
	}
	m := par
	if nested {
		m = map[string]interface{}{"params": par}
	}
	m["coefs_"], m["intercepts_"], m["out_activation_"] = n.W, n.B, n.Out
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	return b
}

// Load puts the network into a model through Unmarshal.
func (n *Net) Load(m interface{}) {
	if err := m.(interface{ Unmarshal([]byte) error }).Unmarshal(n.JSON(nil, false)); err != nil {
		panic(err)
	}
}

// Of reads the weights of a model through its exported fields.
func Of(m interface{}) *Net {
	n := &Net{}
	add := func(rows, cols int, at func(i, j int) float64) {
		w := grid(rows, cols)
		for i := range w {
			for j := range w[i] {
				w[i][j] = at(i, j)
			}
		}
		n.W = append(n.W, w)
	}
	f64 := func(b *nn.BaseMultilayerPerceptron64) {
		for i, g := range b.Coefs {
			g := g
			add(g.Rows, g.Cols, func(i, j int) float64 { return g.Data[i*g.Stride+j] })
			n.B = append(n.B, append([]float64(nil), b.Intercepts[i]...))
		}
		n.Act, n.Out = b.Activation, b.OutActivation
	}
	switch b := m.(type) {
	case *nn.BaseMultilayerPerceptron64:
		f64(b)
	case *nn.MLPRegressor:
		f64(&b.BaseMultilayerPerceptron64)
	case *nn.MLPClassifier:
		f64(&b.BaseMultilayerPerceptron64)
	case *nn.BaseMultilayerPerceptron32:
		for i, g := range b.Coefs {
			g := g
			add(g.Rows, g.Cols, func(i, j int) float64 { return float64(g.Data[i*g.Stride+j]) })
			v := []float64{}
			for _, x := range b.Intercepts[i] {
				v = append(v, float64(x))
			}
			n.B = append(n.B, v)
		}
		n.Act, n.Out = b.Activation, b.OutActivation
	default:
		panic(fmt.Sprintf("%T", m))
	}
	return n
}

// New builds a model of the given kind: base64, base32, regressor or classifier.
func New(kind string, hidden []int, act string) interface{} {
	switch kind {
	case "regressor":
		return nn.NewMLPRegressor(hidden, act, "sgd", 0)
	case "classifier":
		return nn.NewMLPClassifier(hidden, act, "sgd", 0)
	case "base32":
		b := nn.NewBaseMultilayerPerceptron32()
		b.HiddenLayerSizes, b.Activation = hidden, act
		return b
	}
	b := nn.NewBaseMultilayerPerceptron64()
	b.HiddenLayerSizes, b.Activation = hidden, act
	return b
}

// Fit calls the model's Fit.
func Fit(m interface{}, X, Y mat.Matrix) {
	switch b := m.(type) {
	case *nn.BaseMultilayerPerceptron64:
		b.Fit(X, Y)
	case *nn.BaseMultilayerPerceptron32:
		b.Fit(X, Y)
	case *nn.MLPRegressor:
		b.Fit(X, Y)
	case *nn.MLPClassifier:
		b.Fit(X, Y)
	}
}

// Predict calls the model's Predict; the returned Dense is nil for the base types.
func Predict(m interface{}, X mat.Matrix, Y mat.Mutable) *mat.Dense {
	switch b := m.(type) {
	case *nn.BaseMultilayerPerceptron64:
		b.Predict(X, Y)
	case *nn.BaseMultilayerPerceptron32:
		b.Predict(X, Y)
	case *nn.MLPRegressor:
		return b.Predict(X, Y)
	case *nn.MLPClassifier:
		return b.Predict(X, Y)
	}
	return nil
}

// Field reads an exported field as float64 or []float64.
func Field(m interface{}, name string) []float64 {
	f := reflect.Indirect(reflect.ValueOf(m)).FieldByName(name)
	if f.Kind() != reflect.Slice {
		return []float64{f.Convert(reflect.TypeOf(0.)).Float()}
	}
	o := []float64{}
	for i := 0; i < f.Len(); i++ {
		o = append(o, f.Index(i).Convert(reflect.TypeOf(0.)).Float())
	}
	return o
}

// SetState sets the random state of a model.
func SetState(m interface{}, rs base.RandomState) {
	reflect.Indirect(reflect.ValueOf(m)).FieldByName("RandomState").Set(reflect.ValueOf(rs))
}

// Clone calls PredicterClone.
func Clone(m interface{}) interface{} { return m.(base.Predicter).PredicterClone() }
