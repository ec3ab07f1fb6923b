// C35: MLP predictions are the forward pass of the stored weights.
package c35

import (
	"math"
	"testing"

	nn "github.com/pa-m/sklearn/neural_network"
	"gonum.org/v1/gonum/mat"
	"verifharness/mlpref"
	"verifharness/vk"
)

func units(c *vk.C, nin, nout int) []int {
	u := []int{nin}
	for l := c.PickI("layers", 1, 2, 0, 3); l > 0; l-- {
		u = append(u, c.Huge("units", 1, 5, 20, 150))
	}
	return append(u, nout)
}

// TestForward: a network loaded from JSON predicts, and scores, as its definition says.
func TestForward(t *testing.T) {
	vk.Prop(t, 600, "at least one hidden layer and no prediction within rounding of a tie", func(c *vk.C) {
		kind := c.Pick("kind", "regressor", "classifier", "base64", "base32")
		out := "identity"
		nout := c.Huge("outputs", 1, 4, 9, 100)
		if kind == "classifier" || kind[0] == 'b' && c.Bool("classification") {
			out = "logistic"
			if nout > 1 && c.Bool("softmax") {
				out = "softmax"
			}
		}
		nin := c.Size("inputs", 1, 4, 12)
		act := c.Pick("act", "tanh", "logistic", "relu", "identity")
		u := units(c, nin, nout)
		scale := c.PickF("scale", 1, .3, 3)
		if kind != "base32" && c.Int("huge", 0, 7) == 0 {
			scale = 300
		}
		n := mlpref.Gen(c, "net", u, act, out, scale)
		flat := out == "identity" && c.Int("flat", 0, 3) == 0
		if flat { // the first output does not depend on the input
			last := len(n.W) - 1
			for i := range n.W[last] {
				n.W[last][i][0] = 0
			}
			n.B[last][0] = 1.5
		}
		m := mlpref.New(kind, []int{7}, "relu")
		nested := c.Bool("nested")
		extra := map[string]interface{}{"alpha": .25, "learning_rate_init": .125, "max_iter": 17, "solver": "sgd", "shuffle": false, "tol": .5, "warm_start": true, "learning_rate": "adaptive"}
		if err := m.(interface{ Unmarshal([]byte) error }).Unmarshal(n.JSON(extra, nested)); err != nil {
			c.Fatalf("Unmarshal: %v", err)
		}
		for k, v := range map[string]float64{"Alpha": .25, "LearningRateInit": .125, "MaxIter": 17, "Tol": .5, "NOutputs": float64(nout), "NLayers": float64(len(u))} {
			c.EqF(k+" from JSON", mlpref.Field(m, k)[0], v, 0, 0)
		}
		if h := mlpref.Field(m, "HiddenLayerSizes"); vk.DiffS(h, mlpref.Field(&struct{ H []int }{n.Hidden()}, "H"), 0, 0) != "" {
			c.Fatalf("HiddenLayerSizes %v, want %v", h, n.Hidden())
		}
		rtol := 1e-9
		if kind == "base32" {
			rtol = 1e-3
		}
		c.EqS("weights from JSON", mlpref.Of(m).Pack(), n.Pack(), 1e-6, 0)

		rows := c.Size("rows", 1, 6, 40)
		X := c.Mat("X", rows, nin, c.Pick("xkind", vk.Gauss, vk.Grid, vk.Unif))
		P := n.ForwardMat(X)
		margin := math.Inf(1)
		want := P
		if out != "identity" {
			want, margin = mlpref.Decide(P)
		}
		kink := 0.
		_ = kink
		sure := margin > 1e-9 && (kind != "base32" || margin > 1e-2)
		mag := 0.
		for _, v := range P.RawMatrix().Data {
			mag = math.Max(mag, math.Abs(v))
		}
		c.Mark(sure && len(u) > 2, "%s %v %s/%s X=%s", kind, u, act, out, vk.M(X))
		c.Class(kind)
		if !sure {
			return
		}
		xl := c.Lay("X", X, true)
		if xl.Name == "compact" && c.Bool("general") {
			if kind == "base32" {
				var g nn.General32
				g.Copy(X)
				xl.M = g
			} else if kind == "base64" {
				xl.M = nn.General64(xl.D.RawMatrix())
			}
			c.Class("general")
		}
		d := c.Dst("Y", rows, nout)
		if kind[0] == 'b' && d.Name == "nil" {
			d.Name, d.D = "compact", mat.NewDense(rows, nout, nil)
			d.M = d.D
		}
		ret := mlpref.Predict(m, xl.M, d.M)
		if ret == nil {
			ret = d.D
		}
		c.EqDst("Predict", ret, d, want, rtol, rtol*(1e-3+mag*math.Max(1, scale)))
		c.Unchanged("Predict", xl)

		// Score
		Y := vk.Copy(want)
		r := c.Rnd("score")
		for i := 0; i < rows; i++ {
			for j := 0; j < nout; j++ {
				if out == "identity" {
					Y.Set(i, j, Y.At(i, j)+r.NormFloat64()*(1+mag))
				} else if r.Intn(3) == 0 {
					Y.Set(i, j, 1-Y.At(i, j))
				}
			}
		}
		if flat { // a constant target, predicted exactly or not at all
			off := c.PickF("off", 0, 0, 1)
			for i := 0; i < rows; i++ {
				Y.Set(i, 0, 1.5+off)
			}
		}
		if sc, ok := m.(interface {
			Score(X, Y mat.Matrix) float64
		}); ok {
			yl := c.Lay("Yscore", Y, true)
			s := sc.Score(xl.M, yl.M)
			if out == "identity" {
				if want := mlpref.R2(Y, P); kind != "base32" && want > -1e6 {
					c.EqF("Score", s, want, 1e-7, 1e-7)
				}
			} else {
				c.EqF("Score", s, mlpref.Accuracy(Y, want), 1e-6, 1e-9)
			}
			c.Unchanged("Score", xl, yl)
		} else {
			c.Fatalf("%T has no Score", m)
		}
	})
}

func strided(r *vk.C, label string, X *mat.Dense, junk float64) (nn.General64, nn.General32, *mat.Dense) {
	n, k := X.Dims()
	st := k + r.Int(label+"_gap", 0, 2)
	g := nn.General64{Rows: n, Cols: k, Stride: st, Data: make([]float64, n*st)}
	h := nn.General32{Rows: n, Cols: k, Stride: st, Data: make([]float32, n*st)}
	for i := range g.Data {
		g.Data[i], h.Data[i] = junk, float32(junk)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			g.Data[i*st+j], h.Data[i*st+j] = X.At(i, j), float32(X.At(i, j))
		}
	}
	return g, h, X
}

func gaps64(c *vk.C, what string, g nn.General64, junk float64) {
	for i := range g.Data {
		if i%g.Stride >= g.Cols && g.Data[i] != junk {
			c.Fatalf("%s wrote between the rows", what)
		}
	}
}
func gaps32(c *vk.C, what string, g nn.General32, junk float64) {
	for i := range g.Data {
		if i%g.Stride >= g.Cols && g.Data[i] != float32(junk) {
			c.Fatalf("%s wrote between the rows", what)
		}
	}
}

// TestActivations: the exported activation, derivative and loss tables, in both precisions.
func TestActivations(t *testing.T) {
	vk.Prop(t, 500, "at least 2 columns and 2 rows", func(c *vk.C) {
		n, k := c.Size("rows", 1, 5, 20), c.Huge("cols", 1, 4, 10, 100)
		Z := c.Mat("Z", n, k, c.Pick("kind", vk.Gauss, vk.Grid, vk.Unif))
		rt32 := 1e-5
		if c.Int("extreme", 0, 5) == 0 {
			Z.Scale(100, Z)
			rt32 = 3e-4
		}
		Z.Apply(func(_, _ int, v float64) float64 { return float64(float32(v)) }, Z) // the same input in both precisions
		c.Mark(n > 1 && k > 1, "Z=%s", vk.M(Z))
		name := c.Pick("act", "identity", "logistic", "tanh", "relu", "softmax")
		g, h, _ := strided(c, "Z", Z, 777.25)
		nn.Activations64[name](g.RawMatrix())
		nn.Activations32[name](h.RawMatrix())
		A := mat.NewDense(n, k, nil)
		for i := 0; i < n; i++ {
			A.SetRow(i, mlpref.Apply(name, vk.Row(Z, i)))
		}
		c.Eq(name+" (64)", g, A, 1e-12, 1e-300)
		c.Eq(name+" (32)", h, A, rt32, 1e-6)
		gaps64(c, name, g, 777.25)
		gaps32(c, name, h, 777.25)

		if name != "softmax" {
			D := c.Mat("deltas", n, k, vk.Gauss)
			d64, d32, _ := strided(c, "D", D, -5.5)
			a64, a32, _ := strided(c, "A", A, 777.25)
			nn.Derivatives64[name](a64.RawMatrix(), d64.RawMatrix())
			nn.Derivatives32[name](a32.RawMatrix(), d32.RawMatrix())
			W := vk.Apply(D, func(i, j int, v float64) float64 {
				z, f := Z.At(i, j), 1.
				switch name {
				case "logistic":
					f = 1 / (2 + math.Exp(z) + math.Exp(-z))
				case "tanh":
					f = 1 / (math.Cosh(z) * math.Cosh(z))
				case "relu":
					if z <= 0 {
						f = 0
					}
				}
				return v * f
			})
			c.Eq("derivative of "+name+" (64)", d64, W, 1e-9, 1e-14)
			c.Eq("derivative of "+name+" (32)", d32, W, 1e-4, 1e-6)
			gaps64(c, "derivative of "+name, d64, -5.5)
			gaps32(c, "derivative of "+name, d32, -5.5)
			c.Eq("activations given to the derivative", a64, A, 0, 0)
		}

		lname := c.Pick("loss", "square_loss", "log_loss", "binary_log_loss")
		out := map[string]string{"square_loss": "identity", "log_loss": "softmax", "binary_log_loss": "logistic"}[lname]
		H, Y := vk.Copy(Z), c.Mat("T", n, k, vk.Gauss)
		if out != "identity" {
			for i := 0; i < n; i++ {
				H.SetRow(i, mlpref.Apply(out, vk.Row(Z, i)))
			}
			Y.Apply(func(i, j int, v float64) float64 {
				if v > 0 {
					return 1
				}
				return 0
			}, Y)
		}
		// saturated probabilities are clipped at the precision's limits: only compare away from them
		ok64, ok32 := true, true
		for _, v := range H.RawMatrix().Data {
			if out != "identity" {
				ok64 = ok64 && v > 1e-300 && v < 1-1e-13
				ok32 = ok32 && v > 1e-30 && v < 1-1e-3
			}
		}
		h64, h32, _ := strided(c, "H", H, 777.25)
		y64, y32, _ := strided(c, "T", Y, 999.5)
		want := 0.
		for i := 0; i < n; i++ {
			want += mlpref.Loss1(out, vk.Row(Y, i), vk.Row(H, i)) / float64(n)
		}
		l64, l32 := nn.LossFunctions64[lname](y64.RawMatrix(), h64.RawMatrix()), float64(nn.LossFunctions32[lname](y32.RawMatrix(), h32.RawMatrix()))
		if ok64 {
			c.EqF(lname+" (64)", l64, want, 1e-9, 1e-12)
		}
		if ok32 {
			c.EqF(lname+" (32)", l32, want, 1e-3, 1e-4)
		}
		if math.IsNaN(l64) || math.IsInf(l64, 0) || math.IsNaN(l32) || math.IsInf(l32, 0) || l64 < 0 || l32 < 0 {
			c.Fatalf("%s of finite outputs is %g / %g", lname, l64, l32)
		}
	})
}

// TestMatrices: the General matrices behave like the matrices they hold.
func TestMatrices(t *testing.T) {
	vk.Prop(t, 600, "at least 2 rows and columns and a stride wider than the row", func(c *vk.C) {
		n, k := c.Size("rows", 1, 6, 20), c.Huge("cols", 1, 4, 10, 100)
		X := c.Mat("X", n, k, vk.Grid)
		g, h, _ := strided(c, "X", X, 777.25)
		c.Mark(n > 1 && k > 1 && g.Stride > k, "stride %d X=%s", g.Stride, vk.M(X))
		c.Eq("At (64)", g, X, 0, 0)
		c.Eq("At (32)", h, X, 0, 0)
		c.Eq("T (64)", g.T(), X.T(), 0, 0)
		c.Eq("T (32)", h.T(), X.T(), 0, 0)
		c.Eq("T of T", g.T().T(), X, 0, 0)
		i := c.Int("i", 0, n-1)
		j := c.Int("j", i+1, n)
		a := c.Int("a", 0, k-1)
		b := c.Int("b", a+1, k)
		c.Eq("RowSlice (64)", g.RowSlice(i, j), X.Slice(i, j, 0, k), 0, 0)
		c.Eq("RowSlice (32)", h.RowSlice(i, j), X.Slice(i, j, 0, k), 0, 0)
		c.Eq("Slice (64)", g.Slice(i, j, a, b), X.Slice(i, j, a, b), 0, 0)
		c.Eq("Slice (32)", h.Slice(i, j, a, b), X.Slice(i, j, a, b), 0, 0)
		win := g.Slice(i, j, a, b).(nn.General64)
		c.Eq("RowSlice of a window", win.RowSlice(0, j-i), X.Slice(i, j, a, b), 0, 0)
		if e := win.RowSlice(0, 0); e.Rows != 0 {
			c.Fatalf("empty RowSlice has %d rows", e.Rows)
		}
		c.EqS("RawRowView (64)", g.RawRowView(i), vk.Row(X, i), 0, 0)
		for q, v := range h.RawRowView(i) {
			c.EqF("RawRowView (32)", float64(v), X.At(i, q), 0, 0)
		}
		// copies from every kind of source
		var c64 nn.General64
		var c32 nn.General32
		srcs := map[string]mat.Matrix{"general64": g, "general32": h, "*general64": &g, "*general32": &h, "dense": X, "generic": vk.Generic{M: X}, "window": win, "transposed": g.T()}
		name := c.Pick("src", "general64", "general32", "*general64", "*general32", "dense", "generic", "window", "transposed")
		if c.Bool("reuse") {
			c64 = nn.General64{Rows: 1, Cols: 40, Stride: 40, Data: make([]float64, 40)}
			c32 = nn.General32{Rows: 1, Cols: 40, Stride: 40, Data: make([]float32, 40)}
		}
		c64.Copy(srcs[name])
		c32.Copy(srcs[name])
		c.Eq("Copy (64) of "+name, c64, srcs[name], 0, 0)
		c.Eq("Copy (32) of "+name, c32, srcs[name], 0, 0)
		c.Eq("ToDense64 of "+name, nn.ToDense64(srcs[name]), srcs[name], 0, 0)
		c.Eq("ToDense32 of "+name, nn.ToDense32(srcs[name]), srcs[name], 0, 0)
		dst := c.Dst("dst", n, k)
		if dst.Name != "nil" {
			nn.FromDense64(dst.M, g)
			c.EqDst("FromDense64", dst.D, dst, X, 0, 0)
			d2 := c.Dst("dst2", n, k)
			if d2.Name != "nil" {
				nn.FromDense32(d2.M, h)
				c.EqDst("FromDense32", d2.D, d2, X, 0, 0)
			}
		}
		e64 := nn.General64{Rows: n, Cols: k, Stride: g.Stride, Data: make([]float64, len(g.Data))}
		e32 := nn.General32{Rows: n, Cols: k, Stride: h.Stride, Data: make([]float32, len(h.Data))}
		nn.FromDense64(e64, g)
		nn.FromDense32(e32, h)
		c.Eq("FromDense64, same stride", e64, X, 0, 0)
		c.Eq("FromDense32, same stride", e32, X, 0, 0)
		gaps64(c, "FromDense64", e64, 0)
		gaps32(c, "FromDense32", e32, 0)
		s64, s32 := nn.General64{Rows: 1, Cols: k, Stride: k, Data: make([]float64, k)}, nn.General32{Rows: 1, Cols: k, Stride: k, Data: make([]float32, k)}
		s64.SumRows(g)
		s32.SumRows(h)
		for q := 0; q < k; q++ {
			s := 0.
			for r := 0; r < n; r++ {
				s += X.At(r, q)
			}
			c.EqF("SumRows (64)", s64.At(0, q), s, 0, 0)
			c.EqF("SumRows (32)", s32.At(0, q), s, 0, 0)
		}
		r64 := g.RawRowView(i)
		if m := nn.MaxIdx64(r64); true {
			for q, v := range r64 {
				if v > r64[m] || v == r64[m] && q < m {
					c.Fatalf("MaxIdx64(%v)=%d", r64, m)
				}
			}
			if m2 := nn.MaxIdx32(h.RawRowView(i)); m2 != m {
				c.Fatalf("MaxIdx32(%v)=%d", r64, m2)
			}
		}
		if k == 1 {
			for r := 0; r < n; r++ {
				if want := X.At(i, 0) < X.At(r, 0); g.Less(i, r) != want || h.Less(i, r) != want {
					c.Fatalf("Less(%d,%d) = %v (64), %v (32), want %v", i, r, g.Less(i, r), h.Less(i, r), want)
				}
			}
		}
		if g.Len() != n || h.Len() != n {
			c.Fatalf("Len %d (64), %d (32) of %d rows", g.Len(), h.Len(), n)
		}
		g.Swap(i, j-1)
		h.Swap(i, j-1)
		S := vk.Copy(X)
		S.SetRow(i, vk.Row(X, j-1))
		S.SetRow(j-1, vk.Row(X, i))
		c.Eq("Swap (64)", g, S, 0, 0)
		c.Eq("Swap (32)", h, S, 0, 0)
		g.Set(i, a, 3.5)
		h.Set(i, a, 3.5)
		S.Set(i, a, 3.5)
		c.Eq("Set (64)", g, S, 0, 0)
		c.Eq("Set (32)", h, S, 0, 0)
		gaps64(c, "Swap/Set", g, 777.25)
		gaps32(c, "Swap/Set", h, 777.25)
	})
}

// TestLabelBinarizer: one column per class, and back.
func TestLabelBinarizer(t *testing.T) {
	vk.Prop(t, 500, "at least 2 classes in some column", func(c *vk.C) {
		n, k := c.Size("rows", 1, 8, 30), c.Size("cols", 1, 3, 7)
		Y := c.Mat("Y", n, k, vk.Grid)
		neg, pos := 0., 1.
		if c.Bool("labels") {
			neg = c.PickF("neg", -1, 0, 3)
			pos = neg + c.PickF("gap", 3, 0)
		}
		neg0, pos0 := neg, pos
		if pos == neg { // as everywhere in the library
			pos = neg + 1
		}
		T := c.Mat("T", c.Int("trows", 1, 5), k, vk.Grid) // may hold labels that were not seen
		if c.Bool("same") {
			T = Y
		}
		tr, _ := T.Dims()
		var cols [][]float64
		nontrivial := false
		total := 0
		for j := 0; j < k; j++ {
			u := vk.Uniq(vk.Col(Y, j))
			cols = append(cols, u)
			nontrivial = nontrivial || len(u) > 1
			total += len(u)
		}
		c.Mark(nontrivial, "Y=%s T=%s", vk.M(Y), vk.M(T))
		want := mat.NewDense(tr, total, nil)
		back := vk.Copy(T)
		for i := 0; i < tr; i++ {
			b := 0
			for j, u := range cols {
				known := false
				for q, v := range u {
					want.Set(i, b+q, neg)
					if v == T.At(i, j) {
						want.Set(i, b+q, pos)
						known = true
					}
				}
				if !known {
					back.Set(i, j, u[0])
				}
				b += len(u)
			}
		}
		yl, tl := c.Lay("Y", Y, true), c.Lay("T", T, true)
		lb := nn.NewLabelBinarizer64(neg0, pos0)
		lb.Fit(nil, yl.M)
		_, got := lb.Transform(nil, tl.M)
		c.Eq("Transform (64)", got, want, 0, 0)
		gs := nn.General64{Rows: got.Rows, Cols: got.Cols, Stride: got.Cols + 2, Data: make([]float64, got.Rows*(got.Cols+2))}
		nn.FromDense64(gs, got)
		_, inv := lb.InverseTransform(nn.General64{}, gs)
		c.Eq("InverseTransform (64)", inv, back, 0, 0)
		lb3 := nn.NewLabelBinarizer32(float32(neg0), float32(pos0))
		lb3.Fit(nil, yl.M)
		_, got3 := lb3.Transform(nil, tl.M)
		c.Eq("Transform (32)", got3, want, 0, 0)
		_, inv3 := lb3.InverseTransform(nn.General32{}, got3)
		c.Eq("InverseTransform (32)", inv3, back, 0, 0)
		_, ft := nn.NewLabelBinarizer64(neg0, pos0).FitTransform(nil, tl.M)
		lb.Fit(nil, tl.M)
		_, ft2 := lb.Transform(nil, tl.M)
		c.Eq("FitTransform", ft, ft2, 0, 0)
		c.Unchanged("LabelBinarizer", yl, tl)
	})
}
