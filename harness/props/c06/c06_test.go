// C06: an inverse transform undoes its transform and hands back the other argument.
package c06

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func data(c *vk.C) (X, Z, Y *mat.Dense, kind string) {
	n, p := c.Huge("n", 1, 8, 40, 800), c.Size("p", 1, 4, 20)
	kind = c.AnyKind("kind")
	X = c.Mat("X", n, p, kind)
	Z = c.Mat("Z", c.Huge("m", 1, 5, 30, 800), p, kind)
	m, _ := Z.Dims()
	Y = c.Mat("Y", m, c.Int("q", 1, 3), vk.Grid)
	return
}

func TestScalersRoundTrip(t *testing.T) {
	vk.Prop(t, 3000, "scaler fitted on X, round trip of Z with Y alongside; non-trivial: X and Z have more than one row", func(c *vk.C) {
		X, Z, Y, kind := data(c)
		name := c.Pick("scaler", "minmax", "standard", "robust", "maxabs", "normalizer0", "normalizer1", "poly", "imputer")
		var tr pp.InverseTransformer
		switch name {
		case "minmax":
			lo := c.Float("lo", -3, 3)
			tr = pp.NewMinMaxScaler([]float64{lo, lo + c.PickF("w", 1, 0.5, 7)})
		case "standard":
			s := pp.NewStandardScaler()
			s.WithMean, s.WithStd = c.Bool("mean"), c.Bool("std")
			tr = s
		case "robust":
			tr = pp.NewRobustScaler(c.Bool("center"), c.Bool("scale"), nil)
		case "maxabs":
			tr = pp.NewMaxAbsScaler()
		case "normalizer0", "normalizer1":
			s := pp.NewNormalizer()
			s.Norm = c.Pick("norm", "l1", "l2", "max")
			s.Axis = int(name[10] - '0')
			tr = s
		case "poly":
			s := pp.NewPolynomialFeatures(c.Int("degree", 1, 3))
			s.IncludeBias, s.InteractionOnly = c.Bool("bias"), c.Bool("inter")
			if _, p := X.Dims(); p > 6 {
				s.Degree = 1
			}
			tr = s
		case "imputer":
			tr = pp.NewImputer()
		}
		n, _ := X.Dims()
		m, _ := Z.Dims()
		c.Mark(n > 1 && m > 1, "%s %s fit %s round trip %s", name, kind, vk.M(X), vk.M(Z))
		tr.Fit(X, nil)
		l, ly := c.Lay("Z", Z, true), c.Lay("Y", Y, false)
		T, TY := tr.Transform(l.M, ly.M)
		c.Eq("Y through transform", TY, Y, 0, 0)
		// the inverse must also work on a window of a larger matrix
		lt := c.Lay("T", T, false)
		B, BY := tr.InverseTransform(lt.D, ly.D)
		tol := vk.MaxAbs(X, Z)
		for j := range tol {
			if vk.IsConst(vk.Col(X, j)) { // scale 1
				tol[j]++
			}
			tol[j] *= 1e-12
		}
		c.EqCols("round trip", B, Z, 1e-7, tol)
		if BY == nil {
			c.Fatalf("Y lost by the inverse transform")
		}
		c.Eq("Y through inverse", BY, Y, 0, 0)
		c.Unchanged("round trip", l, ly, lt)
		nx, ny := tr.InverseTransform(nil, ly.D)
		if nx != nil {
			c.Fatalf("inverse of a nil X gave %s", vk.M(nx))
		}
		c.Eq("Y through inverse with nil X", ny, Y, 0, 0)
	})
}

func TestPCARoundTrip(t *testing.T) {
	vk.Prop(t, 800, "full projections of data with full column rank; non-trivial: p > 1", func(c *vk.C) {
		p := c.Int("p", 1, 8)
		n := p + c.Int("extra", 0, 20)
		X := c.Mat("X", n, p, vk.Gauss)
		Z := c.Mat("Z", c.Int("m", 1, 6), p, vk.Gauss)
		c.Mark(p > 1, "fit %s", vk.M(X))
		m := pp.NewPCA()
		m.Fit(X, nil)
		T, _ := m.Transform(Z, nil)
		B, _ := m.InverseTransform(T, nil)
		c.Eq("round trip", B, Z, 1e-8, 1e-8)
	})
}

func TestEncodersRoundTrip(t *testing.T) {
	vk.Prop(t, 3000, "category values (integers, fractions, negative), several columns; non-trivial: some column with 2 categories", func(c *vk.C) {
		n, q := c.Size("n", 1, 8, 40), c.Int("q", 1, 5)
		step := c.PickF("step", 1, 0.5, -3)
		V := c.Mat("V", n, q, vk.Grid)
		V.Apply(func(_, j int, v float64) float64 { return v*step + float64(j) }, V)
		two := false
		for j := 0; j < q; j++ {
			two = two || !vk.IsConst(vk.Col(V, j))
		}
		name := c.Pick("encoder", "onehot", "labelbinarizer", "labelencoder", "multilabel", "multilabelstr")
		c.Mark(two, "%s %s", name, vk.M(V))
		other := c.Mat("other", n, 2, vk.Grid)
		// a permutation of the fitted rows is transformed, so a position dependence shows
		perm := c.Rnd("perm").Perm(n)
		W := vk.Rows(V, perm...)
		l := c.Lay("W", W, false)
		switch name {
		case "onehot":
			m := pp.NewOneHotEncoder()
			m.Fit(V, nil)
			T, TY := m.Transform(l.M, other)
			B, BY := m.InverseTransform(c.Lay("T", T, false).D, other)
			c.Eq("round trip", B, W, 0, 0)
			c.Eq("Y", TY, other, 0, 0)
			c.Eq("Y back", BY, other, 0, 0)
		case "labelbinarizer":
			neg := c.PickF("neg", 0, -1, 0.5)
			m := pp.NewLabelBinarizer(neg, neg+c.PickF("d", 1, 2))
			m.Fit(nil, V)
			TX, T := m.Transform(other, l.M)
			BX, B := m.InverseTransform(other, c.Lay("T", T, false).D)
			c.Eq("round trip", B, W, 0, 0)
			c.Eq("X", TX, other, 0, 0)
			c.Eq("X back", BX, other, 0, 0)
		case "labelencoder":
			m := pp.NewLabelEncoder()
			m.Fit(nil, V)
			TX, T := m.Transform(other, l.M)
			BX, B := m.InverseTransform(other, c.Lay("T", T, false).D)
			c.Eq("round trip", B, W, 0, 0)
			c.Eq("X", TX, other, 0, 0)
			c.Eq("X back", BX, other, 0, 0)
		case "multilabel":
			m := pp.NewMultiLabelBinarizer()
			m.Fit(nil, V)
			_, T := m.Transform(other, l.M)
			_, B := m.InverseTransform(other, c.Lay("T", T, false).D)
			c.Eq("round trip", B.(*mat.Dense), W, 0, 0)
		case "multilabelstr":
			words := []string{"", "a", "b", "ab", "zz", "é", "B"}
			toS := func(A *mat.Dense) [][]string {
				r, _ := A.Dims()
				o := make([][]string, r)
				for i := range o {
					for _, v := range vk.Row(A, i) {
						o[i] = append(o[i], words[int(math.Abs(v))%len(words)])
					}
				}
				return o
			}
			m := pp.NewMultiLabelBinarizer()
			m.Fit2(nil, toS(V))
			_, T := m.Transform2(other, toS(W))
			_, B := m.InverseTransform(other, c.Lay("T", T, false).D)
			got, want := B.([][]string), toS(W)
			for i := range want {
				for j := range want[i] {
					if got[i][j] != want[i][j] {
						c.Fatalf("round trip (%d,%d): %q want %q", i, j, got[i][j], want[i][j])
					}
				}
			}
		}
		c.Unchanged("encoder", l)
	})
}

func TestShufflerRoundTrip(t *testing.T) {
	vk.Prop(t, 1500, "paired X and Y rows, any source; non-trivial: the shuffle moved a row", func(c *vk.C) {
		n := c.Size("n", 1, 8, 40)
		X := c.Mat("X", n, c.Int("p", 1, 4), vk.Grid)
		Y := mat.NewDense(n, 2, nil)
		for i := 0; i < n; i++ { // Y names the row of X
			Y.Set(i, 0, float64(i))
			Y.Set(i, 1, X.At(i, 0))
		}
		seed := c.Seed("seed")
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		m := pp.NewShuffler()
		m.RandomState = base.NewLockedSource(seed)
		if c.Bool("global") {
			m.RandomState = nil
		}
		A, B := m.FitTransform(lx.M, ly.M)
		moved := false
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			k := int(B.At(i, 0))
			if k < 0 || k >= n || seen[k] {
				c.Fatalf("rows lost or repeated: %s", vk.M(B))
			}
			seen[k] = true
			moved = moved || k != i
			if s := vk.Diff(vk.Rows(A, i), vk.Rows(X, k), 0, 0); s != "" {
				c.Fatalf("row %d of X does not go with row %d of Y: %s", i, k, s)
			}
		}
		c.Mark(moved, "seed %d X %s", seed, vk.M(X))
		la, lb := c.Lay("A", A, false), c.Lay("B", B, false)
		C, D := m.InverseTransform(la.D, lb.D)
		c.Eq("X back", C, X, 0, 0)
		c.Eq("Y back", D, Y, 0, 0)
		c.Unchanged("shuffler", lx, ly, la, lb)
		// one argument at a time
		A1, n1 := m.Transform(lx.M, nil)
		if n1 != nil && !n1.IsEmpty() {
			c.Fatalf("Y out of nothing")
		}
		c.Eq("X alone", A1, A, 0, 0)
		n2, D1 := m.InverseTransform(nil, lb.D)
		if n2 != nil && !n2.IsEmpty() {
			c.Fatalf("X out of nothing")
		}
		c.Eq("Y alone back", D1, Y, 0, 0)
	})
}

func TestPowerRoundTrip(t *testing.T) {
	vk.Prop(t, 600, "power transforms with given or fitted exponents, standardized or not; non-trivial: all", func(c *vk.C) {
		n, p := c.Int("n", 8, 30), c.Size("p", 1, 3, 12)
		X := c.Mat("X", n, p, vk.Gauss)
		X.Apply(func(i, j int, v float64) float64 { return math.Max(-4, math.Min(4, v)) + 0.001*float64(i) }, X)
		m := pp.NewPowerTransformer()
		m.Method = c.Pick("method", "yeo-johnson", "box-cox")
		given := c.Bool("given")
		unit := 1.
		if m.Method == "box-cox" {
			if given {
				unit = c.PickF("unit", 1, 1, 1, 0x1p-20, 0x1p20)
			}
			X.Apply(func(i, j int, v float64) float64 { return unit * math.Exp(v/2) }, X)
		}
		if given {
			m.Standardize = false
			m.Lambdas = make([]float64, p)
			for j := range m.Lambdas {
				m.Lambdas[j] = c.PickF("lambda", 0, 2, 1, -1, 0.5, 1.7, -0.3, 3)
				switch { // where the power itself keeps enough digits beside the 1
				case unit < 1:
					m.Lambdas[j] = c.PickF("small", 0, -1, -0.3, 0.5, 0.3, 1)
				case unit > 1:
					m.Lambdas[j] = c.PickF("large", 0, 2, 1, 0.5, 3, -0.3)
				}
			}
		} else {
			m.Standardize = c.Bool("std")
			m.Fit(X, nil)
		}
		c.Mark(true, "%s given=%v std=%v lambdas=%.4g X=%s", m.Method, given, m.Standardize, m.Lambdas, vk.M(X))
		l := c.Lay("X", X, true)
		T, _ := m.Transform(l.M, nil)
		lt := c.Lay("T", T, true)
		B, _ := m.InverseTransform(lt.M, nil)
		c.Eq("round trip", B, X, 1e-5, math.Min(1e-5, 1e-5*unit))
		c.Unchanged("power transform", l, lt)
	})
}

func TestKBinsRoundTrip(t *testing.T) {
	vk.Prop(t, 1200, "discretize, undo: the centre of the cell's bin; non-trivial: more than one bin", func(c *vk.C) {
		n, p := c.Size("n", 2, 8, 40), c.Size("p", 1, 3, 12)
		kind := c.AnyKind("kind")
		X := c.Mat("X", n, p, kind)
		m := pp.NewKBinsDiscretizer(c.Int("bins", 1, 8))
		m.Encode = c.Pick("encode", "ordinal", "onehot-dense", "onehot")
		m.Strategy = c.Pick("strategy", "uniform", "quantile")
		c.Mark(m.NBins > 1, "%s %d %s %s %s", kind, m.NBins, m.Encode, m.Strategy, vk.M(X))
		m.Fit(X, nil)
		T, _ := m.Transform(X, nil)
		lt := c.Lay("T", T, true)
		B, _ := m.InverseTransform(lt.M, nil)
		o := *m
		o.Encode = "ordinal"
		O, _ := o.Transform(X, nil)
		want := vk.Apply(O, func(i, j int, v float64) float64 {
			e := m.BinEdges[j]
			return (e[int(v)] + e[int(v)+1]) / 2
		})
		c.Eq("bin centres", B, want, 1e-12, 1e-12)
		// going round again changes nothing but degenerate (empty) bins
		if m.Strategy == "uniform" {
			T2, _ := m.Transform(B, nil)
			for j := 0; j < p; j++ {
				if vk.IsConst(vk.Col(X, j)) {
					return
				}
			}
			c.Eq("idempotent", T2, T, 0, 0)
		}
	})
}

func TestFunctionTransformer(t *testing.T) {
	vk.Prop(t, 300, "a user function and its inverse; non-trivial: all", func(c *vk.C) {
		X := c.Mat("X", c.Int("n", 1, 9), c.Int("p", 1, 4), vk.Unif)
		Y := c.Mat("Y", 2, 2, vk.Grid)
		c.Mark(true, "%s", vk.M(X))
		k := c.PickF("k", 2, -3, 0.5)
		f := pp.NewFunctionTransformer(
			func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
				return vk.Apply(X, func(_, _ int, v float64) float64 { return k*v + 1 }), Y
			},
			func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
				return vk.Apply(X, func(_, _ int, v float64) float64 { return (v - 1) / k }), Y
			})
		l := c.Lay("X", X, true)
		A, AY := f.FitTransform(l.M, Y)
		c.Eq("function", A, vk.Apply(X, func(_, _ int, v float64) float64 { return k*v + 1 }), 0, 0)
		B, BY := f.InverseTransform(A, AY)
		c.Eq("round trip", B, X, 1e-12, 1e-12)
		c.Eq("Y", BY, Y, 0, 0)
		c.Unchanged("function transformer", l)
	})
}
