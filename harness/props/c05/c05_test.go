// C05: the scalers apply exactly the affine map their definition gives.
package c05

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func data(c *vk.C) (X, Z *mat.Dense, kind string) {
	n, p := c.Huge("n", 1, 8, 60, 1500), c.Huge("p", 1, 4, 20, 150)
	kind = c.AnyKind("kind")
	X = c.Mat("X", n, p, kind)
	if c.Bool("constcol") {
		j := c.Int("cj", 0, p-1)
		v := c.PickF("cv", 0, 1, -2, 0.1, 1e3, 1./3)
		for i := 0; i < n; i++ {
			X.Set(i, j, v)
		}
	}
	Z = c.Mat("Z", c.Size("m", 1, 5, 30), p, kind)
	return
}

// units gives a column another unit
func units(c *vk.C, X, Z *mat.Dense) {
	_, p := X.Dims()
	if u := c.PickI("unit", 0, 0, 0, -35, -60, 50); u != 0 {
		j := c.Int("uj", 0, p-1)
		for _, A := range []*mat.Dense{X, Z} {
			for i := 0; i < A.RawMatrix().Rows; i++ {
				A.Set(i, j, math.Ldexp(A.At(i, j), u))
			}
		}
	}
}

// used fits the transformer on something else, sometimes
func used(c *vk.C, m preprocessing.Transformer) {
	if c.Int("used", 0, 2) == 0 {
		m.Fit(c.Mat("U", c.Int("un", 1, 6), c.Int("up", 1, 4), vk.Unif), nil)
	}
}

func varied(X *mat.Dense) bool {
	_, p := X.Dims()
	for j := 0; j < p; j++ {
		if !vk.IsConst(vk.Col(X, j)) {
			return true
		}
	}
	return false
}

func TestMinMax(t *testing.T) {
	vk.Prop(t, 1500, "training and new data of any kind, any feature range; non-trivial: a column that varies", func(c *vk.C) {
		X, Z, kind := data(c)
		units(c, X, Z)
		lo := c.Float("lo", -3, 3)
		hi := lo + c.PickF("width", 1, 0.25, 2, 10)
		l, lz := c.Lay("X", X, true), c.Lay("Z", Z, true)
		c.Mark(varied(X), "%s %s [%g,%g] fit %s apply %s", kind, l.Name, lo, hi, vk.M(X), vk.M(Z))
		sc := preprocessing.NewMinMaxScaler([]float64{lo, hi})
		used(c, sc)
		sc.Fit(l.M, nil)
		_, p := X.Dims()
		mn, rg := make([]float64, p), make([]float64, p)
		for j := range mn {
			col := vk.Col(X, j)
			mn[j] = vk.Quantile(0, col)
			if rg[j] = vk.Quantile(1, col) - mn[j]; rg[j] == 0 {
				rg[j] = 1
			}
		}
		want := func(A mat.Matrix) *mat.Dense {
			return vk.Apply(A, func(i, j int, v float64) float64 { return lo + (v-mn[j])/rg[j]*(hi-lo) })
		}
		tol := vk.Mult(vk.MaxAbs(X, Z), func(j int) float64 { return 1e-13 * (hi - lo) / rg[j] })
		for j := range tol {
			tol[j] += 1e-13
		}
		A, _ := sc.Transform(l.M, nil)
		c.EqCols("training data", A, want(X), 1e-8, tol)
		B, _ := sc.Transform(lz.M, nil)
		c.EqCols("new data", B, want(Z), 1e-8, tol)
		if r, _ := X.Dims(); sc.NSamplesSeen != r {
			c.Fatalf("NSamplesSeen %d after %d", sc.NSamplesSeen, r)
		}
		for j, p := 0, A.RawMatrix().Cols; j < p; j++ {
			col := vk.Col(X, j)
			if sc.DataMin.At(0, j) != vk.Quantile(0, col) || sc.DataMax.At(0, j) != vk.Quantile(1, col) {
				c.Fatalf("recorded range of column %d", j)
			}
		}
		c.Unchanged("min-max scaler", l, lz)
	})
}

func TestStandard(t *testing.T) {
	vk.Prop(t, 1500, "training and new data of any kind, with/without mean and std; non-trivial: a column that varies", func(c *vk.C) {
		X, Z, kind := data(c)
		units(c, X, Z)
		sc := preprocessing.NewStandardScaler()
		sc.WithMean, sc.WithStd = c.Int("mean", 0, 3) > 0, c.Int("std", 0, 3) > 0
		l, lz := c.Lay("X", X, true), c.Lay("Z", Z, true)
		c.Mark(varied(X), "%s %s mean=%v std=%v fit %s apply %s", kind, l.Name, sc.WithMean, sc.WithStd, vk.M(X), vk.M(Z))
		used(c, sc)
		sc.Fit(l.M, nil)
		_, p := X.Dims()
		ms, ss := make([]float64, p), make([]float64, p)
		for j := range ms {
			col := vk.Col(X, j)
			m, v := vk.MeanVar(col)
			s := math.Sqrt(v)
			if vk.IsConst(col) {
				m, v, s = col[0], 0, 1
			}
			c.EqF("recorded mean", sc.Mean.At(0, j), m, 1e-9, 1e-13*(math.Abs(m)+s))
			c.EqF("recorded variance", sc.Var.At(0, j), v, 1e-8, 1e-12*m*m)
			if !sc.WithMean {
				m = 0
			}
			if !sc.WithStd {
				s = 1
			}
			ms[j], ss[j] = m, s
		}
		want := func(A mat.Matrix) *mat.Dense {
			return vk.Apply(A, func(i, j int, v float64) float64 { return (v - ms[j]) / ss[j] })
		}
		tol := vk.Mult(vk.MaxAbs(X, Z), func(j int) float64 { return 1e-11 / ss[j] })
		A, _ := sc.Transform(l.M, nil)
		c.EqCols("training data", A, want(X), 1e-7, tol)
		B, _ := sc.Transform(lz.M, nil)
		c.EqCols("new data", B, want(Z), 1e-7, tol)
		if r, _ := X.Dims(); sc.NSamplesSeen != r {
			c.Fatalf("NSamplesSeen %d after %d", sc.NSamplesSeen, r)
		}
		if sc.WithMean && sc.WithStd {
			c.EqCols("Scale", preprocessing.Scale(vk.Copy(X)), want(X), 1e-7, tol)
		}
		c.Unchanged("standard scaler", l, lz)
	})
}

func TestMaxAbs(t *testing.T) {
	vk.Prop(t, 1500, "training and new data of any kind; non-trivial: a column that varies", func(c *vk.C) {
		X, Z, kind := data(c)
		units(c, X, Z)
		l, lz := c.Lay("X", X, true), c.Lay("Z", Z, true)
		c.Mark(varied(X), "%s %s fit %s apply %s", kind, l.Name, vk.M(X), vk.M(Z))
		sc := preprocessing.NewMaxAbsScaler()
		used(c, sc)
		sc.Fit(l.M, nil)
		_, p := X.Dims()
		sa := make([]float64, p)
		for j := range sa {
			for _, x := range vk.Col(X, j) {
				sa[j] = math.Max(sa[j], math.Abs(x))
			}
			if sc.MaxAbs[j] != sa[j] {
				c.Fatalf("recorded maximum of column %d: %g, want %g", j, sc.MaxAbs[j], sa[j])
			}
			if sa[j] == 0 {
				sa[j] = 1
			}
		}
		want := func(A mat.Matrix) *mat.Dense {
			return vk.Apply(A, func(i, j int, v float64) float64 { return v / sa[j] })
		}
		A, _ := sc.Transform(l.M, nil)
		c.EqCols("training data", A, want(X), 1e-12, make([]float64, p))
		B, _ := sc.Transform(lz.M, nil)
		c.EqCols("new data", B, want(Z), 1e-12, make([]float64, p))
		c.Unchanged("max-abs scaler", l, lz)
	})
}

func TestRobust(t *testing.T) {
	vk.Prop(t, 1500, "training and new data of any kind, quantile pairs that are multiples of 1/16, with/without centering and scaling; non-trivial: a column that varies", func(c *vk.C) {
		X, Z, kind := data(c)
		units(c, X, Z)
		l, lz := c.Lay("X", X, true), c.Lay("Z", Z, true)
		_, p := X.Dims()
		center, scale := c.Int("center", 0, 3) > 0, c.Int("scale", 0, 3) > 0
		ql := float64(c.Int("ql", 0, 8)) / 16
		qr := float64(c.Int("qr", 9, 16)) / 16
		c.Mark(varied(X), "%s %s center=%v scale=%v q=[%g,%g] fit %s apply %s", kind, l.Name, center, scale, ql, qr, vk.M(X), vk.M(Z))
		var sc *preprocessing.RobustScaler
		switch c.Pick("ctor", "explicit", "default", "nil quantiles") {
		case "default":
			sc = preprocessing.NewDefaultRobustScaler()
			center, scale, ql, qr = true, true, .25, .75
		case "nil quantiles":
			sc = preprocessing.NewRobustScaler(center, scale, nil)
			ql, qr = .25, .75
		default:
			sc = preprocessing.NewRobustScaler(center, scale, &preprocessing.QuantilePair{Left: ql, Right: qr})
		}
		used(c, sc)
		sc.Fit(l.M, nil)
		mid, div := make([]float64, p), make([]float64, p)
		for j := range div {
			col := vk.Col(X, j)
			mid[j], div[j] = 0, 1
			if center {
				mid[j] = vk.Quantile(.5, col)
			}
			if d := vk.Quantile(qr, col) - vk.Quantile(ql, col); scale && d != 0 {
				div[j] = d
			}
		}
		want := func(A mat.Matrix) *mat.Dense {
			return vk.Apply(A, func(i, j int, v float64) float64 { return (v - mid[j]) / div[j] })
		}
		A, _ := sc.Transform(l.M, nil)
		c.EqCols("training data", A, want(X), 1e-9, make([]float64, p))
		B, _ := sc.Transform(lz.M, nil)
		c.EqCols("new data", B, want(Z), 1e-9, make([]float64, p))
		c.Unchanged("robust scaler", l, lz)
	})
}

func TestNormalizer(t *testing.T) {
	vk.Prop(t, 1500, "data of any kind, each norm, both axes, zero rows; non-trivial: more than one cell", func(c *vk.C) {
		X, _, kind := data(c)
		X.Scale(c.PickF("magnitude", 1, 1, 1, 1e-12, 1e12, 0x1p-600, 0x1p600), X)
		r, p := X.Dims()
		if c.Bool("zerorow") {
			i := c.Int("zi", 0, r-1)
			for j := 0; j < p; j++ {
				X.Set(i, j, 0)
			}
		}
		sc := preprocessing.NewNormalizer()
		sc.Norm = c.Pick("norm", "l1", "l2", "max")
		sc.Axis = c.Int("axis", 0, 1)
		l := c.Lay("X", X, true)
		c.Mark(r*p > 1, "%s %s %s axis %d %s", kind, l.Name, sc.Norm, sc.Axis, vk.M(X))
		used(c, sc)
		sc.Fit(l.M, nil)
		A, _ := sc.Transform(l.M, nil)
		norm := func(v []float64) float64 {
			s := 0.
			for _, x := range v {
				switch sc.Norm {
				case "l1":
					s += math.Abs(x)
				case "l2":
					s = math.Hypot(s, x)
				default:
					s = math.Max(s, math.Abs(x))
				}
			}
			if s == 0 {
				return 1
			}
			return s
		}
		norms := make([]float64, r+p)
		for j := 0; j < p; j++ {
			norms[j] = norm(vk.Col(X, j))
		}
		for i := 0; i < r; i++ {
			norms[p+i] = norm(vk.Row(X, i))
		}
		want := vk.Apply(X, func(i, j int, v float64) float64 {
			if sc.Axis == 0 {
				return v / norms[j]
			}
			return v / norms[p+i]
		})
		c.Eq("normalized", A, want, 1e-10, 0)
		c.Unchanged("normalizer", l)
	})
}

func TestBinarizer(t *testing.T) {
	vk.Prop(t, 1000, "data of any kind, thresholds that may equal a cell; non-trivial: some cell on each side", func(c *vk.C) {
		X, _, kind := data(c)
		r, p := X.Dims()
		at := X.At(c.Int("ti", 0, r-1), c.Int("tj", 0, p-1))
		th := c.PickF("th", 0, 1, -1.5, at, math.Nextafter(at, 1e300), math.Nextafter(at, -1e300))
		l := c.Lay("X", X, true)
		over := 0
		want := vk.Apply(X, func(i, j int, v float64) float64 {
			if v > th {
				over++
				return 1
			}
			return 0
		})
		c.Mark(over > 0 && over < r*p, "%s %s threshold %g %s", kind, l.Name, th, vk.M(X))
		m := preprocessing.NewBinarizer()
		m.Threshold = th
		m.Fit(l.M, nil)
		A, _ := m.Transform(l.M, nil)
		c.Eq("binarized", A, want, 0, 0)
		c.Unchanged("binarizer", l)
	})
}

func TestKernelCenterer(t *testing.T) {
	vk.Prop(t, 1000, "linear kernels of train and test points: centring the kernel = kernel of the centred points; non-trivial: at least 2 training points", func(c *vk.C) {
		X, Z, kind := data(c)
		if X.RawMatrix().Rows > 200 {
			X = vk.RowRange(X, 0, 200)
		}
		if kind == vk.Scaled || kind == vk.Mixed {
			X.Apply(func(i, j int, v float64) float64 { return math.Mod(v, 8) }, X)
			Z.Apply(func(i, j int, v float64) float64 { return math.Mod(v, 8) }, Z)
		}
		n, _ := X.Dims()
		c.Mark(n > 1, "%s train %s test %s", kind, vk.M(X), vk.M(Z))
		mean := make([]float64, X.RawMatrix().Cols)
		for j := range mean {
			mean[j], _ = vk.MeanVar(vk.Col(X, j))
		}
		ctr := func(A *mat.Dense) *mat.Dense {
			return vk.Apply(A, func(i, j int, v float64) float64 { return v - mean[j] })
		}
		ker := func(A, B *mat.Dense) *mat.Dense { K := new(mat.Dense); K.Mul(A, B.T()); return K }
		l, lz := c.Lay("K", ker(X, X), true), c.Lay("Kz", ker(Z, X), true)
		kc := preprocessing.NewKernelCenterer()
		if k := c.Int("used", 0, 3); k > 0 {
			kc.Fit(c.Mat("U", k, k, vk.Unif), nil)
		}
		kc.Fit(l.M, nil)
		A, _ := kc.Transform(l.M, nil)
		c.Eq("training kernel", A, ker(ctr(X), ctr(X)), 1e-8, 1e-7)
		B, _ := kc.Transform(lz.M, nil)
		c.Eq("test kernel", B, ker(ctr(Z), ctr(X)), 1e-8, 1e-7)
		c.Unchanged("kernel centerer", l, lz)
	})
}

func TestColumnStatistics(t *testing.T) {
	vk.Prop(t, 1000, "column means, variances and deviations; non-trivial: rows != columns and more than one row", func(c *vk.C) {
		X, _, kind := data(c)
		r, p := X.Dims()
		l := c.Lay("X", X, true)
		c.Mark(r != p && r > 1, "%s %s %s", kind, l.Name, vk.M(X))
		wm, wv := mat.NewDense(1, p, nil), mat.NewDense(1, p, nil)
		for j := 0; j < p; j++ {
			m, v := vk.MeanVar(vk.Col(X, j))
			wm.Set(0, j, m)
			wv.Set(0, j, v)
		}
		ws := vk.Apply(wv, func(i, j int, v float64) float64 { return math.Sqrt(v) })
		mx := vk.MaxAbs(X)
		mt := vk.Mult(mx, func(int) float64 { return 1e-13 })
		vt := vk.Mult(mx, func(j int) float64 { return 1e-13 * mx[j] })
		st := vk.Mult(mx, func(int) float64 { return 1e-7 })
		c.EqCols("Mean", preprocessing.Mean(l.M), wm, 1e-9, mt)
		c.EqCols("DenseMean", preprocessing.DenseMean(nil, l.M), wm, 1e-9, mt)
		c.EqCols("DenseMean into", preprocessing.DenseMean(mat.NewDense(1, p, vk.Row(X, 0)), l.M), wm, 1e-9, mt)
		c.EqCols("Var", preprocessing.NumpyLike{}.Var(l.M), wv, 1e-8, vt)
		c.EqCols("Std", preprocessing.NumpyLike{}.Std(l.M), ws, 1e-8, st)
		if r > 1 {
			m, s := preprocessing.MeanStdDev(l.M)
			c.EqCols("MeanStdDev mean", m, wm, 1e-9, mt)
			c.EqCols("MeanStdDev deviation", s, ws, 1e-8, st)
		}
		c.Unchanged("column statistics", l)
	})
}
