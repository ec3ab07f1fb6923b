// C02: matrix views are transparent: reads and writes reach the right cell.
package c02

import (
	"strconv"
	"strings"
	"testing"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

const junk = -555.5 // not what vk.Lay pads with

func gen(c *vk.C) (*mat.Dense, *vk.Layout) {
	r, cols := c.Size("r", 1, 9, 20), c.Size("c", 1, 7, 20)
	X := c.Mat("X", r, cols, vk.Unif)
	for i := range X.RawMatrix().Data { // all cells distinct, so a misplaced read shows
		X.RawMatrix().Data[i] += float64(i) * 100
	}
	return X, c.Lay("X", X, false)
}

func TestRowSliceView(t *testing.T) {
	vk.Prop(t, 3000, "matrix with distinct cells, compact or window storage, row range; non-trivial: the range does not start at row 0 or the storage is a window", func(c *vk.C) {
		X, l := gen(c)
		r, cols := X.Dims()
		a := c.Int("start", 0, r-1)
		b := c.Int("end", a+1, r)
		c.Mark(a > 0 || l.Name != "compact", "%s rows %d..%d of %s", l.Name, a, b, vk.M(X))
		v := base.MatRowSlice{Matrix: l.M, Start: a, End: b}
		want := vk.Copy(X.Slice(a, b, 0, cols))
		c.Eq("row view", v, want, 0, 0)
		c.Eq("row view transposed", v.T(), want.T(), 0, 0)
		i, j := c.Int("i", 0, b-a-1), c.Int("j", 0, cols-1)
		if v.At(i, j) != X.At(a+i, j) {
			c.Fatalf("read (%d,%d)", i, j)
		}
		for _, bad := range []int{-1, b - a, b - a + 1} {
			if p := vk.Panics(func() { v.At(bad, 0) }); p == nil {
				c.Fatalf("reading row %d of a view of %d rows gave a value", bad, b-a)
			}
		}
		v.Set(i, j, -12345)
		want2 := vk.Copy(X)
		want2.Set(a+i, j, -12345)
		c.Eq("after write through row view", l.M, want2, 0, 0)
		tv := base.MatTranspose{Matrix: v}
		tv.Set(j, i, 54321)
		want2.Set(a+i, j, 54321)
		c.Eq("after write through transposed row view", l.M, want2, 0, 0)
	})
}

func TestTransposeConst(t *testing.T) {
	vk.Prop(t, 1500, "transpose and constant views over every cell; non-trivial: non-square", func(c *vk.C) {
		X, l := gen(c)
		r, cols := X.Dims()
		c.Mark(r != cols, "%s %s", l.Name, vk.M(X))
		tr := base.MatTranspose{Matrix: l.M}
		c.Eq("transpose", tr, X.T(), 0, 0)
		c.Eq("transpose twice", tr.T(), X, 0, 0)
		i, j := c.Int("i", 0, r-1), c.Int("j", 0, cols-1)
		tr.Set(j, i, -3)
		want := vk.Copy(X)
		want.Set(i, j, -3)
		c.Eq("write through transpose", l.M, want, 0, 0)
		k := base.MatConst{Rows: r, Columns: cols, Value: X.At(0, 0)}
		kr, kc := k.Dims()
		tr2, tc2 := k.T().Dims()
		if kr != r || kc != cols || tr2 != cols || tc2 != r || k.At(i, j) != X.At(0, 0) || k.T().At(j, i) != X.At(0, 0) {
			c.Fatalf("constant matrix")
		}
	})
}

func TestSlices(t *testing.T) {
	vk.Prop(t, 3000, "sub-matrix windows of matrices with distinct cells; non-trivial: a proper sub-window", func(c *vk.C) {
		X, l := gen(c)
		r, cols := X.Dims()
		i := c.Int("i", 0, r-1)
		k := c.Int("k", i+1, r)
		j := c.Int("j", 0, cols-1)
		q := c.Int("l", j+1, cols)
		c.Mark(k-i < r || q-j < cols, "%s rows %d..%d cols %d..%d of %s", l.Name, i, k, j, q, vk.M(X))
		c.Eq("MatDenseSlice", base.MatDenseSlice(l.D, i, k, j, q), X.Slice(i, k, j, q), 0, 0)
		c.Eq("MatDenseRowSlice", rows(base.MatGeneralRowSlice(l.D.RawMatrix(), i, k)), X.Slice(i, k, 0, cols), 0, 0)
		c.Eq("MatDenseColSlice", base.MatDenseColSlice(l.D, j, q), X.Slice(0, r, j, q), 0, 0)
		c.Eq("MatGeneralSlice", rows(base.MatGeneralSlice(l.D.RawMatrix(), i, k, j, q)), X.Slice(i, k, j, q), 0, 0)
		c.Eq("MatGeneralColSlice", rows(base.MatGeneralColSlice(l.D.RawMatrix(), j, q)), X.Slice(0, r, j, q), 0, 0)
		c.Eq("MatDenseRowSlice", base.MatDenseRowSlice(l.D, i, k), X.Slice(i, k, 0, cols), 0, 0)
		c.Unchanged("slicing", l)
		// the window shares storage with the matrix
		w := base.MatDenseSlice(l.D, i, k, j, q)
		w.Set(k-i-1, q-j-1, -99)
		want := vk.Copy(X)
		want.Set(k-1, q-1, -99)
		c.Eq("write through window", l.M, want, 0, 0)
		w = base.MatDenseRowSlice(l.D, i, k)
		w.Set(0, cols-1, -98)
		want.Set(i, cols-1, -98)
		w = base.MatDenseColSlice(l.D, j, q)
		w.Set(r-1, 0, -97)
		want.Set(r-1, j, -97)
		c.Eq("write through row and column windows", l.M, want, 0, 0)
	})
}

func rows(g blas64.General) mat.Matrix { return gen64{g} }

type gen64 struct{ g blas64.General }

func (m gen64) Dims() (int, int)    { return m.g.Rows, m.g.Cols }
func (m gen64) At(i, j int) float64 { return m.g.Data[i*m.g.Stride+j] }
func (m gen64) T() mat.Matrix       { return mat.Transpose{Matrix: m} }

// mutable-only destination
type mutOnly struct{ d *mat.Dense }

func (m mutOnly) Dims() (int, int)        { return m.d.Dims() }
func (m mutOnly) At(i, j int) float64     { return m.d.At(i, j) }
func (m mutOnly) T() mat.Matrix           { return mat.Transpose{Matrix: m} }
func (m mutOnly) Set(i, j int, v float64) { m.d.Set(i, j, v) }

// a matrix of another type that shows its storage
type rawOnly struct{ mutOnly }

func (m rawOnly) RawMatrix() blas64.General { return m.d.RawMatrix() }

func TestDenseConversion(t *testing.T) {
	vk.Prop(t, 3000, "conversion to dense and back over compact, window and interface-only matrices; non-trivial: source or destination is not compact", func(c *vk.C) {
		X, _ := gen(c)
		r, cols := X.Dims()
		l := c.Lay("src", X, true)
		dk := c.Pick("dst", "compact", "window", "mutable", "nil", "raw")
		c.Mark(l.Name != "compact" || dk == "window" || dk == "mutable", "src %s dst %s %s", l.Name, dk, vk.M(X))
		if l.D != nil && c.Int("raw", 0, 3) == 0 {
			l.M = rawOnly{mutOnly{l.D}}
		}
		d := base.ToDense(l.M)
		c.Eq("ToDense", d, X, 0, 0)
		if l.Name != "generic" {
			// a dense matrix is viewed, not copied
			d.Set(r-1, cols-1, -7)
			if l.M.At(r-1, cols-1) != -7 {
				c.Fatalf("ToDense copied a dense matrix")
			}
			X.Set(r-1, cols-1, -7)
		}
		D := mat.NewDense(r, cols, nil)
		var dst mat.Mutable
		var big *mat.Dense
		switch dk {
		case "compact":
			dst = D
		case "window":
			// sometimes of the same stride as the source
			D, big = vk.Strided(D, 1, 1, c.PickI("right", 2, 1), 1, junk)
			dst = D
		case "mutable":
			dst = mutOnly{D}
		case "raw":
			dst = rawOnly{mutOnly{D}}
		}
		ret := base.FromDense(dst, d)
		c.Eq("FromDense result", ret, X, 0, 0)
		if dst != nil {
			c.Eq("FromDense destination", D, X, 0, 0)
		}
		if big != nil {
			br, bc := big.Dims()
			for i := 0; i < br; i++ {
				for j := 0; j < bc; j++ {
					in := i >= 1 && i < 1+r && j >= 1 && j < 1+cols
					if !in && big.At(i, j) != junk {
						c.Fatalf("FromDense wrote outside the destination window at (%d,%d)", i, j)
					}
				}
			}
		}
	})
}

func TestDimsCheck(t *testing.T) {
	vk.Prop(t, 4000, "random shapes for result and operands of + - * / . ; non-trivial: shapes compatible in at least one dimension", func(c *vk.C) {
		op := c.Pick("op", "+", "-", "*", "/", ".")
		d := func(n string) int { return c.Int(n, 1, 3) }
		rr, rc, xr, xc, yr, yc := d("rr"), d("rc"), d("xr"), d("xc"), d("yr"), d("yc")
		ok := rr == xr && rc == yc && xc == yr
		if op != "." {
			ok = rr == xr && xr == yr && rc == xc && xc == yc
		}
		c.Mark(rr == xr || rc == yc, "%s %dx%d = %dx%d , %dx%d", op, rr, rc, xr, xc, yr, yc)
		p := vk.Panics(func() {
			base.MatDimsCheck(op, mat.NewDense(rr, rc, nil), mat.NewDense(xr, xc, nil), mat.NewDense(yr, yc, nil))
		})
		if ok != (p == nil) {
			c.Fatalf("compatible=%v but panic=%v", ok, p)
		}
	})
}

func TestText(t *testing.T) {
	vk.Prop(t, 400, "text form of one to three matrices with equally many rows; non-trivial: more than one matrix and more than one row", func(c *vk.C) {
		r, k := c.Int("r", 1, 6), c.Int("k", 1, 3)
		Xs, Ms := make([]*mat.Dense, k), make([]mat.Matrix, k)
		for m := range Xs {
			Xs[m] = c.Mat("X", r, c.Int("cols", 1, 4), vk.Unif)
			Ms[m] = c.Lay("X", Xs[m], false).M
		}
		c.Mark(k > 1 && r > 1, "%d matrices, first %s", k, vk.M(Xs[0]))
		var want strings.Builder
		for i := 0; i < r; i++ {
			var cells []string
			for _, X := range Xs {
				for _, v := range X.RawRowView(i) {
					cells = append(cells, strconv.FormatFloat(v, 'g', -1, 64))
				}
			}
			want.WriteString(strings.Join(cells, "\t") + "\n")
		}
		// compare cell by cell and line by line: the exponent style of a cell is free
		got := base.MatStr(Ms...)
		gl, wl := strings.Split(got, "\n"), strings.Split(want.String(), "\n")
		if len(gl) != len(wl) {
			c.Fatalf("text %q, want %q", got, want.String())
		}
		for i := range wl {
			gc, wc := strings.Fields(gl[i]), strings.Fields(wl[i])
			if len(gc) != len(wc) {
				c.Fatalf("row %d: text %q, want %q", i, gl[i], wl[i])
			}
			for j := range wc {
				g, err := strconv.ParseFloat(gc[j], 64)
				w, _ := strconv.ParseFloat(wc[j], 64)
				if err != nil || g != w {
					c.Fatalf("row %d: text %q, want %q", i, gl[i], wl[i])
				}
			}
		}
		if base.MatStr() != "" {
			c.Fatalf("text of nothing: %q", base.MatStr())
		}
	})
}
