// C07: fitting batch by batch equals fitting once on all the data.
package c07

import (
	"fmt"
	"testing"

	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// cuts draws the batch boundaries.
func cuts(c *vk.C, n int) []int {
	b := []int{0}
	for b[len(b)-1] < n {
		b = append(b, c.Int("cut", b[len(b)-1]+1, n))
	}
	return b
}

func stack(A, B *mat.Dense) *mat.Dense {
	var S mat.Dense
	S.Stack(A, B)
	return &S
}

func TestScalersIncremental(t *testing.T) {
	vk.Prop(t, 3000, "history of batches, checked after each against one fit on the prefix; non-trivial: at least 2 batches", func(c *vk.C) {
		n, p := c.Huge("n", 1, 10, 60, 1500), c.Huge("p", 1, 4, 12, 100)
		kind := c.AnyKind("kind")
		X := c.Mat("X", n, p, kind)
		b := cuts(c, n)
		name := c.Pick("scaler", "minmax", "standard", "maxabs")
		dirty := c.Bool("refit")
		c.Mark(len(b) > 2, "%s %s batches %v refit=%v %s", name, kind, b, dirty, vk.M(X))
		type inc interface {
			pp.InverseTransformer
		}
		mk := func() inc {
			switch name {
			case "minmax":
				return pp.NewMinMaxScaler([]float64{-1, 2})
			case "standard":
				return pp.NewStandardScaler()
			}
			return pp.NewMaxAbsScaler()
		}
		pf := func(m inc, X *mat.Dense) {
			switch s := m.(type) {
			case *pp.MinMaxScaler:
				s.PartialFit(X, nil)
			case *pp.StandardScaler:
				s.PartialFit(X, nil)
			case *pp.MaxAbsScaler:
				s.PartialFit(X, nil)
			}
		}
		seen := func(m inc) int {
			switch s := m.(type) {
			case *pp.MinMaxScaler:
				return s.NSamplesSeen
			case *pp.StandardScaler:
				return s.NSamplesSeen
			}
			return m.(*pp.MaxAbsScaler).NSamplesSeen
		}
		a := mk()
		if dirty { // an earlier fit on other data must leave no trace: the first batch is given to Fit
			a.Fit(c.Mat("D", c.Int("dn", 1, 5), c.Int("dp", 1, 5), vk.Unif), nil)
		}
		var frozen pp.Transformer
		var frozenOut *mat.Dense
		for k := 1; k < len(b); k++ {
			l := c.Lay(fmt.Sprint("batch", k), vk.RowRange(X, b[k-1], b[k]), false)
			if k == 1 && dirty {
				a.Fit(l.M, nil)
			} else {
				pf(a, l.D)
			}
			c.Unchanged("partial fit", l)
			one := mk()
			one.Fit(vk.RowRange(X, 0, b[k]), nil)
			A, _ := a.Transform(X, nil)
			O, _ := one.Transform(X, nil)
			c.Eq(fmt.Sprintf("after batch %d", k), A, O, 1e-6, 1e-6)
			if seen(a) != b[k] {
				c.Fatalf("%d samples seen after %d", seen(a), b[k])
			}
			if frozen != nil {
				F, _ := frozen.Transform(X, nil)
				c.Eq("a clone taken earlier", F, frozenOut, 0, 0)
				// the clone goes its own way: it has seen the batches before it was taken, then this one
				Z := c.Mat("Z", c.Int("zn", 1, 4), p, kind)
				pf(frozen.(inc), Z)
				own := mk()
				own.Fit(stack(vk.RowRange(X, 0, b[k-1]), Z), nil)
				F, _ = frozen.Transform(X, nil)
				O, _ = own.Transform(X, nil)
				c.Eq("a clone taken earlier, after a batch of its own", F, O, 1e-6, 1e-6)
				B, _ := a.Transform(X, nil)
				c.Eq("after a batch given to a clone", B, A, 0, 0)
			}
			frozen = a.TransformerClone()
			frozenOut = vk.Copy(A)
		}
	})
}

func TestIncrementalMeanAndVar(t *testing.T) {
	vk.Prop(t, 1500, "running mean and variance over batches; non-trivial: at least 2 batches", func(c *vk.C) {
		n, p := c.Huge("n", 1, 10, 80, 1500), c.Huge("p", 1, 6, 9, 100)
		kind := c.AnyKind("kind")
		X := c.Mat("X", n, p, kind)
		b := cuts(c, n)
		c.Mark(len(b) > 2, "%s batches %v %s", kind, b, vk.M(X))
		m, v, cnt := mat.NewDense(1, p, nil), mat.NewDense(1, p, nil), 0
		for k := 1; k < len(b); k++ {
			m0, v0 := vk.Copy(m), vk.Copy(v)
			lm, lv := m, v
			m, v, cnt = pp.IncrementalMeanAndVar(c.Lay("B", vk.RowRange(X, b[k-1], b[k]), false).D, lm, lv, cnt)
			c.Eq("previous mean untouched", lm, m0, 0, 0)
			c.Eq("previous variance untouched", lv, v0, 0, 0)
			if cnt != b[k] {
				c.Fatalf("count %d, want %d", cnt, b[k])
			}
			for j := 0; j < p; j++ {
				wm, wv := vk.MeanVar(vk.Col(X.Slice(0, b[k], 0, p), j))
				c.EqF("mean", m.At(0, j), wm, 1e-8, 1e-9)
				c.EqF("variance", v.At(0, j), wv, 1e-7, 1e-7*(1+wm*wm))
			}
		}
	})
}

func TestLabelEncoderIncremental(t *testing.T) {
	vk.Prop(t, 1500, "label batches: classes and supports after each batch; non-trivial: at least 2 batches and 2 classes", func(c *vk.C) {
		n, q := c.Huge("n", 1, 12, 60, 1500), c.Huge("q", 1, 4, 6, 100)
		Y := c.Mat("Y", n, q, vk.Grid)
		b := cuts(c, n)
		c.Mark(len(b) > 2 && !vk.IsConst(vk.Col(Y, 0)), "batches %v %s", b, vk.M(Y))
		m := pp.NewLabelEncoder()
		var frozen *pp.LabelEncoder
		var fc, fs string
		for k := 1; k < len(b); k++ {
			l := c.Lay("B", vk.RowRange(Y, b[k-1], b[k]), false)
			if k == 1 && c.Bool("fit") {
				m.Fit(nil, l.M)
			} else {
				m.PartialFit(nil, l.D)
			}
			c.Unchanged("partial fit", l)
			for j := 0; j < q; j++ {
				col := vk.Col(Y.Slice(0, b[k], 0, q), j)
				u := vk.Uniq(col)
				sup := make([]float64, len(u))
				for _, v := range col {
					for i := range u {
						if u[i] == v {
							sup[i]++
						}
					}
				}
				c.EqS("classes", m.Classes[j], u, 0, 0)
				c.EqS("supports", m.Support[j], sup, 0, 0)
			}
			if frozen != nil && (fmt.Sprint(frozen.Classes) != fc || fmt.Sprint(frozen.Support) != fs) {
				c.Fatalf("a clone taken earlier changed: %v %v", frozen.Classes, frozen.Support)
			}
			frozen = m.TransformerClone().(*pp.LabelEncoder)
			fc, fs = fmt.Sprint(frozen.Classes), fmt.Sprint(frozen.Support)
		}
	})
}
