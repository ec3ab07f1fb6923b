// C08: encoders give each category its own column/code, in sorted order.
package c08

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/pa-m/sklearn/base"
	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// gen draws the fitted values V and the values to encode W, some never seen.
func gen(c *vk.C) (V, W *mat.Dense, unseen bool) {
	n, q := c.Huge("n", 1, 8, 40, 1000), c.Huge("q", 1, 3, 10, 100)
	step := c.PickF("step", 1, 0.5, -3, 1e5, 0x1p-20)
	V = c.Mat("V", n, q, vk.Grid)
	W = c.Mat("W", c.Size("m", 1, 6, 30), q, vk.Grid)
	if c.Int("many", 0, 9) == 0 { // categories
		r := c.Rnd("cats")
		k := c.PickI("k", 12, 40, 100, 300)
		for _, A := range []*mat.Dense{V, W} {
			A.Apply(func(_, _ int, v float64) float64 { return float64(r.Intn(k)) - 3 }, A)
		}
	}
	f := func(_, j int, v float64) float64 { return v*step + float64(j) }
	V.Apply(f, V)
	W.Apply(f, W)
	m, _ := W.Dims()
	for i := 0; i < m; i++ {
		for j := 0; j < q; j++ {
			if c.Int("half", 0, 20) == 20 {
				W.Set(i, j, W.At(i, j)+step/4)
			}
			if idx(vk.Uniq(vk.Col(V, j)), W.At(i, j)) < 0 {
				unseen = true
			}
		}
	}
	return
}

// used sometimes fits the encoder on other values first: the later fit must not remember them.
func used(c *vk.C, m interface {
	Fit(X, Y mat.Matrix) base.Fiter
}, inX bool) {
	if c.Int("used", 0, 2) != 0 {
		return
	}
	U := c.Mat("U", c.Int("un", 1, 6), c.Int("uq", 1, 4), vk.Grid)
	if inX {
		m.Fit(U, nil)
	} else {
		m.Fit(nil, U)
	}
}

func idx(u []float64, v float64) int {
	for i := range u {
		if u[i] == v {
			return i
		}
	}
	return -1
}

func TestOneHot(t *testing.T) {
	vk.Prop(t, 1500, "several categorical columns, values seen and unseen; non-trivial: more than one category somewhere", func(c *vk.C) {
		V, W, unseen := gen(c)
		n, q := W.Dims()
		lv, lw := c.Lay("V", V, true), c.Lay("W", W, true)
		c.Mark(unseen || !vk.IsConst(vk.Col(V, 0)), "%s %s fit %s encode %s", lv.Name, lw.Name, vk.M(V), vk.M(W))
		m := pp.NewOneHotEncoder()
		used(c, m, true)
		m.Fit(lv.M, nil)
		fi := []int{0}
		tot := 0
		for j := 0; j < q; j++ {
			u := vk.Uniq(vk.Col(V, j))
			c.EqS("values", m.Values[j], u, 0, 0)
			if m.NValues[j] != len(u) {
				c.Fatalf("NValues %v", m.NValues)
			}
			tot += len(u)
			fi = append(fi, tot)
		}
		if fmt.Sprint(fi) != fmt.Sprint(m.FeatureIndices) {
			c.Fatalf("FeatureIndices %v want %v", m.FeatureIndices, fi)
		}
		want := mat.NewDense(n, tot, nil)
		for i := 0; i < n; i++ {
			for j := 0; j < q; j++ {
				if k := idx(m.Values[j], W.At(i, j)); k >= 0 {
					want.Set(i, fi[j]+k, 1)
				}
			}
		}
		T, _ := m.Transform(lw.M, nil)
		c.Eq("one hot", T, want, 0, 0)
		c.Unchanged("one hot", lv, lw)
		// decoding takes the largest score of the feature's block
		S := c.Mat("S", n, tot, vk.Gauss)
		ls := c.Lay("S", S, false)
		D, _ := m.InverseTransform(ls.D, nil)
		for i := 0; i < n; i++ {
			for j := 0; j < q; j++ {
				best := fi[j]
				for k := fi[j]; k < fi[j+1]; k++ {
					if S.At(i, k) > S.At(i, best) {
						best = k
					}
				}
				if D.At(i, j) != m.Values[j][best-fi[j]] {
					c.Fatalf("decoded (%d,%d) %g", i, j, D.At(i, j))
				}
			}
		}
		c.Unchanged("one hot decoding", ls)
	})
}

func TestLabelBinarizer(t *testing.T) {
	vk.Prop(t, 1500, "several label columns, any pair of labels, values seen and unseen; non-trivial: unseen or 2 classes", func(c *vk.C) {
		V, W, unseen := gen(c)
		n, q := W.Dims()
		neg := c.PickF("neg", 0, -1, 0.5, 3)
		pos := c.PickF("pos", 1, 2, neg)
		lv, lw := c.Lay("V", V, true), c.Lay("W", W, true)
		c.Mark(unseen || !vk.IsConst(vk.Col(V, 0)), "neg %g pos %g %s fit %s encode %s", neg, pos, lv.Name, vk.M(V), vk.M(W))
		m := pp.NewLabelBinarizer(neg, pos)
		used(c, m, false)
		m.Fit(nil, lv.M)
		if pos == neg {
			pos = neg + 1
		}
		var us [][]float64
		tot := 0
		for j := 0; j < q; j++ {
			u := vk.Uniq(vk.Col(V, j))
			us = append(us, u)
			tot += len(u)
			c.EqS("classes", m.Classes[j], u, 0, 0)
		}
		want := mat.NewDense(n, tot, nil)
		for i := 0; i < n; i++ {
			b := 0
			for j := 0; j < q; j++ {
				for k, v := range us[j] {
					want.Set(i, b+k, neg)
					if v == W.At(i, j) {
						want.Set(i, b+k, pos)
					}
				}
				b += len(us[j])
			}
		}
		_, T := m.Transform(nil, lw.M)
		c.Eq("binarized", T, want, 0, 0)
		c.Unchanged("label binarizer", lv, lw)
		S := c.Mat("S", n, tot, vk.Gauss)
		ls := c.Lay("S", S, false)
		_, D := m.InverseTransform(nil, ls.D)
		wantD := mat.NewDense(n, q, nil)
		for i := 0; i < n; i++ {
			b := 0
			for j := 0; j < q; j++ {
				best := 0
				for k := range us[j] {
					if S.At(i, b+k) > S.At(i, b+best) {
						best = k
					}
				}
				wantD.Set(i, j, us[j][best])
				b += len(us[j])
			}
		}
		c.Eq("decoded scores", D, wantD, 0, 0)
		c.Unchanged("label decoding", ls)
	})
}

func TestLabelEncoder(t *testing.T) {
	vk.Prop(t, 1500, "several label columns, values seen and unseen, codes in and out of range; non-trivial: unseen or 2 classes", func(c *vk.C) {
		V, W, unseen := gen(c)
		n, q := W.Dims()
		lv, lw := c.Lay("V", V, true), c.Lay("W", W, true)
		c.Mark(unseen || !vk.IsConst(vk.Col(V, 0)), "%s fit %s encode %s", lv.Name, vk.M(V), vk.M(W))
		m := pp.NewLabelEncoder()
		used(c, m, false)
		m.Fit(nil, lv.M)
		want := vk.Apply(W, func(i, j int, v float64) float64 { return float64(idx(vk.Uniq(vk.Col(V, j)), v)) })
		_, T := m.Transform(nil, lw.M)
		c.Eq("codes", T, want, 0, 0)
		for j := 0; j < q; j++ {
			col := vk.Col(V, j)
			var cnt []float64
			for _, u := range vk.Uniq(col) {
				k := 0.
				for _, v := range col {
					if v == u {
						k++
					}
				}
				cnt = append(cnt, k)
			}
			c.EqS("supports", m.Support[j], cnt, 0, 0)
		}
		codes := mat.NewDense(n, q, nil)
		for i := 0; i < n; i++ {
			for j := 0; j < q; j++ {
				codes.Set(i, j, float64(c.Int("code", -1, 8)))
			}
		}
		lc := c.Lay("codes", codes, false)
		_, D := m.InverseTransform(nil, lc.D)
		wantD := vk.Apply(codes, func(i, j int, v float64) float64 {
			u := vk.Uniq(vk.Col(V, j))
			if v < 0 || int(v) >= len(u) {
				return math.NaN()
			}
			return u[int(v)]
		})
		c.Eq("decoded", D, wantD, 0, 0)
		c.Unchanged("label encoder", lv, lw, lc)
	})
}

func TestMultiLabel(t *testing.T) {
	vk.Prop(t, 1500, "multilabel matrices and string lists; non-trivial: more than one class", func(c *vk.C) {
		V, W, _ := gen(c)
		n, q := W.Dims()
		words := []string{"", "a", "b", "ab", "zz", "é", "B", "10", "9"}
		str := c.Bool("strings")
		w := func(v float64) string { return words[int(math.Abs(math.Floor(v)))%len(words)] }
		var names []string
		for _, v := range vk.Uniq(append([]float64(nil), vk.Copy(V).RawMatrix().Data...)) {
			s := fmt.Sprint(v)
			if str {
				s = w(v)
			}
			dup := false
			for _, o := range names {
				dup = dup || o == s
			}
			if !dup {
				names = append(names, s)
			}
		}
		if str {
			sort.Strings(names)
		}
		c.Mark(len(names) > 1, "strings=%v fit %s encode %s", str, vk.M(V), vk.M(W))
		toS := func(A *mat.Dense) [][]string {
			r, _ := A.Dims()
			o := make([][]string, r)
			for i := range o {
				for _, v := range vk.Row(A, i) {
					o[i] = append(o[i], w(v))
				}
			}
			return o
		}
		m := pp.NewMultiLabelBinarizer()
		var T *mat.Dense
		lv, lw := c.Lay("V", V, true), c.Lay("W", W, true)
		used(c, m, false)
		if str {
			m.Fit2(nil, toS(V))
			_, T = m.Transform2(nil, toS(W))
		} else {
			m.Fit(nil, lv.M)
			_, T = m.Transform(nil, lw.M)
		}
		var got []string
		for _, k := range m.Classes {
			got = append(got, fmt.Sprint(k))
		}
		if fmt.Sprint(got) != fmt.Sprint(names) {
			c.Fatalf("classes %q want %q", got, names)
		}
		k := len(names)
		want := mat.NewDense(n, q*k, nil)
		for i := 0; i < n; i++ {
			for j := 0; j < q; j++ {
				s := fmt.Sprint(W.At(i, j))
				if str {
					s = w(W.At(i, j))
				}
				for o := range names {
					if names[o] == s {
						want.Set(i, j*k+o, 1)
					}
				}
			}
		}
		c.Eq("multilabel", T, want, 0, 0)
		// a clone keeps its classes when the original is fitted again
		k0 := m.TransformerClone().(*pp.MultiLabelBinarizer)
		if str {
			m.Fit2(nil, [][]string{[]string{"x0", "x1", "x2"}[:c.Int("again", 1, 3)]})
			_, T = k0.Transform2(nil, toS(W))
		} else {
			m.Fit(nil, mat.NewDense(1, 3, []float64{.1, .2, .3}))
			_, T = k0.Transform(nil, lw.M)
		}
		c.Eq("a clone after the original was fitted again", T, want, 0, 0)
		c.Unchanged("multilabel", lv, lw)
	})
}
