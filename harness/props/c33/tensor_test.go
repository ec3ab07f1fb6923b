package c33

import (
	"fmt"
	"math"
	"testing"

	gk "github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/gaussian_process/tensor"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// A tensor addresses its cells in row-major order, refuses indices outside its shape, and its
// iterator goes over every cell once, from the start whenever it is started.
func TestTensor(t *testing.T) {
	vk.Prop(t, 300, "more than one dimension of more than one", func(c *vk.C) {
		shape, size, wide := tensor.Shape{}, 1, 0
		for d := c.SizeTo("dims", 1, 4, 6); d > 0; d-- {
			k := c.Int("extent", 1, 5)
			shape = append(shape, k)
			size *= k
			if k > 1 {
				wide++
			}
		}
		back := make([]float64, size)
		for i := range back {
			back[i] = float64(100 + i)
		}
		own := c.Int("own", 0, 4) == 0
		c.Mark(wide > 1, "tensor %v own storage=%v", shape, own)
		var x *tensor.Dense
		if own {
			x = tensor.NewDense(tensor.Float64, append(tensor.Shape{}, shape...))
			d := x.Data().([]float64)
			if len(d) != size {
				c.Fatalf("%d cells for shape %v", len(d), shape)
			}
			for _, v := range d {
				if v != 0 {
					c.Fatalf("new tensor holds %g", v)
				}
			}
			copy(d, back)
		} else {
			x = tensor.NewDense(tensor.Float64, append(tensor.Shape{}, shape...), tensor.WithBacking(back))
			if &x.Data().([]float64)[0] != &back[0] {
				c.Fatalf("backing was copied")
			}
		}
		if fmt.Sprint(x.Shape()) != fmt.Sprint(shape) || x.Dtype() != tensor.Float64 {
			c.Fatalf("shape %v type %v", x.Shape(), x.Dtype())
		}
		idx := make([]int, len(shape))
		for flat := 0; flat < size; flat++ {
			rest := flat
			for d := len(shape) - 1; d >= 0; d-- {
				idx[d] = rest % shape[d]
				rest /= shape[d]
			}
			v, err := x.At(idx...)
			if err != nil || v.(float64) != back[flat] {
				c.Fatalf("At%v = %v, %v want %g", idx, v, err, back[flat])
			}
			pos := 0
			for d, s := range x.Strides() {
				pos += idx[d] * s
			}
			if pos != flat {
				c.Fatalf("strides %v of shape %v put %v at %d", x.Strides(), shape, idx, pos)
			}
		}
		d := c.Int("bad dim", 0, len(shape)-1)
		for _, bad := range []int{-1, shape[d], shape[d] + 3} {
			idx[d] = bad
			if v, err := x.At(idx...); err == nil {
				c.Fatalf("At%v of shape %v = %v", idx, shape, v)
			}
		}
		it := x.Iterator()
		for round := c.Int("rounds", 1, 3); round > 0; round-- {
			stop := size
			if c.Bool("break") {
				stop = c.Int("stop", 0, size)
			}
			n := 0
			for i, err := it.Start(); err == nil; i, err = it.Next() {
				if i != n {
					c.Fatalf("step %d of the iterator is at %d", n, i)
				}
				n++
				if n > size || n == stop && stop < size {
					break
				}
			}
			if n > size || stop == size && n != size {
				c.Fatalf("iterator made %d steps of %d", n, size)
			}
		}
	})
}

// The comparison of tensors complains exactly when some cell differs by more than the tolerance.
func TestDiff3D(t *testing.T) {
	vk.Prop(t, 300, "one cell differs", func(c *vk.C) {
		s := tensor.Shape{c.Int("d0", 1, 4), c.Int("d1", 1, 4), c.Int("d2", 1, 4)}
		size := s[0] * s[1] * s[2]
		a, b := make([]float64, size), make([]float64, size)
		tol, max := c.PickF("tol", 0, 1e-6, .1), 0.
		r := c.Rnd("cells")
		for i := range a {
			a[i] = r.NormFloat64()
			b[i] = a[i] + tol*(r.Float64()-.5)
		}
		if c.Bool("differ") {
			b[c.Int("where", 0, size-1)] += c.PickF("by", 1, -1, .05, -1e-5)
		}
		for i := range a {
			max = math.Max(max, math.Abs(a[i]-b[i]))
		}
		c.Mark(max > tol, "diff3d %v tol=%g max=%g", s, tol, max)
		ta, tb := tensor.NewDense(tensor.Float64, s, tensor.WithBacking(a)), tensor.NewDense(tensor.Float64, s, tensor.WithBacking(b))
		for _, err := range []error{gk.Diff3D(ta, tb, tol), gk.Diff3D(tb, ta, tol)} {
			if (err != nil) != (max > tol) {
				c.Fatalf("largest difference %g, tolerance %g: %v", max, tol, err)
			}
		}
	})
}

func TestMatFromFunc(t *testing.T) {
	vk.Prop(t, 50, "more than one cell", func(c *vk.C) {
		n, p := c.Size("n", 1, 6, 12), c.Size("p", 1, 6, 12)
		D := c.Mat("D", n, p, vk.Unif)
		m := gk.NewMatFromFunc(n, p, D.At, D.Set)
		c.Mark(n*p > 1, "function matrix %dx%d", n, p)
		c.Eq("matrix", m, D, 0, 0)
		c.Eq("transpose", m.T(), D.T(), 0, 0)
		c.Eq("double transpose", m.T().T(), D, 0, 0)
		i, j := c.Int("i", 0, n-1), c.Int("j", 0, p-1)
		m.(mat.Mutable).Set(i, j, 1234)
		if D.At(i, j) != 1234 {
			c.Fatalf("Set(%d,%d) did not reach the cell", i, j)
		}
	})
}
