// C33: Gaussian process kernels equal their definition, with true gradients, however they are combined.
package c33

import (
	"math"
	"testing"

	gk "github.com/pa-m/sklearn/gaussian_process/kernels"
	"gonum.org/v1/gonum/mat"
	"verifharness/gpref"
	"verifharness/vk"
)

func col(v []float64) *mat.Dense {
	if len(v) == 0 {
		return nil
	}
	return mat.NewDense(len(v), 1, append([]float64(nil), v...))
}

func checkTheta(c *vk.C, what string, k gk.Kernel, n *gpref.Node) {
	t, lo, hi := n.Theta()
	th, bd := k.Theta(), k.Bounds()
	if r, cc := th.Dims(); r != len(t) || cc != 1 {
		c.Fatalf("%s: Theta is %dx%d, want %d free hyperparameters", what, r, cc, len(t))
	}
	if r, cc := bd.Dims(); r != len(t) || cc != 2 {
		c.Fatalf("%s: Bounds is %dx%d, want %d free hyperparameters", what, r, cc, len(t))
	}
	for i := range t {
		c.EqF(what+" Theta", th.At(i, 0), t[i], 1e-12, 1e-12)
		c.EqF(what+" lower bound", bd.At(i, 0), lo[i], 1e-12, 1e-12)
		c.EqF(what+" upper bound", bd.At(i, 1), hi[i], 1e-12, 1e-12)
	}
}

func check(c *vk.C, what string, k gk.Kernel, n *gpref.Node, X, Y *mat.Dense) {
	checkTheta(c, what, k, n)
	nx, _ := X.Dims()
	ny, _ := Y.Dims()
	t, _, _ := n.Theta()
	ref := func(A, B *mat.Dense) *mat.Dense {
		ra, _ := A.Dims()
		rb, _ := B.Dims()
		return vk.Apply(mat.NewDense(ra, rb, nil), func(i, j int, _ float64) float64 {
			v, _ := n.Eval(vk.Row(A, i), vk.Row(B, j))
			return v
		})
	}
	lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
	KXY, g := k.Eval(lx.M, ly.M, false)
	c.Eq(what+" K(X,Y)", KXY, ref(X, Y), 1e-9, 1e-12)
	if g != nil {
		c.Fatalf("%s: a gradient that was not asked for", what)
	}
	KXX, g := k.Eval(lx.M, nil, false)
	W := ref(X, X)
	c.Eq(what+" K(X)", KXX, W, 1e-9, 1e-12)
	KG, g := k.Eval(lx.M, nil, true)
	c.Eq(what+" K(X) with gradient", KG, W, 1e-9, 1e-12)
	if g == nil {
		c.Fatalf("%s: no gradient", what)
	}
	if s := g.Shape(); len(s) != 3 || s[0] != nx || s[1] != nx || s[2] != len(t) {
		c.Fatalf("%s: gradient shape %v, want [%d %d %d]", what, s, nx, nx, len(t))
	}
	for i := 0; i < nx; i++ {
		for j := 0; j < nx; j++ {
			_, want := n.Eval(vk.Row(X, i), vk.Row(X, j))
			for l := range want {
				v, err := g.At(i, j, l)
				if err != nil {
					c.Fatalf("%s: gradient[%d,%d,%d]: %v", what, i, j, l, err)
				}
				if !vk.Close(v.(float64), want[l], 1e-8, 1e-10) {
					c.Fatalf("%s: gradient[%d,%d,%d] is %v, want %v", what, i, j, l, v, want[l])
				}
			}
		}
	}
	D := k.Diag(lx.M)
	if r, _ := D.Dims(); r != nx {
		c.Fatalf("%s: Diag has %d rows", what, r)
	}
	for i := 0; i < nx; i++ {
		c.EqF(what+" Diag", D.At(i, i), W.At(i, i), 1e-9, 1e-12)
	}
	if k.IsStationary() != n.Stationary {
		c.Fatalf("%s: IsStationary %v", what, k.IsStationary())
	}
	if k.String() == "" {
		c.Fatalf("%s: empty String", what)
	}
	c.Unchanged(what, lx, ly)
	_ = ny
}

func TestKernels(t *testing.T) {
	vk.Prop(t, 5000, "expressions up to depth 3 over five kernels, sums, products and powers, with free, fixed and unbounded hyperparameters; non-trivial: combined, at least 2 free hyperparameters and 3 rows", func(c *vk.C) {
		p := c.Size("p", 1, 3, 7)
		n := gpref.Gen(c, "", p, c.PickI("depth", 2, 1, 3, 0, 3, 2))
		nx, ny := c.Size("nx", 1, 5, 12), c.Size("ny", 1, 5, 12)
		X, Y := c.Mat("X", nx, p, c.Pick("kx", vk.Grid, vk.Gauss)), c.Mat("Y", ny, p, vk.Gauss)
		X.Scale(.5, X)
		for i := 0; i < ny; i += 2 {
			Y.SetRow(i, vk.Row(X, i%nx))
		}
		k := n.Build()
		th, _, _ := n.Theta()
		c.Mark(n.A != nil && len(th) > 1 && nx > 2, "%s X=%s Y=%s", n, vk.M(X), vk.M(Y))
		check(c, "kernel", k, n, X, Y)
		// a clone with another theta, and the origin as it was
		th2 := append([]float64(nil), th...)
		for i := range th2 {
			th2[i] += float64(c.Int("dtheta", -4, 4)) / 8
		}
		var cl gk.Kernel
		n2 := n
		switch c.Int("clone", 0, 3) {
		case 0:
			cl = k.CloneWithTheta(nil)
		case 1:
			cl = k.CloneWithTheta(k.Theta())
		default:
			n2 = n.With(th2)
			if len(th2) == 0 {
				cl = k.CloneWithTheta(k.Theta())
			} else {
				lt := c.Lay("theta", col(th2), true)
				cl = k.CloneWithTheta(lt.M)
				c.Unchanged("CloneWithTheta", lt)
			}
		}
		check(c, "clone", cl, n2, X, Y)
		if len(th) > 0 {
			// theta writes through to the kernel it belongs to, and to no other
			if m, ok := cl.Theta().(mat.Mutable); ok {
				i := c.Int("at", 0, len(th)-1)
				m.Set(i, 0, m.At(i, 0)+.25)
			}
		}
		check(c, "origin", k, n, X, Y)
	})
}

// A covariance function gives symmetric positive semidefinite matrices.
func TestPSD(t *testing.T) {
	vk.Prop(t, 2000, "expressions up to depth 2 at distinct and repeated points; non-trivial: combined and at least 3 rows", func(c *vk.C) {
		p := c.Size("p", 1, 3, 7)
		n := gpref.Gen(c, "", p, c.PickI("depth", 2, 1, 0, 2))
		nx := c.SizeTo("nx", 1, 7, 20)
		X := c.Mat("X", nx, p, c.Pick("kx", vk.Grid, vk.Gauss))
		X.Scale(.5, X)
		c.Mark(n.A != nil && nx > 2, "%s X=%s", n, vk.M(X))
		K, _ := n.Build().Eval(X, nil, false)
		scale := 0.
		for i := 0; i < nx; i++ {
			for j := 0; j < nx; j++ {
				scale = math.Max(scale, math.Abs(K.At(i, j)))
				if !vk.Close(K.At(i, j), K.At(j, i), 1e-12, 1e-14) {
					c.Fatalf("K is not symmetric at (%d,%d): %v %v", i, j, K.At(i, j), K.At(j, i))
				}
			}
		}
		r := c.Rnd("v")
		for t := 0; t < 20; t++ {
			v := make([]float64, nx)
			for i := range v {
				v[i] = float64(r.Intn(7) - 3)
			}
			q := 0.
			for i := range v {
				for j := range v {
					q += v[i] * v[j] * K.At(i, j)
				}
			}
			if q < -1e-9*(1+scale)*float64(nx*nx) {
				c.Fatalf("v'Kv = %g for v=%v", q, v)
			}
		}
	})
}
