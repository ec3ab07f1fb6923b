// C09: polynomial features: every monomial up to the degree, once, with its value.
package c09

import (
	"fmt"
	"math"
	"testing"

	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func binom(n, k int) int {
	r := 1
	for i := 1; i <= k; i++ {
		r = r * (n - k + i) / i
	}
	return r
}

func TestPolynomialFeatures(t *testing.T) {
	vk.Prop(t, 1500, "any degree, feature count and option; non-trivial: degree >= 2 and p >= 2", func(c *vk.C) {
		p := c.Size("p", 1, 4, 8)
		d := 0
		switch { // keep the number of monomials moderate
		case p > 14:
			d = c.Int("degree", 0, 2)
		case p > 4:
			d = c.SizeTo("degree", 0, 3, 6)
		case p > 2:
			d = c.Int("degree", 0, 5)
		default:
			d = c.Size("degree", 0, 5, 9)
		}
		bias, inter := c.Bool("bias"), c.Bool("inter")
		if d == 0 {
			bias = true
		}
		n := c.Size("n", 1, 4, 20)
		kind := c.Pick("kind", vk.Grid, vk.Unif)
		X := c.Mat("X", n, p, kind)
		l := c.Lay("X", X, true)
		c.Mark(d >= 2 && p >= 2, "degree %d bias=%v inter=%v %s %s", d, bias, inter, l.Name, vk.M(X))
		m := pp.NewPolynomialFeatures(d)
		if c.Int("used", 0, 2) == 0 { // an earlier fit with other settings leaves no trace
			m.Degree, m.IncludeBias, m.InteractionOnly = c.Int("ud", 0, 3), c.Bool("ub"), c.Bool("ui")
			m.IncludeBias = m.IncludeBias || m.Degree == 0
			m.Fit(c.Mat("U", 2, c.Int("up", 1, 4), vk.Unif), nil)
			m.Degree = d
		}
		m.IncludeBias, m.InteractionOnly = bias, inter
		m.Fit(l.M, nil)
		want := 0
		for k := 0; k <= d; k++ {
			if k == 0 && !bias {
				continue
			}
			if inter {
				want += binom(p, k)
				if k > p {
					want -= binom(p, k)
				}
			} else {
				want += binom(p+k-1, k)
			}
		}
		if len(m.Powers) != want {
			c.Fatalf("%d monomials, want %d: %v", len(m.Powers), want, m.Powers)
		}
		seen := map[string]bool{}
		last, prev := 0, []int(nil)
		for _, pw := range m.Powers {
			if len(pw) != p {
				c.Fatalf("exponents %v for %d features", pw, p)
			}
			s := 0
			for _, e := range pw {
				if e < 0 || (inter && e > 1) {
					c.Fatalf("exponents %v", pw)
				}
				s += e
			}
			if s > d || (s == 0 && !bias) || seen[fmt.Sprint(pw)] {
				c.Fatalf("unexpected or repeated monomial %v in %v", pw, m.Powers)
			}
			seen[fmt.Sprint(pw)] = true
			if s < last {
				c.Fatalf("degrees not ascending: %v", m.Powers)
			}
			if s == last && prev != nil { // same degree: lexicographic, first feature first
				for j := range pw {
					if pw[j] != prev[j] {
						if pw[j] > prev[j] {
							c.Fatalf("order within a degree: %v", m.Powers)
						}
						break
					}
				}
			}
			last, prev = s, pw
		}
		T, _ := m.Transform(l.M, nil)
		W := mat.NewDense(n, want, nil)
		for i := 0; i < n; i++ {
			for k, pw := range m.Powers {
				v := 1.
				for j, e := range pw {
					for q := 0; q < e; q++ {
						v *= X.At(i, j)
					}
				}
				W.Set(i, k, v)
			}
		}
		c.Eq("monomials", T, W, 1e-10, 1e-9*math.Pow(10, float64(d-4)))
		c.Unchanged("polynomial features", l)
	})
}

func TestAddDummyFeature(t *testing.T) {
	vk.Prop(t, 500, "a column of ones in front; non-trivial: window storage", func(c *vk.C) {
		X := c.Mat("X", c.Size("n", 1, 9, 40), c.Size("p", 1, 5, 15), vk.Unif)
		l := c.Lay("X", X, false)
		c.Mark(l.Name == "window", "%s", vk.M(X))
		n, p := X.Dims()
		A := l.D
		pp.AddDummyFeature(A)
		W := mat.NewDense(n, p+1, nil)
		for i := 0; i < n; i++ {
			W.Set(i, 0, 1)
			for j := 0; j < p; j++ {
				W.Set(i, j+1, X.At(i, j))
			}
		}
		c.Eq("with ones", A, W, 0, 0)
	})
}
