// C12: the power transformer applies the Yeo-Johnson / Box-Cox formula with a likelihood-maximizing exponent.
package c12

import (
	"math"
	"testing"

	pp "github.com/pa-m/sklearn/preprocessing"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func yj(x, l float64) float64 {
	if x >= 0 {
		if l == 0 {
			return math.Log(1 + x)
		}
		return (math.Pow(1+x, l) - 1) / l
	}
	if l == 2 {
		return -math.Log(1 - x)
	}
	return -(math.Pow(1-x, 2-l) - 1) / (2 - l)
}

func bc(x, l float64) float64 {
	if x < 0 || x == 0 && l <= 0 {
		return math.NaN()
	}
	if l == 0 {
		return math.Log(x)
	}
	return (math.Pow(x, l) - 1) / l
}

func gen(c *vk.C, method string, n, p int) *mat.Dense {
	X := c.Mat("X", n, p, vk.Gauss)
	shape := c.Pick("shape", "plain", "skewed", "onesided")
	unit := c.PickF("unit", 1, 1, 1, 100, 0.01)
	X.Apply(func(i, j int, v float64) float64 {
		v = math.Max(-3, math.Min(3, v)) + 0.001*float64(i)
		switch shape {
		case "skewed":
			v = math.Exp(v) - 1
		case "onesided":
			v = math.Abs(v)
		}
		if method == "box-cox" {
			return unit * (math.Abs(v) + 0.1)
		}
		if unit > 1 && i < 2 { // one-sided columns far from zero drive the exponent to where the powers underflow
			v = 1.5 - 3*float64(i)
		}
		return unit * v
	}, X)
	return X
}

func TestFormula(t *testing.T) {
	vk.Prop(t, 1500, "given exponents, including 0 and 2, cells of both signs and zero; non-trivial: an exponent other than 1", func(c *vk.C) {
		n, p := c.Size("n", 1, 10, 40), c.Huge("p", 1, 4, 20, 150)
		method := c.Pick("method", "yeo-johnson", "box-cox")
		X := c.Mat("X", n, p, c.Pick("kind", vk.Grid, vk.Unif))
		if method == "box-cox" {
			bad := c.PickF("bad", 0.25, 0.25, 0, -1.5) // 0 has a limit for positive exponents; nothing else outside does
			X.Apply(func(i, j int, v float64) float64 {
				if (i+2*j)%5 == 0 {
					return bad
				}
				return math.Abs(v) + .125
			}, X)
		}
		m := pp.NewPowerTransformer()
		m.Method, m.Standardize = method, false
		nt := false
		for j := 0; j < p; j++ {
			l := c.PickF("lambda", 0, 2, 1, -1, 0.5, -2.5, 3, 1e-3, 2.001)
			m.Lambdas = append(m.Lambdas, l)
			nt = nt || l != 1
		}
		l := c.Lay("X", X, true)
		c.Mark(nt, "%s %v %s %s", method, m.Lambdas, l.Name, vk.M(X))
		Y := mat.NewDense(1, 1, []float64{5})
		T, TY := m.Transform(l.M, Y)
		W := vk.Apply(X, func(_, j int, v float64) float64 {
			if method == "box-cox" {
				return bc(v, m.Lambdas[j])
			}
			return yj(v, m.Lambdas[j])
		})
		c.Eq("formula", T, W, 1e-9, 1e-9)
		c.Eq("Y", TY, Y, 0, 0)
		c.Unchanged("power transformer", l)
		if method == "box-cox" { // at the image of 0, below it, and above
			Z := mat.NewDense(3, p, nil)
			WZ := mat.NewDense(3, p, nil)
			for j, l := range m.Lambdas {
				end := -2. // any value is an image for l = 0
				if l != 0 {
					end = -1 / l
				}
				for i, d := range []float64{0, -.5, .5} {
					Z.Set(i, j, end+d)
					switch b := Z.At(i, j)*l + 1; {
					case l == 0:
						WZ.Set(i, j, math.Exp(end+d))
					case b > 1e-9:
						WZ.Set(i, j, math.Pow(b, 1/l))
					case b < -1e-9 || b == 0 && l < 0:
						WZ.Set(i, j, math.NaN())
					case b == 0:
					default:
						Z.Set(i, j, 0)
						WZ.Set(i, j, 1)
					}
				}
			}
			I, _ := m.InverseTransform(Z, nil)
			c.Eq("inverse", I, WZ, 1e-9, 1e-9)
		}
	})
}

func TestFit(t *testing.T) {
	vk.Prop(t, 300, "fitted exponents on data of various shapes: no other exponent is more likely; standardized output; FitTransform = Fit then Transform; non-trivial: all", func(c *vk.C) {
		n, p := c.Size("n", 6, 25, 50), c.Size("p", 1, 3, 14)
		method := c.Pick("method", "yeo-johnson", "box-cox")
		X := gen(c, method, n, p)
		m := pp.NewPowerTransformer()
		m.Method, m.Standardize = method, c.Bool("std")
		l := c.Lay("X", X, true)
		c.Mark(true, "%s std=%v %s", method, m.Standardize, vk.M(X))
		if c.Int("used", 0, 2) == 0 { // an earlier fit on other data leaves no trace
			m.Fit(gen(c, method, c.Int("un", 4, 12), c.Int("up", 1, 4)), nil)
		}
		m.Fit(l.M, nil)
		like := func(col []float64, lm float64) float64 {
			if method == "box-cox" { // the same for any unit, up to a constant: take the one where the logarithms cancel
				ml := 0.
				for _, x := range col {
					ml += math.Log(x) / float64(len(col))
				}
				col = append([]float64(nil), col...)
				for i := range col {
					col[i] /= math.Exp(ml)
				}
			}
			tr := make([]float64, len(col))
			jac := 0.
			for i, x := range col {
				if method == "box-cox" {
					tr[i] = bc(x, lm)
					jac += math.Log(x)
				} else {
					tr[i] = yj(x, lm)
					jac += math.Copysign(math.Log1p(math.Abs(x)), x)
				}
			}
			_, v := vk.MeanVar(tr)
			return -float64(len(col))/2*math.Log(v) + (lm-1)*jac
		}
		for j := 0; j < p; j++ {
			col := vk.Col(X, j)
			best := like(col, m.Lambdas[j])
			for lm := m.Lambdas[j] - 4; lm < m.Lambdas[j]+4; lm += 0.0625 {
				if o := like(col, lm); o > best+1e-6*(1+math.Abs(best)) {
					c.Fatalf("column %d: exponent %g has log-likelihood %g, exponent %g has %g", j, m.Lambdas[j], best, lm, o)
				}
			}
		}
		T, _ := m.Transform(l.M, nil)
		for j := 0; j < p; j++ {
			w := vk.Col(vk.Apply(X, func(_, q int, v float64) float64 {
				if method == "box-cox" {
					return bc(v, m.Lambdas[q])
				}
				return yj(v, m.Lambdas[q])
			}), j)
			mean, v := vk.MeanVar(w)
			if !m.Standardize {
				mean, v = 0, 1
			}
			tol := 1e-6
			for i := range w { // what the transform rounds away next to its offset cannot come back
				tol = math.Max(tol, 1e-14*math.Abs(w[i])/math.Sqrt(v))
				w[i] = (w[i] - mean) / math.Sqrt(v)
			}
			c.EqS("transformed column", vk.Col(T, j), w, 1e-6, tol)
		}
		f := pp.NewPowerTransformer()
		f.Method, f.Standardize = method, m.Standardize
		F, _ := f.FitTransform(l.M, nil)
		c.Eq("FitTransform", F, T, 1e-9, 1e-9)
		c.EqS("exponents", f.Lambdas, m.Lambdas, 0, 0)
		c.Unchanged("power transformer", l)
	})
}
