// C04: first-order optimizers follow their update recurrences.
package c04

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// model of one optimizer over one matrix of parameters
type model struct {
	name                                      string
	step, mom, clip, gamma, eps, beta1, beta2 float64
	t                                         int
	prev, G, U, m, v                          *mat.Dense
}

func (o *model) update(g *mat.Dense) *mat.Dense {
	r, c := g.Dims()
	if o.t == 0 {
		z := func(v float64) *mat.Dense {
			d := mat.NewDense(r, c, nil)
			for i := range d.RawMatrix().Data {
				d.RawMatrix().Data[i] = v
			}
			return d
		}
		o.prev, o.G, o.U, o.m, o.v = z(0), z(o.eps), z(1), z(0), z(0)
	}
	o.t++
	t := float64(o.t)
	up := mat.NewDense(r, c, nil)
	for j := 0; j < c; j++ {
		norm := mat.Norm(mat.NewVecDense(r, vk.Col(g, j)), 2)
		f := 1.
		if o.clip > 0 && norm > o.clip {
			f = o.clip / norm
		}
		for i := 0; i < r; i++ {
			x := g.At(i, j) * f
			var u float64
			switch o.name {
			case "rmsprop":
				e := o.step
				if o.t > 1 && math.Abs(o.G.At(i, j)) > 1 {
					e /= math.Sqrt(o.G.At(i, j) + o.eps)
				}
				u = -e * x
				o.G.Set(i, j, o.gamma*o.G.At(i, j)+(1-o.gamma)*x*x)
			case "adagrad":
				e := o.step
				if o.t > 1 {
					e /= math.Sqrt(o.G.At(i, j)) + o.eps
				}
				u = -e * x
				o.G.Set(i, j, o.G.At(i, j)+x*x)
			case "adadelta":
				o.G.Set(i, j, o.gamma*o.G.At(i, j)+(1-o.gamma)*x*x)
				e := o.step * 100 / (100 + t)
				if o.t > 1 {
					e = math.Sqrt(o.U.At(i, j)) / math.Sqrt(o.G.At(i, j)+o.eps)
				}
				u = -e * x
				o.U.Set(i, j, o.gamma*o.U.At(i, j)+(1-o.gamma)*u*u)
			case "adam":
				o.m.Set(i, j, o.beta1*o.m.At(i, j)+(1-o.beta1)*x)
				o.v.Set(i, j, o.beta2*o.v.At(i, j)+(1-o.beta2)*x*x)
				mh := o.m.At(i, j) / (1 - math.Pow(o.beta1, t))
				vh := o.v.At(i, j) / (1 - math.Pow(o.beta2, t))
				u = -o.step * mh / (math.Sqrt(vh) + o.eps)
			default:
				u = -o.step * 100 / (100 + t) / math.Sqrt(t) * x
			}
			if o.mom > 0 {
				u += o.mom * o.prev.At(i, j)
			}
			up.Set(i, j, u)
		}
	}
	o.prev = vk.Copy(up)
	return up
}

func TestRecurrence(t *testing.T) {
	vk.Prop(t, 3000, "sequences of gradients fed to each optimizer with drawn step size, momentum, clipping, decay; non-trivial: at least two steps with a non-zero gradient", func(c *vk.C) {
		name := c.Pick("name", "sgd", "adagrad", "rmsprop", "adadelta", "adam")
		var s *base.SGDOptimizer
		switch c.Int("ctor", 0, 2) {
		case 0:
			s = base.NewOptimizer(name).(*base.SGDOptimizer)
		case 1:
			s = base.NewSolver(name)().(*base.SGDOptimizer)
		default:
			s = base.GOMethodCreators[name]().(*base.SGDOptimizer)
		}
		m := &model{name: name}
		// documented defaults of each variant
		switch name {
		case "sgd":
			m.step, m.mom, m.gamma, m.eps = 1e-4, .9, .9, 1e-8
		case "adagrad":
			m.step, m.gamma, m.eps, m.clip = .5, .9, 1e-8, 10
		case "rmsprop":
			m.step, m.gamma, m.eps = .05, .9, 1e-8
		case "adadelta":
			m.step, m.gamma, m.eps = 1e-4, .9, 1e-8
		case "adam":
			m.step, m.beta1, m.beta2, m.eps = .5, .9, .999, 1e-8
		}
		if c.Bool("custom") {
			m.step = c.PickF("step", .001, .1, 1, 2.5)
			m.mom = c.PickF("mom", 0, 0, .5, .9)
			m.clip = c.PickF("clip", 0, 0, 1, 5, 100)
			m.gamma = c.PickF("gamma", .5, .9, .99)
			m.eps = c.PickF("eps", 1e-8, 1e-4)
			m.beta1 = c.PickF("beta1", 0, .5, .9)
			m.beta2 = c.PickF("beta2", .9, .999)
			s.StepSize, s.Momentum, s.GradientClipping, s.RMSPropGamma, s.Epsilon, s.Beta1, s.Beta2 = m.step, m.mom, m.clip, m.gamma, m.eps, m.beta1, m.beta2
		}
		r, cols := c.Size("r", 1, 4, 9), c.Size("c", 1, 3, 8)
		theta := c.Mat("theta", r, cols, vk.Unif)
		want := vk.Copy(theta)
		direct := c.Bool("direct") // GetUpdate instead of UpdateParams
		if !direct {
			s.SetTheta(theta)
		}
		n := c.Size("steps", 1, 12, 400)
		nz := 0
		rnd := c.Rnd("grads")
		for k := 0; k < n; k++ {
			g := mat.NewDense(r, cols, nil)
			scale := []float64{0, .01, 1, 1, 10, 1000}[rnd.Intn(6)]
			for i := range g.RawMatrix().Data {
				g.RawMatrix().Data[i] = scale * rnd.NormFloat64()
			}
			if scale > 0 {
				nz++
			}
			l := vk.NewLayout([]string{"compact", "window", "generic"}[rnd.Intn(3)], g)
			u := m.update(g)
			if direct {
				got := mat.NewDense(r, cols, nil)
				s.GetUpdate(got, l.M)
				c.Eq(name+" update", got, u, 1e-9, 1e-12)
			} else {
				if rnd.Intn(12) == 0 { // other parameters, same state
					theta = vk.Copy(theta)
					s.SetTheta(theta)
				}
				want.Add(want, u)
				s.UpdateParams(l.M)
				c.Eq(name+" parameters", s.GetTheta(), want, 1e-9, 1e-9)
				if s.GetTheta() != theta {
					c.Fatalf("parameters are not updated in place")
				}
			}
			c.Unchanged(name, l)
			if s.GetTimeStep() != uint64(k+1) {
				c.Fatalf("time step %d after %d updates", s.GetTimeStep(), k+1)
			}
		}
		c.Mark(nz >= 2, "%s custom=%v direct=%v steps=%d step=%g mom=%g clip=%g theta0=%s", name, s.StepSize, direct, n, m.step, m.mom, m.clip, vk.M(theta))
	})
}

func TestActivations(t *testing.T) {
	vk.Prop(t, 3000, "activation functions against their definitions and numeric derivatives; non-trivial: a point away from the kink at 0", func(c *vk.C) {
		name := c.Pick("name", "identity", "logistic", "tanh", "relu")
		x := c.Float("x", -6, 6)
		if c.Int("far", 0, 4) == 0 {
			x *= c.PickF("by", 5, 20, 100)
		}
		c.Mark(math.Abs(x) > 1e-3, "%s x=%v", name, x)
		var a base.Activation
		var want float64
		switch name {
		case "identity":
			a, want = base.Identity{}, x
		case "logistic":
			a, want = base.Logistic{}, 1/(1+math.Exp(-x))
		case "tanh":
			a, want = base.Tanh{}, -math.Expm1(-2*math.Abs(x))/(1+math.Exp(-2*math.Abs(x)))
			if x < 0 {
				want = -want
			}
		case "relu":
			a, want = base.ReLU{}, math.Max(x, 0)
		}
		c.EqF(name, a.F(x), want, 1e-9, 0)
		if math.Abs(x) > 1e-3 {
			h := 1e-5
			num := (a.F(x+h) - a.F(x-h)) / (2 * h)
			c.EqF(name+" derivative", a.Fprime(a.F(x)), num, 1e-5, 1e-7)
		}
	})
}
