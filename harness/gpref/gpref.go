// Package gpref generates Gaussian process kernels together with their definition.
package gpref

import (
	"math"

	k "github.com/pa-m/sklearn/gaussian_process/kernels"
	"verifharness/vk"
)

// Node is a kernel expression; its parameters are positive numbers, free ones counted in theta.
type Node struct {
	Kind       string
	P          []float64
	Free       []bool
	Lo, Hi     []float64
	NoBounds   bool
	A, B       *Node
	Exp        float64
	Stationary bool
}

// Gen draws an expression.
func Gen(c *vk.C, label string, nfeat, depth int) *Node {
	kinds := []string{"const", "white", "rbf", "ard", "dot", "ard"}
	if depth > 0 {
		kinds = append(kinds, "sum", "product", "sum", "product", "exp")
	}
	n := &Node{Kind: c.Pick(label+"kind", kinds...)}
	param := func() {
		v := c.PickF(label+"p", 1, .5, 2, .8, 1.7)
		n.P = append(n.P, v)
		if c.Int(label+"fixed", 0, 2) == 2 {
			n.Free = append(n.Free, false)
			n.Lo, n.Hi = append(n.Lo, v), append(n.Hi, v)
		} else {
			n.Free = append(n.Free, true)
			n.Lo, n.Hi = append(n.Lo, v*c.PickF(label+"lo", 1e-3, .5, 1, 1e-8)), append(n.Hi, v*c.PickF(label+"hi", 2, 1e3, 1.0001))
		}
	}
	switch n.Kind {
	case "sum", "product":
		n.A, n.B = Gen(c, label+"a", nfeat, depth-1), Gen(c, label+"b", nfeat, depth-1)
		n.Stationary = n.A.Stationary && n.B.Stationary
	case "exp":
		n.A = Gen(c, label+"a", nfeat, depth-1)
		n.Exp = c.PickF(label+"exponent", 2, 1, 3)
		n.Stationary = n.A.Stationary
	case "ard":
		for j := 0; j < nfeat; j++ {
			param()
		}
		n.Stationary = true
	case "rbf":
		param()
		n.Stationary = true
		if c.Int(label+"nobounds", 0, 4) == 4 {
			n.NoBounds = true
			n.Free[0] = false
		}
	default:
		param()
		n.Stationary = n.Kind != "dot"
	}
	return n
}

// Build makes the kernel.
func (n *Node) Build() k.Kernel {
	bd := func(i int) [2]float64 { return [2]float64{n.Lo[i], n.Hi[i]} }
	switch n.Kind {
	case "const":
		return &k.ConstantKernel{ConstantValue: n.P[0], ConstantValueBounds: bd(0)}
	case "white":
		return &k.WhiteKernel{NoiseLevel: n.P[0], NoiseLevelBounds: bd(0)}
	case "dot":
		return &k.DotProduct{Sigma0: n.P[0], Sigma0Bounds: bd(0)}
	case "rbf", "ard":
		r := &k.RBF{LengthScale: append([]float64(nil), n.P...)}
		if !n.NoBounds {
			for i := range n.P {
				r.LengthScaleBounds = append(r.LengthScaleBounds, bd(i))
			}
		}
		return r
	case "exp":
		return &k.Exponentiation{Kernel: n.A.Build(), Exponent: n.Exp}
	case "sum":
		return &k.Sum{KernelOperator: k.KernelOperator{K1: n.A.Build(), K2: n.B.Build()}}
	}
	return &k.Product{KernelOperator: k.KernelOperator{K1: n.A.Build(), K2: n.B.Build()}}
}

// Theta is the logarithm of the free parameters, with their log bounds.
func (n *Node) Theta() (t, lo, hi []float64) {
	if n.A != nil {
		t, lo, hi = n.A.Theta()
		if n.B != nil {
			t2, lo2, hi2 := n.B.Theta()
			t, lo, hi = append(t, t2...), append(lo, lo2...), append(hi, hi2...)
		}
		return
	}
	for i, v := range n.P {
		if n.Free[i] {
			t, lo, hi = append(t, math.Log(v)), append(lo, math.Log(n.Lo[i])), append(hi, math.Log(n.Hi[i]))
		}
	}
	return
}

// With returns the expression with other free parameters.
func (n *Node) With(theta []float64) *Node {
	o, rest := n.with(theta)
	if len(rest) != 0 {
		panic("theta too long")
	}
	return o
}

func (n *Node) with(theta []float64) (*Node, []float64) {
	o := *n
	if n.A != nil {
		o.A, theta = n.A.with(theta)
		if n.B != nil {
			o.B, theta = n.B.with(theta)
		}
		return &o, theta
	}
	o.P = append([]float64(nil), n.P...)
	for i := range o.P {
		if n.Free[i] {
			o.P[i], theta = math.Exp(theta[0]), theta[1:]
		}
	}
	return &o, theta
}

// Eval is the kernel of two rows, with its gradient by the free parameters' logarithms.
func (n *Node) Eval(x, y []float64) (v float64, g []float64) {
	leaf := func(dv ...float64) {
		for i, d := range dv {
			if n.Free[i] {
				g = append(g, d)
			}
		}
	}
	switch n.Kind {
	case "const":
		v = n.P[0]
		leaf(v)
	case "white":
		same := true
		for j := range x {
			if math.Abs(x[j]-y[j]) > 1e-8 {
				same = false
			}
		}
		if same {
			v = n.P[0]
		}
		leaf(v)
	case "dot":
		for j := range x {
			v += x[j] * y[j]
		}
		v += n.P[0] * n.P[0]
		leaf(2 * n.P[0] * n.P[0])
	case "rbf", "ard":
		d2 := 0.
		ds := make([]float64, len(n.P))
		for j := range x {
			l := j
			if n.Kind == "rbf" {
				l = 0
			}
			d := (x[j] - y[j]) / n.P[l]
			d2 += d * d
			ds[l] += d * d
		}
		v = math.Exp(-d2 / 2)
		for l := range ds {
			ds[l] *= v
		}
		leaf(ds...)
	case "exp":
		a, ga := n.A.Eval(x, y)
		v = math.Pow(a, n.Exp)
		for _, d := range ga {
			g = append(g, d*n.Exp*math.Pow(a, n.Exp-1))
		}
	default:
		a, ga := n.A.Eval(x, y)
		b, gb := n.B.Eval(x, y)
		if n.Kind == "sum" {
			return a + b, append(append(g, ga...), gb...)
		}
		v = a * b
		for _, d := range ga {
			g = append(g, d*b)
		}
		for _, d := range gb {
			g = append(g, d*a)
		}
	}
	return
}

// String of the expression
func (n *Node) String() string {
	s := n.Kind
	if n.A != nil {
		s += "(" + n.A.String()
		if n.B != nil {
			s += "," + n.B.String()
		}
		return s + ")"
	}
	for i, v := range n.P {
		s += " " + vk.G(v)
		if !n.Free[i] {
			s += "!"
		}
	}
	return s
}
