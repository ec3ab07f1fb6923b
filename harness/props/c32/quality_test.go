package c32

import (
	"math"
	"sort"
	"testing"

	"github.com/pa-m/sklearn/svm"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// exact SMO on dual: min 1/2 a'Ka - y'a + eps|a|, sum a=0, |a|<=C
func solve(K [][]float64, y []float64, C, eps float64) float64 {
	n := len(y)
	a := make([]float64, n)
	g := make([]float64, n) // K a
	obj := func() float64 {
		w := 0.
		for i := range a {
			w += a[i]*g[i]/2 - y[i]*a[i] + eps*math.Abs(a[i])
		}
		return w
	}
	prev := obj()
	for it := 0; it < 2000; it++ {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				eta := K[i][i] + K[j][j] - 2*K[i][j]
				// move t: a_i+t, a_j-t
				phi := func(t float64) float64 {
					return eta*t*t/2 + t*(g[i]-g[j]-y[i]+y[j]) + eps*(math.Abs(a[i]+t)+math.Abs(a[j]-t))
				}
				lo, hi := math.Max(-C-a[i], a[j]-C), math.Min(C-a[i], a[j]+C)
				// candidates: breakpoints, bounds, stationary points in each sign region
				c := []float64{0, lo, hi, -a[i], a[j]}
				if eta > 1e-12 {
					for _, s := range []float64{-2, 0, 2} {
						c = append(c, -(g[i]-g[j]-y[i]+y[j]+s*eps)/eta)
					}
				}
				bt, bv := 0., phi(0)
				for _, t := range c {
					if t < lo || t > hi {
						continue
					}
					if v := phi(t); v < bv-1e-15 {
						bt, bv = t, v
					}
				}
				if bt != 0 {
					a[i] += bt
					a[j] -= bt
					for k := range g {
						g[k] += bt * (K[k][i] - K[k][j])
					}
				}
			}
		}
		o := obj()
		if prev-o < 1e-10*(1+math.Abs(o)) {
			break
		}
		prev = o
	}
	return obj()
}

// A single fit may get stuck, but over a batch of noisy linear problems the multipliers attain most of
// the optimum of the dual objective on average, and the predictions explain most of the variance.
func TestQuality(t *testing.T) {
	vk.Prop(t, 2, "all", func(c *vk.C) {
		kern, C := c.Pick("kernel", "linear", "rbf"), c.PickF("C", 1, 3)
		seed, outputs := c.Seed("seed"), c.Int("outputs", 1, 2)
		mean, num := 0., 0.
		var scores []float64
		for s := uint64(0); num < 40; s++ {
			r := rand.New(rand.NewSource(seed + 7919*s))
			n, p := 5+r.Intn(15), 1+r.Intn(3)
			X, Y := mat.NewDense(n, p, nil), mat.NewDense(n, outputs, nil)
			for o := 0; o < outputs; o++ {
				w, b := make([]float64, p), r.NormFloat64()
				for j := range w {
					w[j] = r.NormFloat64()
				}
				for i := 0; i < n; i++ {
					f := b + .05*r.NormFloat64()
					for j := 0; j < p; j++ {
						if o == 0 {
							X.Set(i, j, r.NormFloat64())
						}
						f += w[j] * X.At(i, j)
					}
					Y.Set(i, o, f)
				}
			}
			m := svm.NewSVR()
			m.Kernel, m.C, m.Epsilon, m.Tol, m.MaxIter, m.Gamma = kern, C, .1, 1e-4, 20, .5
			m.RandomState = rand.NewSource(seed + s)
			m.Fit(X, Y)
			P := m.Predict(X, nil)
			for o := 0; o < outputs; o++ {
				y, K, al := vk.Col(Y, o), make([][]float64, n), make([]float64, n)
				for k, i := range m.Model[o].Support {
					al[i] = m.Model[o].Alphas[k]
				}
				W := 0.
				for i := range K {
					K[i] = make([]float64, n)
					for j := range K[i] {
						a, b := X.RawRowView(i), X.RawRowView(j)
						d := 0.
						for k := range a {
							if kern == "linear" {
								K[i][j] += a[k] * b[k]
							} else {
								d += (a[k] - b[k]) * (a[k] - b[k])
							}
						}
						if kern == "rbf" {
							K[i][j] = math.Exp(-.5 * d)
						}
						W += al[i] * al[j] * K[i][j] / 2
					}
					W += .1*math.Abs(al[i]) - y[i]*al[i]
				}
				if opt := solve(K, y, C, .1); opt < -.01 {
					mean += W / opt
					num++
				}
				my, vy := vk.MeanVar(y)
				_ = my
				e := 0.
				for i := range y {
					e += (P.At(i, o) - y[i]) * (P.At(i, o) - y[i]) / float64(n)
				}
				scores = append(scores, 1-e/vy)
			}
		}
		mean /= num
		sort.Float64s(scores)
		med := scores[len(scores)/2]
		c.Mark(true, "%s C=%g outputs=%d seed=%d: attained %.3f of the optimum on average of %g fits, median R2 %.3f", kern, C, outputs, seed, mean, num, med)
		if mean < .65 {
			c.Fatalf("%s C=%g: on average %g of the optimum of the objective is attained", kern, C, mean)
		}
		if med < .7 {
			c.Fatalf("%s C=%g: median R2 on the training data is %g", kern, C, med)
		}
	})
}
