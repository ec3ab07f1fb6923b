package c31

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/svm"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// solve minimizes a'Qa/2 - sum a over 0 <= a <= C, y'a = 0 by exact minimization over pairs.
func solve(K [][]float64, y []float64, C float64) float64 {
	n := len(y)
	a, g := make([]float64, n), make([]float64, n) // g = K (y a)
	obj := func() (w float64) {
		for i := range a {
			w += a[i]*y[i]*g[i]/2 - a[i]
		}
		return
	}
	prev := obj()
	for it := 0; it < 2000; it++ {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				// y_i a_i + t, y_j a_j - t
				eta := K[i][i] + K[j][j] - 2*K[i][j]
				lin := g[i] - g[j] - y[i] + y[j]
				lo, hi := -C, C
				lo, hi = math.Max(lo, math.Min(-a[i]*y[i], (C-a[i])*y[i])), math.Min(hi, math.Max(-a[i]*y[i], (C-a[i])*y[i]))
				lo, hi = math.Max(lo, -math.Max(-a[j]*y[j], (C-a[j])*y[j])), math.Min(hi, -math.Min(-a[j]*y[j], (C-a[j])*y[j]))
				t := 0.
				switch {
				case eta > 1e-12:
					t = math.Max(lo, math.Min(hi, -lin/eta))
				case lin > 0:
					t = lo
				case lin < 0:
					t = hi
				}
				if t == 0 || !(eta*t*t/2+lin*t < 0) {
					continue
				}
				a[i] += t * y[i]
				a[j] -= t * y[j]
				for k := range g {
					g[k] += t * (K[k][i] - K[k][j])
				}
			}
		}
		o := obj()
		if prev-o < 1e-10*(1+math.Abs(o)) {
			break
		}
		prev = o
	}
	return obj()
}

// Training may stop early, but over a batch of noisy linear problems the multipliers attain most of the
// optimum of the dual objective on average and most samples are classified right.
func TestQuality(t *testing.T) {
	vk.Prop(t, 2, "all", func(c *vk.C) {
		kern, C := c.Pick("kernel", "linear", "rbf"), c.PickF("C", 1, 3)
		seed := c.Seed("seed")
		mean, num, hits, total := 0., 0., 0., 0.
		for s := uint64(0); num < 40; s++ {
			r := rand.New(rand.NewSource(seed + 7919*s))
			n, p := 6+r.Intn(15), 1+r.Intn(3)
			X, Y := mat.NewDense(n, p, nil), mat.NewDense(n, 1, nil)
			w, b := make([]float64, p), r.NormFloat64()/2
			for j := range w {
				w[j] = r.NormFloat64()
			}
			y := make([]float64, n)
			pos := 0
			for i := 0; i < n; i++ {
				f := b + .2*r.NormFloat64()
				for j := 0; j < p; j++ {
					X.Set(i, j, r.NormFloat64())
					f += w[j] * X.At(i, j)
				}
				y[i] = -1
				if f > 0 {
					y[i] = 1
					pos++
					Y.Set(i, 0, 1)
				}
			}
			if pos == 0 || pos == n {
				continue
			}
			m := svm.NewSVC()
			m.Kernel, m.C, m.Tol, m.MaxIter, m.Gamma = kern, C, 1e-4, 20, .5
			m.RandomState = rand.NewSource(seed + s)
			m.Fit(X, Y)
			P := m.Predict(X, nil)
			K, al := make([][]float64, n), make([]float64, n)
			for k, i := range m.Model[0].Support {
				al[i] = m.Model[0].Alphas[k]
			}
			W := 0.
			for i := range K {
				K[i] = make([]float64, n)
				for j := range K[i] {
					a, b := X.RawRowView(i), X.RawRowView(j)
					d := 0.
					for k := range a {
						if kern == "linear" {
							K[i][j] += a[k] * b[k]
						} else {
							d += (a[k] - b[k]) * (a[k] - b[k])
						}
					}
					if kern == "rbf" {
						K[i][j] = math.Exp(-.5 * d)
					}
					W += al[i] * al[j] * y[i] * y[j] * K[i][j] / 2
				}
				W -= al[i]
				total++
				if (P.At(i, 0) > 0) == (y[i] > 0) {
					hits++
				}
			}
			mean += W / solve(K, y, C)
			num++
		}
		mean /= num
		c.Mark(true, "%s C=%g seed=%d: attained %.3f of the optimum on average of %g fits, accuracy %.3f", kern, C, seed, mean, num, hits/total)
		if mean < .95 {
			c.Fatalf("%s C=%g: on average %g of the optimum of the objective is attained", kern, C, mean)
		}
		if hits/total < .82 {
			c.Fatalf("%s C=%g: %g of the training samples are classified right", kern, C, hits/total)
		}
	})
}
