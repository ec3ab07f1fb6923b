// C16: regression metrics equal their definition.
package c16

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/metrics"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func TestRegressionMetrics(t *testing.T) {
	vk.Prop(t, 3000, "targets and predictions, several outputs, weights, each aggregation; non-trivial: weights or several outputs", func(c *vk.C) {
		n, q := c.Huge("n", 2, 10, 50, 1500), c.Size("q", 1, 4, 9)
		kind := c.AnyKind("kind")
		yt := c.Mat("yt", n, q, kind)
		yp := c.Mat("yp", n, q, kind)
		if c.Bool("near") {
			yp.Scale(0.01, yp)
			yp.Add(yp, yt)
		}
		if u := c.PickI("unit", 0, 0, -40, -90, 40); u != 0 {
			j := c.Int("uj", 0, q-1)
			for i := 0; i < n; i++ {
				yt.Set(i, j, math.Ldexp(yt.At(i, j), u))
				yp.Set(i, j, math.Ldexp(yp.At(i, j), u))
			}
		}
		if c.Int("const", 0, 5) == 0 {
			j, v, exact := c.Int("cj", 0, q-1), c.PickF("cv", 1, 0, .1, 1./3, -1e6), c.Bool("exact")
			for i := 0; i < n; i++ {
				yt.Set(i, j, v)
				if exact {
					yp.Set(i, j, v)
				}
			}
		}
		var w *mat.Dense
		var wd *mat.Dense
		var lw *vk.Layout
		if c.Bool("weighted") {
			wscale := c.PickF("wscale", 1, 1, 1, 1./1024, 256, 0x1p-40, 0x1p40)
			w = mat.NewDense(n, 1, nil)
			for i := 0; i < n; i++ {
				w.Set(i, 0, wscale*c.PickF("w", 1, 0.5, 2, 3, 0.25, 0))
			}
			w.Set(0, 0, wscale)
			lw = c.Lay("w", w, false)
			wd = lw.D
		}
		multi := c.Pick("multi", "", "uniform_average", "raw_values", "variance_weighted")
		lt, lp := c.Lay("yt", yt, true), c.Lay("yp", yp, true)
		c.Mark(q > 1 || w != nil, "%q true %s pred %s weights %s", multi, vk.M(yt), vk.M(yp), vk.M(w))
		wi := func(i int) float64 {
			if w == nil {
				return 1
			}
			return w.At(i, 0)
		}
		mse, mae, r2, den := make([]float64, q), make([]float64, q), make([]float64, q), make([]float64, q)
		degenerate, constant := false, 0
		for j := 0; j < q; j++ {
			sw, mean := 0., 0.
			for i := 0; i < n; i++ {
				sw += wi(i)
				mean += wi(i) * yt.At(i, j)
			}
			mean /= sw
			num := 0.
			for i := 0; i < n; i++ {
				d := yp.At(i, j) - yt.At(i, j)
				mse[j] += wi(i) * d * d / sw
				mae[j] += wi(i) * math.Abs(d) / sw
				num += wi(i) * d * d
				den[j] += wi(i) * (yt.At(i, j) - mean) * (yt.At(i, j) - mean)
			}
			r2[j] = 1 - num/den[j]
			if vk.IsConst(vk.Col(yt, j)) {
				den[j], r2[j] = 0, 0
				if num == 0 {
					r2[j] = 1
				}
				constant++
				continue
			}
			// the weights may leave nothing but equal targets
			degenerate = degenerate || den[j] <= 1e-9*mean*mean*sw
		}
		agg := func(v []float64, m string) *mat.Dense {
			if m == "raw_values" {
				return mat.NewDense(1, q, append([]float64(nil), v...))
			}
			s, d := 0., 0.
			for j := range v {
				k := 1.
				if m == "variance_weighted" && constant < q {
					k = den[j]
				}
				s += k * v[j]
				d += k
			}
			return mat.NewDense(1, 1, []float64{s / d})
		}
		m2 := multi
		if m2 == "variance_weighted" {
			m2 = ""
		}
		c.Eq("MSE", metrics.MeanSquaredError(lt.M, lp.M, wd, m2), agg(mse, m2), 1e-9, 0)
		c.Eq("MAE", metrics.MeanAbsoluteError(lt.M, lp.M, wd, m2), agg(mae, m2), 1e-9, 0)
		if !degenerate {
			c.Eq("R2", metrics.R2Score(lt.M, lp.M, wd, multi), agg(r2, multi), 1e-7, 1e-7)
		}
		c.Eq("R2 of perfect predictions", metrics.R2Score(lt.M, vk.Copy(yt), wd, ""), mat.NewDense(1, 1, []float64{1}), 0, 1e-12)
		c.Unchanged("regression metrics", lt, lp)
		if lw != nil {
			c.Unchanged("regression metrics", lw)
		}
	})
}
