// C14: classification metrics equal their definition by counting.
package c14

import (
	"testing"

	"github.com/pa-m/sklearn/metrics"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func gen(c *vk.C) (yt, yp *mat.Dense, w []float64, lt, lp *vk.Layout) {
	n := c.Huge("n", 1, 12, 60, 3000)
	k := c.Huge("classes", 1, 5, 12, 100)
	step := c.PickF("step", 1, -2, 0.5, .1, 1e-7, 1e9)
	yt, yp = mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
	acc := c.Int("acc", 0, 3)
	draw := c.Int
	if n > 60 {
		r := c.Rnd("cells")
		draw = func(_ string, lo, hi int) int { return lo + r.Intn(hi-lo+1) }
		if c.Bool("rare") {
			// one class is hardly ever predicted
			draw = func(l string, lo, hi int) int {
				if l == "p" && r.Intn(n) > 2 {
					return lo
				}
				return lo + r.Intn(hi-lo+1)
			}
			acc = 0
		}
	}
	for i := 0; i < n; i++ {
		a, b := draw("t", 0, k), draw("p", 0, k)
		if draw("same", 0, 3) < acc {
			b = a
		}
		yt.Set(i, 0, float64(a)*step-1)
		yp.Set(i, 0, float64(b)*step-1)
	}
	if c.Bool("weighted") {
		wscale := c.PickF("wscale", 1, 1, 1, 1./1024, 256, 0x1p-40, 0x1p40)
		for i := 0; i < n; i++ {
			w = append(w, wscale*c.PickF("w", 1, 0.5, 2, 3, 0.25, 0))
		}
		w[c.Int("positive", 0, n-1)] = wscale
	}
	return yt, yp, w, c.Lay("yt", yt, false), c.Lay("yp", yp, false)
}

func weight(w []float64, i int) float64 {
	if w == nil {
		return 1
	}
	return w[i]
}

func TestConfusionMatrix(t *testing.T) {
	vk.Prop(t, 1500, "true and predicted labels of any values, labels missing on either side, weights; non-trivial: an error and a hit", func(c *vk.C) {
		yt, yp, w, lt, lp := gen(c)
		n, _ := yt.Dims()
		u := vk.Uniq(append(vk.Col(yt, 0), vk.Col(yp, 0)...))
		at := map[float64]int{}
		for i, v := range u {
			at[v] = i
		}
		W := mat.NewDense(len(u), len(u), nil)
		hit, miss := false, false
		for i := 0; i < n; i++ {
			a, b := at[yt.At(i, 0)], at[yp.At(i, 0)]
			W.Set(a, b, W.At(a, b)+weight(w, i))
			hit = hit || a == b
			miss = miss || a != b
		}
		c.Mark(hit && miss, "true %s pred %s weights %v", vk.M(yt), vk.M(yp), w)
		c.Eq("confusion matrix", metrics.ConfusionMatrix(lt.D, lp.D, w), W, 1e-12, 1e-12)
		c.Unchanged("confusion matrix", lt, lp)
	})
}

func TestPrecisionRecallF(t *testing.T) {
	vk.Prop(t, 2500, "true and predicted labels, each average, each beta, per class, weights; non-trivial: an error and a hit", func(c *vk.C) {
		yt, yp, w, lt, lp := gen(c)
		n, _ := yt.Dims()
		u := vk.Uniq(append(vk.Col(yt, 0), vk.Col(yp, 0)...))
		beta := c.PickF("beta", 1, 0.5, 2, 3, 0, 10)
		type prfs struct{ p, r, f, s float64 }
		var per []prfs
		var TP, T, P float64
		mk := func(tp, tr, pr float64) (o prfs) {
			if pr > 0 {
				o.p = tp / pr
			}
			if tr > 0 {
				o.r = tp / tr
			}
			if beta*beta*o.p+o.r > 0 {
				o.f = (1 + beta*beta) * o.p * o.r / (beta*beta*o.p + o.r)
			}
			o.s = tr
			return
		}
		for _, k := range u {
			var tp, tr, pr float64
			for i := 0; i < n; i++ {
				a, b := yt.At(i, 0) == k, yp.At(i, 0) == k
				if a {
					tr += weight(w, i)
				}
				if b {
					pr += weight(w, i)
				}
				if a && b {
					tp += weight(w, i)
				}
			}
			per = append(per, mk(tp, tr, pr))
			TP, T, P = TP+tp, T+tr, P+pr
		}
		c.Mark(TP > 0 && TP < T, "beta %g true %s pred %s weights %v", beta, vk.M(yt), vk.M(yp), w)
		cmp := func(what string, want prfs, p, r, f float64) {
			c.EqF(what+" precision", p, want.p, 1e-9, 1e-12)
			c.EqF(what+" recall", r, want.r, 1e-9, 1e-12)
			c.EqF(what+" fscore", f, want.f, 1e-9, 1e-12)
		}
		for k := range per {
			p, r, f, s := metrics.PrecisionRecallFScoreSupport(lt.D, lp.D, beta, nil, k, c.Pick("avg", "macro", "micro", "weighted"), nil, w)
			cmp("class", per[k], p, r, f)
			c.EqF("support", s, per[k].s, 1e-9, 1e-12)
		}
		for _, avg := range []string{"macro", "micro", "weighted"} {
			var want prfs
			switch avg {
			case "micro":
				want = mk(TP, T, P)
			default:
				d := 0.
				for _, o := range per {
					q := 1.
					if avg == "weighted" {
						q = o.s
					}
					want.p += q * o.p
					want.r += q * o.r
					want.f += q * o.f
					d += q
				}
				want.p, want.r, want.f = want.p/d, want.r/d, want.f/d
			}
			p, r, f, _ := metrics.PrecisionRecallFScoreSupport(lt.D, lp.D, beta, nil, -1, avg, nil, w)
			cmp(avg, want, p, r, f)
			c.EqF(avg+" PrecisionScore", metrics.PrecisionScore(lt.D, lp.D, avg, w), want.p, 1e-9, 1e-12)
			c.EqF(avg+" RecallScore", metrics.RecallScore(lt.D, lp.D, avg, w), want.r, 1e-9, 1e-12)
			c.EqF(avg+" FBetaScore", metrics.FBetaScore(lt.D, lp.D, beta, avg, w), want.f, 1e-9, 1e-12)
			if beta == 1 {
				c.EqF(avg+" F1Score", metrics.F1Score(lt.D, lp.D, avg, w), want.f, 1e-9, 1e-12)
			}
		}
		c.Unchanged("precision/recall", lt, lp)
	})
}

func TestAccuracy(t *testing.T) {
	vk.Prop(t, 1500, "one or several outputs, weights, normalized or not; non-trivial: a hit and an error", func(c *vk.C) {
		n, q := c.Size("n", 1, 12, 60), c.Huge("q", 1, 4, 9, 100)
		yt := c.Mat("yt", n, q, vk.Grid)
		yp := vk.Copy(yt)
		for i := 0; i < n; i++ {
			if c.Bool("err") {
				j := c.Int("ej", 0, q-1)
				if c.Bool("elast") {
					j = q - 1 - j/4
				}
				yp.Set(i, j, yp.At(i, j)+c.PickF("ed", 0, 1, .25, -1, 1e-9))
			}
		}
		var w *mat.Dense
		var lw *vk.Layout
		if c.Bool("weighted") {
			wscale := c.PickF("wscale", 1, 1, 1, 1./1024, 256, 0x1p-40, 0x1p40)
			w = mat.NewDense(n, 1, nil)
			for i := 0; i < n; i++ {
				w.Set(i, 0, wscale*c.PickF("w", 1, 0.5, 2, 3, 0.25, 0))
			}
			w.Set(c.Int("positive", 0, n-1), 0, wscale)
			lw = c.Lay("w", w, false)
		}
		N, D := 0., 0.
		for i := 0; i < n; i++ {
			wi := 1.
			if w != nil {
				wi = w.At(i, 0)
			}
			D += wi
			if vk.Diff(vk.Rows(yt, i), vk.Rows(yp, i), 0, 0) == "" {
				N += wi
			}
		}
		lt, lp := c.Lay("yt", yt, true), c.Lay("yp", yp, true)
		c.Mark(N > 0 && N < D, "true %s pred %s weights %s", vk.M(yt), vk.M(yp), vk.M(w))
		var wd *mat.Dense
		if lw != nil {
			wd = lw.D
		}
		c.EqF("normalized", metrics.AccuracyScore(lt.M, lp.M, true, wd), N/D, 1e-12, 1e-12)
		c.EqF("counted", metrics.AccuracyScore(lt.M, lp.M, false, wd), N, 1e-12, 1e-12)
		c.Unchanged("accuracy", lt, lp)
	})
}
