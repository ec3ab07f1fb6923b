// C15: ranking metrics equal pair counting / threshold sweeping.
package c15

import (
	"io"
	"log"
	"math"
	"os"
	"testing"

	"github.com/pa-m/sklearn/metrics"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func gen(c *vk.C, n, q int, both bool) (yt, ys *mat.Dense, w []float64) {
	yt, ys = mat.NewDense(n, q, nil), mat.NewDense(n, q, nil)
	ties := c.Int("levels", 2, 12)
	sscale, soff := c.PickF("sscale", .25, .25, .25, 0x1p-36, 0x1p30), c.PickF("soff", 0, 0, .5)
	for i := 0; i < n; i++ {
		for j := 0; j < q; j++ {
			yt.Set(i, j, float64(c.Int("t", 0, 1)))
			ys.Set(i, j, float64(c.Int("s", -ties, ties))*sscale+soff)
		}
	}
	if both {
		for j := 0; j < q; j++ {
			k := c.Int("pos", 0, n-1)
			yt.Set(k, j, 1)
			yt.Set((k+1)%n, j, 0)
		}
	}
	if c.Bool("weighted") {
		wscale := c.PickF("wscale", 1, 1, 1, 1./1024, 256, 0x1p-40, 0x1p40)
		for i := 0; i < n; i++ {
			w = append(w, wscale*c.PickF("w", 1, 0.5, 2, 3, 0.25))
		}
		if q == 1 && both && c.Bool("zeros") { // never all of a class, nor all of the highest scores
			keep := map[float64]bool{}
			top := vk.Quantile(1, vk.Col(ys, 0))
			for i := range w {
				if l := yt.At(i, 0); !keep[l] || ys.At(i, 0) == top {
					keep[l] = true
				} else if c.Bool("zero") {
					w[i] = 0
				}
			}
		}
	}
	return
}

func weight(w []float64, i int) float64 {
	if w == nil {
		return 1
	}
	return w[i]
}

// auc by counting pairs: P(score of a positive > score of a negative), ties half
func auc(t, s, w []float64) float64 {
	num, den := 0., 0.
	for i := range t {
		for j := range t {
			if t[i] == 1 && t[j] != 1 {
				x := weight(w, i) * weight(w, j)
				den += x
				if s[i] > s[j] {
					num += x
				} else if s[i] == s[j] {
					num += x / 2
				}
			}
		}
	}
	return num / den
}

// ap by sweeping the distinct thresholds downwards
func ap(t, s, w []float64) float64 {
	u := vk.Uniq(s)
	tot := 0.
	for i := range t {
		if t[i] == 1 {
			tot += weight(w, i)
		}
	}
	out, last := 0., 0.
	for k := len(u) - 1; k >= 0; k-- {
		tp, all := 0., 0.
		for i := range s {
			if s[i] >= u[k] {
				all += weight(w, i)
				if t[i] == 1 {
					tp += weight(w, i)
				}
			}
		}
		out += (tp/tot - last) * tp / all
		last = tp / tot
	}
	return out
}

func TestROC(t *testing.T) {
	vk.Prop(t, 2000, "binary labels (any positive label), scores with ties, weights; non-trivial: ties or weights", func(c *vk.C) {
		n := c.Size("n", 2, 12, 60)
		yt, ys, w := gen(c, n, 1, true)
		pos := c.PickF("poslabel", 1, 2, -1)
		neg := c.PickF("neglabel", 0, 5)
		lab := vk.Apply(yt, func(_, _ int, v float64) float64 {
			if v == 1 {
				return pos
			}
			return neg
		})
		u := vk.Uniq(vk.Col(ys, 0))
		c.Mark(len(u) < n || w != nil, "labels %s scores %s weights %v", vk.M(lab), vk.M(ys), w)
		lt, ls := c.Lay("yt", lab, false), c.Lay("ys", ys, false)
		fpr, tpr, th := metrics.ROCCurve(lt.D, ls.D, pos, w)
		if len(fpr) != len(tpr) || len(fpr) != len(th) || len(th) == 0 {
			c.Fatalf("lengths %d %d %d", len(fpr), len(tpr), len(th))
		}
		P, N := 0., 0.
		for i := 0; i < n; i++ {
			if yt.At(i, 0) == 1 {
				P += weight(w, i)
			} else {
				N += weight(w, i)
			}
		}
		for k := range th {
			if k > 0 && !(th[k] < th[k-1]) {
				c.Fatalf("thresholds not decreasing: %v", th)
			}
			tp, fp := 0., 0.
			for i := 0; i < n; i++ {
				if ys.At(i, 0) >= th[k] {
					if yt.At(i, 0) == 1 {
						tp += weight(w, i)
					} else {
						fp += weight(w, i)
					}
				}
			}
			c.EqF("tpr", tpr[k], tp/P, 1e-9, 1e-12)
			c.EqF("fpr", fpr[k], fp/N, 1e-9, 1e-12)
		}
		// every distinct score is a threshold; at most one more, above them all
		seen := map[float64]bool{}
		for _, v := range th {
			seen[v] = true
		}
		for _, v := range u {
			if !seen[v] {
				c.Fatalf("score %g is not a threshold: %v", v, th)
			}
		}
		if len(th) > len(u)+1 || fpr[0] != 0 {
			c.Fatalf("thresholds %v fpr %v", th, fpr)
		}
		c.EqF("end tpr", tpr[len(tpr)-1], 1, 1e-9, 0)
		c.EqF("end fpr", fpr[len(fpr)-1], 1, 1e-9, 0)
		c.EqF("area", metrics.AUC(fpr, tpr), auc(vk.Col(yt, 0), vk.Col(ys, 0), w), 1e-9, 1e-9)
		c.EqF("ROCAUCScore", metrics.ROCAUCScore(yt, ls.D, c.Pick("avg", "", "macro", "micro", "weighted"), w), auc(vk.Col(yt, 0), vk.Col(ys, 0), w), 1e-9, 1e-9)
		c.Unchanged("ROC", lt, ls)
	})
}

func TestPrecisionRecallCurve(t *testing.T) {
	vk.Prop(t, 2000, "binary labels, scores with ties, weights; non-trivial: ties or weights", func(c *vk.C) {
		n := c.Size("n", 2, 12, 60)
		yt, ys, w := gen(c, n, 1, true)
		u := vk.Uniq(vk.Col(ys, 0))
		c.Mark(len(u) < n || w != nil, "labels %s scores %s weights %v", vk.M(yt), vk.M(ys), w)
		lt, ls := c.Lay("yt", yt, false), c.Lay("ys", ys, false)
		pr, rc, th := metrics.PrecisionRecallCurve(lt.D, ls.D, 1, w)
		if len(pr) != len(rc) || len(pr) != len(th)+1 {
			c.Fatalf("lengths %d %d %d", len(pr), len(rc), len(th))
		}
		if pr[len(pr)-1] != 1 || rc[len(rc)-1] != 0 {
			c.Fatalf("last point %g %g", pr[len(pr)-1], rc[len(rc)-1])
		}
		P := 0.
		for i := 0; i < n; i++ {
			if yt.At(i, 0) == 1 {
				P += weight(w, i)
			}
		}
		full := 0
		for k := range th {
			if k > 0 && !(th[k] > th[k-1]) {
				c.Fatalf("thresholds not increasing: %v", th)
			}
			tp, all := 0., 0.
			for i := 0; i < n; i++ {
				if ys.At(i, 0) >= th[k] {
					all += weight(w, i)
					if yt.At(i, 0) == 1 {
						tp += weight(w, i)
					}
				}
			}
			c.EqF("precision", pr[k], tp/all, 1e-9, 1e-12)
			c.EqF("recall", rc[k], tp/P, 1e-9, 1e-12)
			if tp == P {
				full++
			}
		}
		if full != 1 {
			c.Fatalf("%d thresholds with full recall (want the highest one only): %v %v", full, rc, th)
		}
		for k, v := range u { // all scores from the full-recall threshold up
			if v >= th[0] && len(u)-k != len(th) && v == th[0] {
				c.Fatalf("thresholds %v miss scores of %v", th, u)
			}
		}
		c.EqF("average precision", metrics.AveragePrecisionScore(lt.D, ls.D, "macro", w), ap(vk.Col(yt, 0), vk.Col(ys, 0), w), 1e-9, 1e-9)
		c.Unchanged("precision-recall curve", lt, ls)
	})
}

func TestMultilabelAverages(t *testing.T) {
	vk.Prop(t, 2000, "label-indicator matrices, each average, weights; non-trivial: all", func(c *vk.C) {
		n, q := c.Size("n", 2, 10, 30), c.Huge("q", 2, 5, 8, 90)
		yt, ys, w := gen(c, n, q, true)
		avg := c.Pick("avg", "macro", "", "micro", "weighted", "samples")
		if avg == "samples" { // each row needs a positive and a negative
			for i := 0; i < n; i++ {
				k := c.Int("rp", 0, q-1)
				yt.Set(i, k, 1)
				yt.Set(i, (k+1)%q, 0)
			}
			// and each column must stay two-valued so that the matrix is recognized as an indicator
		}
		c.Mark(true, "%s labels %s scores %s weights %v", avg, vk.M(yt), vk.M(ys), w)
		lt, ls := c.Lay("yt", yt, false), c.Lay("ys", ys, false)
		for name, f := range map[string]func(t, s, w []float64) float64{"auc": auc, "ap": ap} {
			var want float64
			switch avg {
			case "micro":
				var a, b, ww []float64
				for i := 0; i < n; i++ {
					for j := 0; j < q; j++ {
						a = append(a, yt.At(i, j))
						b = append(b, ys.At(i, j))
						ww = append(ww, weight(w, i))
					}
				}
				want = f(a, b, ww)
			case "samples":
				N, D := 0., 0.
				for i := 0; i < n; i++ {
					N += weight(w, i) * f(vk.Row(yt, i), vk.Row(ys, i), nil)
					D += weight(w, i)
				}
				want = N / D
			default:
				N, D := 0., 0.
				for j := 0; j < q; j++ {
					k := 1.
					if avg == "weighted" {
						k = 0
						for i := 0; i < n; i++ {
							k += weight(w, i) * yt.At(i, j)
						}
					}
					N += k * f(vk.Col(yt, j), vk.Col(ys, j), w)
					D += k
				}
				want = N / D
			}
			got := 0.
			if name == "auc" {
				got = metrics.ROCAUCScore(lt.D, ls.D, avg, w)
			} else {
				got = metrics.AveragePrecisionScore(lt.D, ls.D, avg, w)
			}
			c.EqF(name+" "+avg, got, want, 1e-9, 1e-9)
		}
		c.Unchanged("averages", lt, ls)
	})
}

func TestAUC(t *testing.T) {
	vk.Prop(t, 800, "trapezoids over abscissae, mostly increasing; non-trivial: at least 2 points, not starting at 0", func(c *vk.C) {
		n := c.Size("n", 1, 12, 40)
		x, y := make([]float64, n), make([]float64, n)
		for i := range x {
			d := c.PickF("d", 0, 0.25, 0.5, 1)
			if c.Int("back", 0, 19) == 0 {
				d = -d
			}
			if i > 0 {
				x[i] = x[i-1] + d
			} else {
				x[i] = d
			}
			y[i] = c.Float("y", -2, 2)
		}
		c.Mark(x[0] != 0, "%v %v", x, y)
		want := 0.
		for i := 1; i < n; i++ {
			want += (x[i] - x[i-1]) * (y[i] + y[i-1]) / 2
		}
		x0 := append([]float64(nil), x...)
		c.EqF("area", metrics.AUC(x, y), want, 1e-10, 1e-10)
		c.EqS("abscissae", x, x0, 0, 0)
		_ = math.Pi
	})
}

func TestROCOneClass(t *testing.T) {
	log.SetOutput(io.Discard)
	defer log.SetOutput(os.Stderr)
	vk.Prop(t, 400, "labels all positive or all negative; non-trivial: ties or weights", func(c *vk.C) {
		n := c.Size("n", 1, 12, 60)
		_, ys, w := gen(c, n, 1, false)
		only := c.PickF("only", 1, 0)
		yt := mat.NewDense(n, 1, nil)
		for i := 0; i < n; i++ {
			yt.Set(i, 0, only)
		}
		tot := 0.
		for i := 0; i < n; i++ {
			tot += weight(w, i)
		}
		if !(tot > 0) {
			c.Skip()
		}
		u := vk.Uniq(vk.Col(ys, 0))
		c.Mark(len(u) < n || w != nil, "all %g scores %s weights %v", only, vk.M(ys), w)
		lt, ls := c.Lay("yt", yt, false), c.Lay("ys", ys, false)
		fpr, tpr, th := metrics.ROCCurve(lt.D, ls.D, 1, w)
		there, missing := tpr, fpr
		if only == 0 {
			there, missing = fpr, tpr
		}
		if len(fpr) != len(th) || len(tpr) != len(th) {
			c.Fatalf("lengths %d %d %d", len(fpr), len(tpr), len(th))
		}
		for k := range th {
			if !math.IsNaN(missing[k]) {
				c.Fatalf("the missing class has rate %g", missing[k])
			}
			s := 0.
			for i := 0; i < n; i++ {
				if ys.At(i, 0) >= th[k] {
					s += weight(w, i)
				}
			}
			c.EqF("rate of the class that is there", there[k], s/tot, 1e-9, 1e-12)
		}
	})
}
