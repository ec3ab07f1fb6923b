// C18: nearest-neighbour predictors vote / average over the true neighbours; nearest centroid picks the nearest class centre.
package c18

import (
	"math"
	"sort"
	"testing"

	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func dist(a, b []float64, metric string) float64 {
	s := 0.
	for j := range a {
		d := math.Abs(a[j] - b[j])
		if metric == "manhattan" {
			s += d
		} else {
			s += d * d
		}
	}
	if metric == "manhattan" {
		return s
	}
	return math.Sqrt(s)
}

type prob struct {
	X, Y, Q    *mat.Dense
	metric     string
	algo, wgt  string
	k          int
	n, q, p, o int
}

func gen(c *vk.C, classes bool) prob {
	var g prob
	g.n, g.p, g.o = c.Size("n", 1, 12, 60), c.Huge("p", 1, 4, 9, 100), c.Huge("o", 1, 3, 5, 100)
	g.q = c.Size("q", 1, 5, 30)
	kind := c.Pick("kind", vk.Grid, vk.Unif, vk.Gauss, vk.Gauss, vk.Scaled)
	g.X = c.Mat("X", g.n, g.p, kind)
	g.Q = c.Mat("Q", g.q, g.p, kind)
	r := c.Rnd("mix")
	for i := 0; i < g.q; i++ {
		if r.Intn(3) == 0 {
			g.Q.SetRow(i, vk.Row(g.X, r.Intn(g.n)))
		}
	}
	if classes {
		vals := []float64{-1, 0, 1, 2, 2.5, 10}
		k := c.Int("classes", 1, 6)
		off := c.Int("off", 0, 5)
		g.Y = vk.Apply(mat.NewDense(g.n, g.o, nil), func(i, j int, _ float64) float64 { return vals[(off+r.Intn(k))%6] })
	} else {
		g.Y = c.Mat("Y", g.n, g.o, c.Pick("ykind", vk.Grid, vk.Unif, vk.Scaled))
	}
	g.metric = c.Pick("metric", "euclidean", "manhattan")
	g.algo = c.Pick("algo", "auto", "brute", "kd_tree")
	g.wgt = c.Pick("weight", "uniform", "distance")
	g.k = c.Int("k", 1, g.n)
	return g
}

// neighbours of one query; ok=false when a tie makes the choice of the k ambiguous
func (g *prob) near(s int) (idx []int, d []float64, ok bool) {
	d = make([]float64, g.n)
	for i := range d {
		d[i] = dist(vk.Row(g.Q, s), vk.Row(g.X, i), g.metric)
		idx = append(idx, i)
	}
	sort.SliceStable(idx, func(a, b int) bool { return d[idx[a]] < d[idx[b]] })
	ok = true
	if g.k < g.n && d[idx[g.k]]-d[idx[g.k-1]] <= 1e-9*(1+d[idx[g.k]]) {
		// rows tied with the last neighbour: fine if they all carry the same targets
		cut := d[idx[g.k]]
		first := -1
		for _, i := range idx {
			if math.Abs(d[i]-cut) <= 2e-9*(1+cut) {
				if first >= 0 && !mat.Equal(g.Y.RowView(i), g.Y.RowView(first)) {
					ok = false
				}
				first = i
			}
		}
	}
	return idx[:g.k], d, ok
}

func (g *prob) weights(idx []int, d []float64) []float64 {
	w := make([]float64, len(idx))
	for a, i := range idx {
		w[a] = 1
		if g.wgt == "distance" {
			w[a] = 1 / (1e-15 + d[i])
		}
	}
	return w
}

func TestClassifier(t *testing.T) {
	vk.Prop(t, 2500, "labelled points with ties and repeats, several outputs, each weighting, metric and algorithm; non-trivial: k > 1 and two classes", func(c *vk.C) {
		g := gen(c, true)
		m := neighbors.NewKNeighborsClassifier(g.k, g.wgt)
		if c.Bool("refit") {
			m.K = 1
			m.Algorithm = "kd_tree"
			m.Fit(c.Mat("D", 7, 2, vk.Unif), vk.Apply(mat.NewDense(7, 2, nil), func(i, j int, _ float64) float64 { return float64(i % 5) }))
			m.K = g.k
		}
		m.Algorithm, m.Metric = g.algo, g.metric
		lx, ly, lq := c.Lay("X", g.X, true), c.Lay("Y", g.Y, true), c.Lay("Q", g.Q, true)
		m.Fit(lx.M, ly.M)
		c.Unchanged("Fit", lx, ly)
		c.Mark(g.k > 1 && len(vk.Uniq(vk.Col(g.Y, 0))) > 1, "%s %s %s k=%d X %s Y %s Q %s", g.algo, g.metric, g.wgt, g.k, vk.M(g.X), vk.M(g.Y), vk.M(g.Q))
		if m.GetNOutputs() != g.o || !m.IsClassifier() {
			c.Fatalf("%d outputs, classifier %v", m.GetNOutputs(), m.IsClassifier())
		}
		dst := c.Dst("Y", g.q, g.o)
		ret := m.Predict(lq.M, dst.M)
		c.Unchanged("Predict", lq)
		c.EqDst("Predict", ret, dst, ret, 0, 0)
		if r, cc := ret.Dims(); r != g.q || cc != g.o {
			c.Fatalf("predictions %dx%d", r, cc)
		}
		var proba *mat.Dense
		cls := vk.Uniq(vk.Col(g.Y, 0))
		if g.o == 1 {
			pd, _ := vk.Strided(mat.NewDense(g.q, len(cls), nil), 0, 1, 1, 0, 5)
			for i := 0; i < g.q; i++ {
				pd.Set(i, 0, 9) // stale contents
				pd.Set(i, len(cls)-1, 9)
			}
			m.PredictProba(vk.Copy(g.Q), pd)
			proba = pd
			for i, v := range m.Classes[0] {
				if len(m.Classes[0]) != len(cls) || v != cls[i] {
					c.Fatalf("classes %v, want %v", m.Classes[0], cls)
				}
			}
		}
		hits := make([]int, g.o)
		_ = hits
		for s := 0; s < g.q; s++ {
			idx, d, ok := g.near(s)
			if proba != nil {
				sum := 0.
				for j := range cls {
					if v := proba.At(s, j); v < 0 || v > 1+1e-9 {
						c.Fatalf("probability %g", v)
					}
					sum += proba.At(s, j)
				}
				c.EqF("sum of probabilities", sum, 1, 1e-9, 1e-9)
			}
			if !ok {
				continue
			}
			w := g.weights(idx, d)
			for o := 0; o < g.o; o++ {
				votes := map[float64]float64{}
				tot := 0.
				for a, i := range idx {
					votes[g.Y.At(i, o)] += w[a]
					tot += w[a]
				}
				best := math.Inf(-1)
				for _, v := range votes {
					best = math.Max(best, v)
				}
				got := ret.At(s, o)
				if v, has := votes[got]; !has || v < best*(1-1e-9) {
					c.Fatalf("query %d output %d: predicted %g with votes %v", s, o, got, votes)
				}
				if g.wgt == "uniform" { // exact ties go to the smallest class
					for cl, v := range votes {
						if v == best && cl < got {
							c.Fatalf("query %d output %d: predicted %g although %g has as many votes", s, o, got, cl)
						}
					}
				}
				if proba != nil {
					for j, cl := range cls {
						c.EqF("probability", proba.At(s, j), votes[cl]/tot, 1e-6, 1e-9)
					}
				}
			}
		}
		// score = share of rows predicted right in every output
		T := vk.Copy(ret)
		r := c.Rnd("wrong")
		for i := 0; i < g.q; i++ {
			if r.Intn(3) == 0 {
				T.Set(i, r.Intn(g.o), 77)
			}
		}
		good := 0.
		for i := 0; i < g.q; i++ {
			if mat.Equal(T.RowView(i), ret.RowView(i)) {
				good++
			}
		}
		c.EqF("score", m.Score(lq.M, T), good/float64(g.q), 1e-9, 1e-9)
	})
}

func TestRegressor(t *testing.T) {
	vk.Prop(t, 2500, "points and targets, several outputs, uniform, distance and user weights; non-trivial: k > 1", func(c *vk.C) {
		g := gen(c, false)
		user := c.Int("user", 0, 3) == 0
		var W interface{} = g.wgt
		if user {
			W = func(dst, d []float64) {
				for i := range d {
					dst[i] = 1 + float64(i) + d[i]
				}
			}
		}
		m := neighbors.NewKNeighborsRegressor(g.k, W).(*neighbors.KNeighborsRegressor)
		if c.Bool("refit") {
			m.K = 1
			m.Algorithm = "kd_tree"
			m.Fit(c.Mat("D", 7, 2, vk.Unif), c.Mat("E", 7, 3, vk.Unif))
			m.K = g.k
		}
		m.Algorithm, m.Metric = g.algo, g.metric
		lx, ly, lq := c.Lay("X", g.X, true), c.Lay("Y", g.Y, true), c.Lay("Q", g.Q, true)
		m.Fit(lx.M, ly.M)
		c.Unchanged("Fit", lx, ly)
		c.Mark(g.k > 1, "%s %s %s user=%v k=%d X %s Y %s Q %s", g.algo, g.metric, g.wgt, user, g.k, vk.M(g.X), vk.M(g.Y), vk.M(g.Q))
		if m.GetNOutputs() != g.o || m.IsClassifier() {
			c.Fatalf("%d outputs, classifier %v", m.GetNOutputs(), m.IsClassifier())
		}
		dst := c.Dst("Y", g.q, g.o)
		ret := m.Predict(lq.M, dst.M)
		c.Unchanged("Predict", lq)
		c.EqDst("Predict", ret, dst, ret, 0, 0)
		if r, cc := ret.Dims(); r != g.q || cc != g.o {
			c.Fatalf("predictions %dx%d", r, cc)
		}
		for s := 0; s < g.q; s++ {
			idx, d, ok := g.near(s)
			if user {
				for a := 1; a < len(idx); a++ { // the user function sees the order
					if d[idx[a]]-d[idx[a-1]] <= 1e-9*(1+d[idx[a]]) {
						ok = false
					}
				}
			}
			if !ok {
				continue
			}
			w := g.weights(idx, d)
			if user {
				for a, i := range idx {
					w[a] = 1 + float64(a) + d[i]
				}
			}
			for o := 0; o < g.o; o++ {
				num, den, mx := 0., 0., 0.
				for a, i := range idx {
					num += w[a] * g.Y.At(i, o)
					den += w[a]
					mx = math.Max(mx, math.Abs(g.Y.At(i, o)))
				}
				c.EqF("prediction", ret.At(s, o), num/den, 1e-7, 1e-8*(1+mx))
			}
		}
		if g.q > 2 {
			T := c.Mat("T", g.q, g.o, vk.Gauss)
			tot := 0.
			for o := 0; o < g.o; o++ {
				mean := 0.
				for i := 0; i < g.q; i++ {
					mean += T.At(i, o) / float64(g.q)
				}
				num, den := 0., 0.
				for i := 0; i < g.q; i++ {
					num += math.Pow(T.At(i, o)-ret.At(i, o), 2)
					den += math.Pow(T.At(i, o)-mean, 2)
				}
				tot += (1 - num/den) / float64(g.o)
			}
			c.EqF("score", m.Score(lq.M, T), tot, 1e-7, 1e-7)
		}
	})
}

func TestCentroid(t *testing.T) {
	vk.Prop(t, 2000, "labelled points, mean or median centres; non-trivial: at least 2 classes", func(c *vk.C) {
		g := gen(c, true)
		g.Y = vk.Copy(g.Y.Slice(0, g.n, 0, 1))
		m := neighbors.NewNearestCentroid(g.metric, 0)
		if c.Bool("refit") {
			m.Fit(c.Mat("D", 9, 3, vk.Unif), vk.Apply(mat.NewDense(9, 1, nil), func(i, j int, _ float64) float64 { return float64(i % 5) }))
		}
		lx, ly, lq := c.Lay("X", g.X, true), c.Lay("Y", g.Y, true), c.Lay("Q", g.Q, true)
		m.Fit(lx.M, ly.M)
		c.Unchanged("Fit", lx, ly)
		cls := vk.Uniq(vk.Col(g.Y, 0))
		c.Mark(len(cls) > 1, "%s X %s Y %s Q %s", g.metric, vk.M(g.X), vk.M(g.Y), vk.M(g.Q))
		C := mat.NewDense(len(cls), g.p, nil)
		for k, cl := range cls {
			cnt := 0
			for j := 0; j < g.p; j++ {
				var v []float64
				for i := 0; i < g.n; i++ {
					if g.Y.At(i, 0) == cl {
						v = append(v, g.X.At(i, j))
					}
				}
				cnt = len(v)
				if g.metric == "manhattan" {
					sort.Float64s(v)
					C.Set(k, j, v[(len(v)-1)/2])
				} else {
					s := 0.
					for _, x := range v {
						s += x
					}
					C.Set(k, j, s/float64(len(v)))
				}
			}
			if m.Classes[0][k] != cl || m.ClassCount[0][k] != cnt {
				c.Fatalf("classes %v counts %v, want class %g with %d", m.Classes, m.ClassCount, cl, cnt)
			}
		}
		c.Eq("Centroids", m.Centroids, C, 1e-9, 1e-9)
		dst := c.Dst("Y", g.q, 1)
		ret := m.Predict(lq.M, dst.M)
		c.Unchanged("Predict", lq)
		c.EqDst("Predict", ret, dst, ret, 0, 0)
		for s := 0; s < g.q; s++ {
			best, got := math.Inf(1), math.NaN()
			for k, cl := range cls {
				d := dist(vk.Row(g.Q, s), vk.Row(C, k), g.metric)
				best = math.Min(best, d)
				if cl == ret.At(s, 0) {
					got = d
				}
			}
			if !(got <= best+1e-9*(1+best)) {
				c.Fatalf("query %d: predicted class %g at %g, the nearest centre is at %g", s, ret.At(s, 0), got, best)
			}
		}
		c.EqF("score", m.Score(lq.M, ret), 1, 0, 0)
	})
}
