// C19: DBSCAN labels are the density-connected components of the core points.
package c19

import (
	"fmt"
	"math"
	"testing"

	"github.com/pa-m/sklearn/cluster"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func dist(a, b []float64, p float64) float64 {
	s := 0.
	for j := range a {
		d := math.Abs(a[j] - b[j])
		if math.IsInf(p, 1) {
			s = math.Max(s, d)
		} else {
			s += math.Pow(d, p)
		}
	}
	if math.IsInf(p, 1) || p == 1 {
		return s
	}
	return math.Pow(s, 1/p)
}

func TestDBSCAN(t *testing.T) {
	vk.Prop(t, 4000, "point sets with repeats, chains and isolated points, each metric and algorithm, weights, refits; non-trivial: a core point and either noise or two clusters", func(c *vk.C) {
		n, p := c.Size("n", 1, 14, 90), c.Huge("p", 1, 3, 7, 100)
		kind := c.Pick("kind", vk.Grid, vk.Unif, vk.Gauss)
		X := c.Mat("X", n, p, kind)
		if c.Bool("spread") {
			X.Scale(3, X)
		}
		r := c.Rnd("dup")
		if c.Bool("dups") {
			for i := 0; i < n; i++ {
				if r.Intn(4) == 0 {
					X.SetRow(i, vk.Row(X, r.Intn(n)))
				}
			}
		}
		cfg := &cluster.DBSCANConfig{Eps: c.PickF("eps", .5, 1, 2, 3), MinSamples: float64(c.Int("min", 1, 6)) - c.PickF("frac", 0, 0, .25, .5), NJobs: c.PickI("jobs", 0, 1, -1)}
		cfg.Metric = c.Pick("metric", "", "euclidean", "manhattan", "minkowski")
		cfg.Algorithm = c.Pick("algo", "", "brute", "kd_tree")
		cfg.LeafSize = c.Int("leaf", 0, 5)
		P := 2.
		switch cfg.Metric {
		case "manhattan":
			P = 1
		case "minkowski":
			P = c.PickF("P", 1, 2, 3, math.Inf(1))
			cfg.P = P
		}
		m := cluster.NewDBSCAN(cfg)
		var w []float64
		if c.Int("weighted", 0, 3) == 0 {
			for i := 0; i < n; i++ {
				w = append(w, float64([]int{1, 2, 0, -1, 7, 3}[r.Intn(6)])/2)
			}
		}
		if c.Bool("refit") {
			m.Fit(c.Mat("D", c.Int("dn", 1, 12), 2, vk.Grid), nil)
		}
		var old *cluster.DBSCAN
		var oldCores, oldLabels []int
		if c.Bool("clone") { // an earlier clone keeps what it had found
			old = m.PredicterClone().(*cluster.DBSCAN)
			oldCores = append(oldCores, old.CoreSampleIndices...)
			oldLabels = append(oldLabels, old.Labels...)
		}
		m.SampleWeight = w
		lx := c.Lay("X", X, true)
		m.Fit(lx.M, nil)
		c.Unchanged("Fit", lx)
		if old != nil {
			for _, v := range [][2][]int{{oldCores, old.CoreSampleIndices}, {oldLabels, old.Labels}} {
				if fmt.Sprint(v[0]) != fmt.Sprint(v[1]) {
					c.Fatalf("a clone's cores or labels changed from %v to %v when the original was refitted", v[0], v[1])
				}
			}
		}
		if len(m.Labels) != n {
			c.Fatalf("%d labels for %d samples", len(m.Labels), n)
		}
		near := make([][]bool, n)
		for i := range near {
			near[i] = make([]bool, n)
			for j := 0; j < n; j++ {
				d := dist(vk.Row(X, i), vk.Row(X, j), P)
				near[i][j] = d <= cfg.Eps
				if math.Abs(d-cfg.Eps) < 1e-9*(1+d) && !(kind == vk.Grid && (P != 3)) {
					return // on the boundary up to rounding: either answer is right
				}
				if P == 3 && kind == vk.Grid && math.Abs(d-cfg.Eps) < 1e-9 {
					return
				}
			}
		}
		core := make([]bool, n)
		var cores []int
		for i := 0; i < n; i++ {
			s := 0.
			for j := 0; j < n; j++ {
				if near[i][j] {
					if w == nil {
						s++
					} else {
						s += w[j]
					}
				}
			}
			if s >= cfg.MinSamples {
				core[i] = true
				cores = append(cores, i)
			}
		}
		// components of the core points in order of their first point; border points join the first cluster that reaches them
		lab := make([]int, n)
		for i := range lab {
			lab[i] = -1
		}
		k := 0
		for i := 0; i < n; i++ {
			if !core[i] || lab[i] >= 0 {
				continue
			}
			todo := []int{i}
			lab[i] = k
			for len(todo) > 0 {
				a := todo[0]
				todo = todo[1:]
				for b := 0; b < n; b++ {
					if core[b] && near[a][b] && lab[b] < 0 {
						lab[b] = k
						todo = append(todo, b)
					}
				}
			}
			k++
		}
		noise := 0
		for i := 0; i < n; i++ {
			if core[i] {
				continue
			}
			for j := 0; j < n; j++ {
				if core[j] && near[i][j] && (lab[i] < 0 || lab[j] < lab[i]) {
					lab[i] = lab[j]
				}
			}
			if lab[i] < 0 {
				noise++
			}
		}
		c.Mark(len(cores) > 0 && (k > 1 || noise > 0), "eps=%g min=%g %s/%s P=%g weights=%v %s", cfg.Eps, cfg.MinSamples, cfg.Metric, cfg.Algorithm, P, w, vk.M(X))
		for i := range lab {
			if m.Labels[i] != lab[i] {
				c.Fatalf("sample %d: label %d, want %d (labels %v, want %v)", i, m.Labels[i], lab[i], m.Labels, lab)
			}
		}
		if len(m.CoreSampleIndices) != len(cores) {
			c.Fatalf("core samples %v, want %v", m.CoreSampleIndices, cores)
		}
		for i := range cores {
			if m.CoreSampleIndices[i] != cores[i] {
				c.Fatalf("core samples %v, want %v", m.CoreSampleIndices, cores)
			}
		}
		want := vk.Apply(mat.NewDense(n, 1, nil), func(i, _ int, _ float64) float64 { return float64(lab[i]) })
		dst := c.Dst("Y", n, 1)
		c.EqDst("Predict", m.Predict(lx.M, dst.M), dst, want, 0, 0)
		c.Unchanged("Predict", lx)
	})
}
