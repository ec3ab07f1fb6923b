// C20: k-means ends in a fixed point of assign / recentre.
package c20

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/cluster"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func d2(a, b []float64) float64 {
	s := 0.
	for j := range a {
		s += (a[j] - b[j]) * (a[j] - b[j])
	}
	return s
}

func cost(X, C *mat.Dense) float64 {
	n, _ := X.Dims()
	k, _ := C.Dims()
	s := 0.
	for i := 0; i < n; i++ {
		b := math.Inf(1)
		for j := 0; j < k; j++ {
			b = math.Min(b, d2(vk.Row(X, i), vk.Row(C, j)))
		}
		s += b
	}
	return s
}

func TestKMeans(t *testing.T) {
	vk.Prop(t, 3000, "point sets with repeats (also among the first ones), any number of clusters, refits; non-trivial: at least 2 clusters and more points than clusters", func(c *vk.C) {
		n, p := c.Size("n", 1, 14, 90), c.Huge("p", 1, 4, 8, 100)
		k := c.Int("k", 1, n)
		if k > 6 && c.Bool("fewer") {
			k = c.Int("k2", 1, 6)
		}
		kind := c.AnyKind("kind")
		X := c.Mat("X", n, p, kind)
		if c.Bool("dups") {
			r := c.Rnd("dup")
			for i := 0; i < n; i++ {
				if r.Intn(4) == 0 {
					X.SetRow(i, vk.Row(X, r.Intn(n)))
				}
			}
		}
		if n > 8 && c.Int("slow", 0, 5) == 0 { // evenly spread along a line, first samples at one end: many small steps
			r := c.Rnd("line")
			for i := 0; i < n; i++ {
				v := float64(i)
				for j := 0; j < p; j++ {
					X.Set(i, j, v*v/float64(n)+r.Float64())
				}
			}
		}
		m := &cluster.KMeans{NClusters: k, NJobs: c.PickI("jobs", 0, 1, 3)}
		var old *cluster.KMeans
		var oldC *mat.Dense
		if c.Bool("refit") {
			k0, p0 := 2, 2
			if c.Bool("sameshape") {
				k0, p0 = k, p
			}
			m.NClusters = k0
			m.Fit(c.Mat("D", k0+7, p0, vk.Unif), nil)
			m.NClusters = k
			old = m.PredicterClone().(*cluster.KMeans)
			oldC = vk.Copy(old.Centroids)
		}
		lx := c.Lay("X", X, true)
		c.Mark(k > 1 && n > k, "k=%d %s", k, vk.M(X))
		m.Fit(lx.M, nil)
		c.Unchanged("Fit", lx)
		C := m.Centroids
		if old != nil {
			c.Eq("centres of a clone made before the refit", old.Centroids, oldC, 0, 0)
		}
		if r, cc := C.Dims(); r != k || cc != p || !vk.Finite(C) {
			c.Fatalf("centroids %s", vk.M(C))
		}
		dst := c.Dst("Y", n, 1)
		Y := m.Predict(lx.M, dst.M)
		c.Unchanged("Predict", lx)
		c.EqDst("Predict", Y, dst, Y, 0, 0)
		mx := 0.
		for i := 0; i < n; i++ {
			mx = math.Max(mx, mat.Norm(X.RowView(i), 2))
		}
		sum, cnt := mat.NewDense(k, p, nil), make([]float64, k)
		for i := 0; i < n; i++ {
			l := int(Y.At(i, 0))
			if float64(l) != Y.At(i, 0) || l < 0 || l >= k {
				c.Fatalf("label %g", Y.At(i, 0))
			}
			cnt[l]++
			best := math.Inf(1)
			for j := 0; j < k; j++ {
				best = math.Min(best, d2(vk.Row(X, i), vk.Row(C, j)))
			}
			if d2(vk.Row(X, i), vk.Row(C, l)) > best+1e-9*mx*mx {
				c.Fatalf("sample %d is not with its nearest centre", i)
			}
			for j := 0; j < p; j++ {
				sum.Set(l, j, sum.At(l, j)+X.At(i, j))
			}
		}
		for l := 0; l < k; l++ {
			if cnt[l] == 0 {
				continue
			}
			for j := 0; j < p; j++ {
				c.EqF("centre = mean of its samples", C.At(l, j), sum.At(l, j)/cnt[l], 1e-9, 1e-9*mx)
			}
		}
		if a, b := cost(X, C), cost(X, vk.Copy(X.Slice(0, k, 0, p))); a > b+1e-9*mx*mx*float64(n) {
			c.Fatalf("cost %g is above the cost %g of taking the first samples as centres", a, b)
		}
		// new points go to the nearest centre too
		q := c.Size("q", 1, 5, 40)
		Q := c.Mat("Q", q, p, kind)
		lq := c.Lay("Q", Q, true)
		L := m.Predict(lq.M, nil)
		for i := 0; i < q; i++ {
			best := math.Inf(1)
			for j := 0; j < k; j++ {
				best = math.Min(best, d2(vk.Row(Q, i), vk.Row(C, j)))
			}
			if d2(vk.Row(Q, i), vk.Row(C, int(L.At(i, 0)))) > best*(1+1e-9)+1e-9*(mx*mx+best) {
				c.Fatalf("new sample %d is not with its nearest centre", i)
			}
		}
		// the same data give the same clusters again
		m2 := &cluster.KMeans{NClusters: k, NJobs: 1}
		m2.Fit(vk.Copy(X), nil)
		c.Eq("repeated fit", m2.Centroids, C, 0, 0)
	})
}

// many samples and centres converge in many small steps
func TestKMeansLarge(t *testing.T) {
	vk.Prop(t, 20, "hundreds of evenly spread samples; non-trivial: all", func(c *vk.C) {
		n, p, k := c.Int("n", 200, 1500), c.Int("p", 1, 3), c.Int("k", 2, 16)
		r := c.Rnd("X")
		scale := c.PickF("scale", 1, 1, 1e-3, 1e4)
		X := vk.Apply(mat.NewDense(n, p, nil), func(_, _ int, _ float64) float64 { return scale * r.Float64() })
		c.Mark(true, "n=%d p=%d k=%d", n, p, k)
		m := &cluster.KMeans{NClusters: k}
		m.Fit(X, nil)
		Y := m.Predict(X, nil)
		sum, cnt := mat.NewDense(k, p, nil), make([]float64, k)
		for i := 0; i < n; i++ {
			l := int(Y.At(i, 0))
			cnt[l]++
			best := math.Inf(1)
			for j := 0; j < k; j++ {
				best = math.Min(best, d2(vk.Row(X, i), vk.Row(m.Centroids, j)))
			}
			if d2(vk.Row(X, i), vk.Row(m.Centroids, l)) > best+1e-9*scale*scale {
				c.Fatalf("sample %d is not with its nearest centre", i)
			}
			for j := 0; j < p; j++ {
				sum.Set(l, j, sum.At(l, j)+X.At(i, j))
			}
		}
		for l := 0; l < k; l++ {
			for j := 0; j < p && cnt[l] > 0; j++ {
				c.EqF("centre = mean of its samples", m.Centroids.At(l, j), sum.At(l, j)/cnt[l], 1e-9, 1e-9*scale)
			}
		}
	})
}
