// C17: neighbour search (brute force or k-d tree) returns the true nearest points.
package c17

import (
	"math"
	"sort"
	"testing"

	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

func mink(a, b []float64, p float64) float64 {
	s := 0.
	for j := range a {
		d := math.Abs(a[j] - b[j])
		switch {
		case math.IsInf(p, 1):
			s = math.Max(s, d)
		case p == 1:
			s += d
		case p == 2:
			s += d * d
		default:
			s += math.Pow(d, p)
		}
	}
	switch {
	case math.IsInf(p, 1) || p == 1:
		return s
	case p == 2:
		return math.Sqrt(s)
	}
	return math.Pow(s, 1/p)
}

func cosine(a, b []float64) float64 {
	var ab, aa, bb float64
	for j := range a {
		ab += a[j] * b[j]
		aa += a[j] * a[j]
		bb += b[j] * b[j]
	}
	return 1 - ab/math.Sqrt(aa*bb)
}

// points with repeats: some rows are copies of others
func points(c *vk.C, label string, n, p int) *mat.Dense {
	X := c.Mat(label, n, p, c.AnyKind(label+"kind"))
	if c.Bool(label + "dups") {
		r := c.Rnd(label + "dup")
		src := r.Intn(n)
		for i := 0; i < n; i++ {
			if r.Intn(3) == 0 {
				X.SetRow(i, vk.Row(X, src))
			}
		}
	}
	if n > 2 && c.Int(label+"skew", 0, 5) == 0 {
		X.Set(n-1, 0, 1e4)
	}
	return X
}

// queries: training points, points near them, anything, far away
func queries(c *vk.C, X *mat.Dense, q int) *mat.Dense {
	n, p := X.Dims()
	Q := c.Mat("Q", q, p, c.Pick("Qkind", vk.Grid, vk.Unif, vk.Gauss))
	r := c.Rnd("Qmix")
	for i := 0; i < q; i++ {
		switch r.Intn(4) {
		case 0:
			Q.SetRow(i, vk.Row(X, r.Intn(n)))
		case 1:
			row := vk.Row(X, r.Intn(n))
			row[r.Intn(p)] += 0.5
			Q.SetRow(i, row)
		case 2:
			if r.Intn(3) == 0 {
				Q.Set(i, r.Intn(p), 100*r.NormFloat64())
			}
		}
	}
	return Q
}

func genX(c *vk.C) *mat.Dense {
	if c.Int("huge", 0, 9) == 0 { // beyond 1000 cells "auto" uses the tree
		p := c.Int("pbig", 2, 5)
		return points(c, "X", 1000/p+c.Int("over", -10, 100), p)
	}
	return points(c, "X", c.Size("n", 1, 12, 120), c.Huge("p", 1, 5, 9, 100))
}

// check compares the reported neighbours of each query with all distances
func check(c *vk.C, what string, X, Q *mat.Dense, D, I *mat.Dense, k int, dist func(a, b []float64) float64, bound, eps float64) {
	n, _ := X.Dims()
	q, _ := Q.Dims()
	if r, cc := D.Dims(); r != q || cc != k {
		c.Fatalf("%s: distances %dx%d, want %dx%d", what, r, cc, q, k)
	}
	if r, cc := I.Dims(); r != q || cc != k {
		c.Fatalf("%s: indices %dx%d, want %dx%d", what, r, cc, q, k)
	}
	for s := 0; s < q; s++ {
		x := vk.Row(Q, s)
		all := make([]float64, n)
		for i := range all {
			all[i] = dist(x, vk.Row(X, i))
		}
		srt := append([]float64(nil), all...)
		sort.Float64s(srt)
		tol := 1e-9 * (1 + srt[n-1])
		seen := map[int]bool{}
		for j := 0; j < k; j++ {
			i, d := int(I.At(s, j)), D.At(s, j)
			if j < n && srt[j] < bound-tol || j < n && math.IsInf(bound, 1) {
				if i < 0 || i >= n || seen[i] {
					c.Fatalf("%s: query %d neighbour %d is row %d (of %d rows, distinct wanted)", what, s, j, i, n)
				}
				seen[i] = true
				if math.Abs(d-all[i]) > tol {
					c.Fatalf("%s: query %d neighbour %d: distance %g, row %d is at %g", what, s, j, d, i, all[i])
				}
				if d > srt[j]*(1+eps)+tol {
					c.Fatalf("%s: query %d neighbour %d at %g, but %d rows are within %g", what, s, j, d, j+1, srt[j])
				}
				if j > 0 && d < D.At(s, j-1) {
					c.Fatalf("%s: query %d distances not sorted", what, s)
				}
			} else if j >= n || srt[j] > bound+tol {
				if !math.IsInf(d, 1) {
					c.Fatalf("%s: query %d neighbour %d at %g although only %d rows are within %g", what, s, j, d, j, bound)
				}
				if I.At(s, j) != float64(n) {
					c.Fatalf("%s: query %d neighbour %d is missing, its index is %g instead of the number of rows %d", what, s, j, I.At(s, j), n)
				}
			}
		}
	}
}

func TestNearestNeighbors(t *testing.T) {
	vk.Prop(t, 1500, "training sets with repeated points and skewed extents, every metric and algorithm, refits; non-trivial: at least 2 points and a tree, or k > 1", func(c *vk.C) {
		X := genX(c)
		n, p := X.Dims()
		m := neighbors.NewNearestNeighbors()
		if c.Bool("refit") {
			m.Algorithm = c.Pick("algo0", "kd_tree", "brute")
			m.Fit(points(c, "D", c.Int("dn", 1, 20), c.Int("dp", 1, 5)), nil)
		}
		m.Algorithm = c.Pick("algo", "auto", "brute", "kd_tree", "ball_tree")
		m.Metric = c.Pick("metric", "euclidean", "minkowski", "manhattan", "cityblock", "l1", "l2", "cosine")
		m.LeafSize = c.Int("leaf", 0, 35)
		m.NJobs = c.PickI("jobs", -1, 1, 3)
		P := 2.
		switch m.Metric {
		case "manhattan", "cityblock", "l1":
			P = 1
		case "minkowski":
			P = c.PickF("P", 1, 2, 3, 1.5, math.Inf(1))
			m.P = P
		}
		dist := func(a, b []float64) float64 { return mink(a, b, P) }
		if m.Metric == "cosine" {
			dist = cosine
			for i := 0; i < n; i++ { // no zero vectors
				if mat.Norm(X.RowView(i), 2) < 1e-3 {
					X.Set(i, 0, 1)
				}
			}
			if c.Bool("tiny") { // the angle does not depend on the lengths
				X.Scale(math.Pow(10, float64(c.Int("xexp", -8, 5))), X)
			}
		}
		lx := c.Lay("X", X, true)
		m.Fit(lx.M, nil)
		c.Unchanged("Fit", lx)
		if m.Metric == "cosine" && c.Bool("overwrite") || c.Int("overwrite2", 0, 3) == 0 {
			lx.Scribble() // the caller may do anything with its matrix now
		}
		q := c.Size("q", 1, 5, 40)
		Q := queries(c, X, q)
		if m.Metric == "cosine" {
			for i := 0; i < q; i++ {
				if mat.Norm(Q.RowView(i), 2) < 1e-9 {
					Q.Set(i, 0, 1)
				}
			}
			if c.Bool("tinyQ") {
				Q.Scale(math.Pow(10, float64(c.Int("qexp", -5, 5))), Q)
			}
		}
		k := c.Int("k", 1, n)
		if k > 30 && c.Bool("fewer") {
			k = c.Int("k2", 1, 30)
		}
		lq := c.Lay("Q", Q, true)
		c.Mark(n > 1 && (m.Tree != nil || k > 1), "%s %s P=%g leaf=%d k=%d X %s Q %s", m.Algorithm, m.Metric, P, m.LeafSize, k, vk.M(X), vk.M(Q))
		if m.Tree != nil {
			c.Class("tree")
		}
		D, I := m.KNeighbors(lq.M, k)
		check(c, "KNeighbors", X, Q, D, I, k, dist, math.Inf(1), 0)
		c.Unchanged("KNeighbors", lq)

		ld := c.Lay("Qd", Q, false)
		mode := c.Pick("mode", "connectivity", "distance")
		self := c.Bool("self")
		G := m.KNeighborsGraph(ld.D, k, mode, self)
		want := mat.NewDense(q, n, nil)
		for s := 0; s < q; s++ {
			for j := 0; j < k; j++ {
				if i := int(I.At(s, j)); i != s || self {
					v := 1.
					if mode == "distance" {
						v = D.At(s, j)
					}
					want.Set(s, i, v)
				}
			}
		}
		c.Eq("graph", G, want, 1e-12, 1e-12)

		// radius search
		rad := c.PickF("rad", 0, 0.5, 1, 2, 3, 10)
		if c.Bool("radExact") {
			rad = dist(vk.Row(Q, 0), vk.Row(X, c.Int("radTo", 0, n-1)))
		}
		dd, ii := m.RadiusNeighbors(ld.D, rad)
		if len(dd) != q || len(ii) != q {
			c.Fatalf("radius search returned %d/%d rows", len(dd), len(ii))
		}
		for s := 0; s < q; s++ {
			in := map[int]bool{}
			if len(dd[s]) != len(ii[s]) {
				c.Fatalf("radius: %d distances, %d indices", len(dd[s]), len(ii[s]))
			}
			for j, i := range ii[s] {
				if i < 0 || i >= n || in[i] {
					c.Fatalf("radius: index %d", i)
				}
				in[i] = true
				d := dist(vk.Row(Q, s), vk.Row(X, i))
				if math.Abs(dd[s][j]-d) > 1e-9*(1+d) {
					c.Fatalf("radius: distance %g, want %g", dd[s][j], d)
				}
			}
			for i := 0; i < n; i++ {
				d := dist(vk.Row(Q, s), vk.Row(X, i))
				tol := 1e-9 * (1 + d)
				if (P == 1 || P == 2 || math.IsInf(P, 1)) && m.Metric != "cosine" && exact(Q, s) && exact(X, i) {
					tol = 0 // small multiples of 1/2: no rounding, the boundary belongs to the ball
				}
				if d <= rad-tol && !in[i] || d > rad+tol && in[i] {
					c.Fatalf("radius %g: query %d row %d at %g, reported %v", rad, s, i, d, in[i])
				}
			}
		}
		_ = p
		c.Unchanged("search", ld)
	})
}

func exact(X *mat.Dense, i int) bool {
	for _, v := range vk.Row(X, i) {
		if math.Abs(v) > 1000 || v*2 != math.Round(v*2) {
			return false
		}
	}
	return true
}

func TestKDTree(t *testing.T) {
	vk.Prop(t, 1500, "trees over repeated, collinear and skewed points; bounds, approximation, more neighbours than points; non-trivial: more points than the leaf size", func(c *vk.C) {
		X := genX(c)
		n, _ := X.Dims()
		leaf := c.Int("leaf", 0, 12)
		lx := c.Lay("X", X, true)
		tr := neighbors.NewKDTree(lx.M, leaf)
		c.Unchanged("NewKDTree", lx)
		P := c.PickF("P", 1, 2, 3, 1.5, math.Inf(1))
		q := c.Size("q", 1, 5, 40)
		Q := queries(c, X, q)
		k := c.Size("k", 1, 4, 20)
		eps := c.PickF("eps", 0, 1e-15, 0.1, 1)
		bound := c.PickF("bound", math.Inf(1), math.Inf(1), 0, 0.5, 1.5, 4)
		if !math.IsInf(bound, 1) {
			eps = 0 // the approximation may also drop points near the bound
		}
		lq := c.Lay("Q", Q, true)
		c.Mark(n > leaf, "P=%g leaf=%d k=%d eps=%g bound=%g X %s Q %s", P, leaf, k, eps, bound, vk.M(X), vk.M(Q))
		D, I := tr.Query(lq.M, k, eps, P, bound)
		check(c, "Query", X, Q, D, I, k, func(a, b []float64) float64 { return mink(a, b, P) }, bound, eps)
		c.Unchanged("Query", lq)
	})
}

func TestDistances(t *testing.T) {
	vk.Prop(t, 2000, "vectors of any length, contiguous, with an increment or interface-only, every order; non-trivial: an increment or an order other than 2", func(c *vk.C) {
		p := c.Int("p", 1, 8)
		A := c.Mat("A", p, 3, c.AnyKind("kind"))
		P := c.PickF("P", 1, 2, 3, 1.5, math.Inf(1), .5)
		mk := func(l string, j int) (mat.Vector, string) {
			how := c.Pick(l, "dense", "col", "opaque")
			switch how {
			case "dense":
				return mat.NewVecDense(p, vk.Col(A, j)), how
			case "col":
				return A.ColView(j), how
			}
			return opaque{mat.NewVecDense(p, vk.Col(A, j))}, how
		}
		a, ha := mk("a", 0)
		b, hb := mk("b", 1)
		c.Mark(ha == "col" || hb == "col" || P != 2, "P=%g %s %s %s", P, ha, hb, vk.M(A))
		want := mink(vk.Col(A, 0), vk.Col(A, 1), P)
		wantP := want
		if !math.IsInf(P, 1) {
			wantP = math.Pow(want, P)
		}
		e := mink(vk.Col(A, 0), vk.Col(A, 1), 2)
		c.EqF("neighbors minkowski", neighbors.MinkowskiDistance(P)(a, b), want, 1e-9, 1e-12)
		c.EqF("neighbors minkowski power", neighbors.MinkowskiDistanceP(a, b, P), wantP, 1e-9, 1e-12)
		c.EqF("neighbors euclidean", neighbors.EuclideanDistance(a, b), e, 1e-9, 1e-12)
		c.EqF("cluster minkowski", cluster.MinkowskiDistance(P)(a, b), want, 1e-9, 1e-12)
		c.EqF("cluster minkowski power", cluster.MinkowskiDistanceP(a, b, P), wantP, 1e-9, 1e-12)
		c.EqF("cluster euclidean", cluster.EuclideanDistance(a, b), e, 1e-9, 1e-12)
	})
}

type opaque struct{ v mat.Vector }

func (o opaque) Dims() (int, int)    { return o.v.Dims() }
func (o opaque) At(i, j int) float64 { return o.v.At(i, j) }
func (o opaque) T() mat.Matrix       { return o.v.T() }
func (o opaque) AtVec(i int) float64 { return o.v.AtVec(i) }
func (o opaque) Len() int            { return o.v.Len() }

func TestRectangle(t *testing.T) {
	vk.Prop(t, 1500, "boxes, points inside and outside, splits, every order; non-trivial: at least 2 dimensions", func(c *vk.C) {
		p := c.Int("p", 1, 4)
		A := c.Mat("A", 5, p, c.Pick("kind", vk.Grid, vk.Unif))
		box := func(i, j int) ([]float64, []float64) {
			mx, mn := make([]float64, p), make([]float64, p)
			for d := 0; d < p; d++ {
				mx[d], mn[d] = math.Max(A.At(i, d), A.At(j, d)), math.Min(A.At(i, d), A.At(j, d))
			}
			return mx, mn
		}
		P := c.PickF("P", 1, 2, 3, 1.5, math.Inf(1))
		c.Mark(p > 1, "P=%g %s", P, vk.M(A))
		m1, n1 := box(0, 1)
		m2, n2 := box(2, 3)
		x := vk.Row(A, 4)
		r := neighbors.NewRectangle(m1, n1)
		o := neighbors.NewRectangle(m2, n2)
		z := make([]float64, p)
		vol := 1.
		lo, hi, rlo, rhi := make([]float64, p), make([]float64, p), make([]float64, p), make([]float64, p)
		for d := 0; d < p; d++ {
			vol *= m1[d] - n1[d]
			lo[d] = math.Max(0, math.Max(n1[d]-x[d], x[d]-m1[d]))
			hi[d] = math.Max(m1[d]-x[d], x[d]-n1[d])
			rlo[d] = math.Max(0, math.Max(n1[d]-m2[d], n2[d]-m1[d]))
			rhi[d] = math.Max(m1[d]-n2[d], m2[d]-n1[d])
		}
		c.EqF("volume", r.Volume(), vol, 1e-9, 1e-12)
		c.EqF("nearest point", r.MinDistancePoint(x, P), mink(lo, z, P), 1e-9, 1e-12)
		c.EqF("farthest point", r.MaxDistancePoint(x, P), mink(hi, z, P), 1e-9, 1e-12)
		c.EqF("nearest of two boxes", r.MinDistanceRectangle(o, P), mink(rlo, z, P), 1e-9, 1e-12)
		c.EqF("farthest of two boxes", r.MaxDistanceRectangle(o, P), mink(rhi, z, P), 1e-9, 1e-12)
		d := c.Int("d", 0, p-1)
		sp := n1[d] + c.PickF("frac", 0, .25, .5, 1)*(m1[d]-n1[d])
		l, g := r.Split(d, sp)
		for e := 0; e < p; e++ {
			lm, gn := m1[e], n1[e]
			if e == d {
				lm, gn = sp, sp
			}
			if l.Mins[e] != n1[e] || l.Maxes[e] != lm || g.Maxes[e] != m1[e] || g.Mins[e] != gn {
				c.Fatalf("split at %g along %d: %v %v", sp, d, l, g)
			}
			if r.Mins[e] != n1[e] || r.Maxes[e] != m1[e] {
				c.Fatalf("split changed the box")
			}
		}
	})
}
