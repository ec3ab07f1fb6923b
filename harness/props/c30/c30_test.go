// C30: interpolation functions pass through their points with the promised shape in between.
package c30

import (
	"math"
	"sort"
	"testing"

	"github.com/pa-m/sklearn/interpolate"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// knots draws distinct increasing abscissas.
func knots(c *vk.C, label string, n int) []float64 {
	xs := make([]float64, n)
	x := c.Float(label+"0", -10, 10)
	uniform := c.Bool(label + "uniform")
	r := c.Rnd(label)
	for i := range xs {
		xs[i] = x
		if uniform {
			x++
		} else {
			x += .05 + r.ExpFloat64()
		}
	}
	return xs
}

func shuffled(c *vk.C, cols ...[]float64) [][]float64 {
	out := make([][]float64, len(cols))
	for k := range cols {
		out[k] = append([]float64(nil), cols[k]...)
	}
	if c.Bool("shuffle") {
		for i, j := range c.Rnd("perm").Perm(len(cols[0])) {
			for k := range cols {
				out[k][i] = cols[k][j]
			}
		}
	}
	return out
}

// lin is piecewise linear interpolation, the end pieces going on.
func lin(xs, ys []float64, x float64) float64 {
	i := 0
	for i < len(xs)-2 && x > xs[i+1] {
		i++
	}
	t := (x - xs[i]) / (xs[i+1] - xs[i])
	return (1-t)*ys[i] + t*ys[i+1]
}

func queries(c *vk.C, xs []float64) []float64 {
	q := append([]float64(nil), xs...)
	a, b := xs[0], xs[len(xs)-1]
	r := c.Rnd("q")
	for i := 0; i < 12; i++ {
		q = append(q, a+(b-a)*r.Float64())
	}
	return append(q, a-1.5, a-.1, b+.1, b+2)
}

// units: the abscissas may be in tiny or huge units; powers of two, so that nothing is rounded.
func units(c *vk.C, label string) float64 { return c.PickF(label, 1, 1, 1, 0x1p-40, 0x1p40) }

func times(v []float64, u float64) []float64 {
	o := make([]float64, len(v))
	for i := range v {
		o[i] = v[i] * u
	}
	return o
}

func same(c *vk.C, what string, given, keep [][]float64) {
	for k := range given {
		c.EqS(what+" changes its arguments", given[k], keep[k], 0, 0)
	}
}

func TestInterp1d(t *testing.T) {
	vk.Prop(t, 4000, "points in any order, with gaps (NaN) inside, queries at knots, between and outside; non-trivial: at least 3 points", func(c *vk.C) {
		n := c.Size("n", 2, 8, 40)
		xs := knots(c, "x", n)
		ys := vk.Col(c.Mat("y", n, 1, c.Pick("kind", vk.Grid, vk.Gauss, vk.Scaled)), 0)
		withGaps := append([]float64(nil), ys...)
		fx, fy := []float64{}, []float64{}
		gaps := c.Bool("gaps")
		first, last := 0, n-1 // beyond these there are gaps only, and nothing is claimed but an answer
		if gaps && n > 3 && c.Bool("gaps at the ends") {
			first = c.Int("first", 0, n/2-1)
			last = c.Int("last", n/2, n-1)
		}
		r := c.Rnd("gaps")
		for i := range xs {
			if i < first || i > last || gaps && i > first && i < last && r.Intn(3) == 0 {
				withGaps[i] = math.NaN()
				continue
			}
			fx, fy = append(fx, xs[i]), append(fy, ys[i])
		}
		ux := units(c, "unit of x")
		given := shuffled(c, times(xs, ux), withGaps)
		keep := [][]float64{append([]float64(nil), given[0]...), append([]float64(nil), given[1]...)}
		c.Mark(n > 2, "%v %v", given[0], given[1])
		f := interpolate.Interp1d(given[0], given[1])
		if !gaps {
			same(c, "Interp1d", given, keep)
		}
		if c.Bool("reuse") { // the caller's slices are the caller's again
			for i := range given[0] {
				given[0][i], given[1][i] = 7, -7
			}
		}
		scale := 1.
		for _, v := range ys {
			scale = math.Max(scale, math.Abs(v))
		}
		for _, x := range queries(c, xs) {
			want := lin(fx, fy, x)
			got := f(x * ux)
			if first > 0 && x <= xs[first] || last < n-1 && x > xs[last] {
				continue
			}
			if !vk.Close(got, want, 1e-9, 1e-9*scale) {
				c.Fatalf("unit %g: f(%g) = %g, not %g", ux, x, got, want)
			}
		}
	})
}

// spline: natural cubic spline through second derivatives, by elimination.
func spline(xs, ys []float64) func(float64) float64 {
	n := len(xs)
	A, b := mat.NewDense(n, n, nil), mat.NewVecDense(n, nil)
	A.Set(0, 0, 1)
	A.Set(n-1, n-1, 1)
	for i := 1; i < n-1; i++ {
		h0, h1 := xs[i]-xs[i-1], xs[i+1]-xs[i]
		A.Set(i, i-1, h0/6)
		A.Set(i, i, (h0+h1)/3)
		A.Set(i, i+1, h1/6)
		b.SetVec(i, (ys[i+1]-ys[i])/h1-(ys[i]-ys[i-1])/h0)
	}
	var m mat.VecDense
	if err := m.SolveVec(A, b); err != nil {
		return nil
	}
	return func(x float64) float64 {
		i := 0
		for i < n-2 && x > xs[i+1] {
			i++
		}
		h := xs[i+1] - xs[i]
		a, bb := (xs[i+1]-x)/h, (x-xs[i])/h
		return a*ys[i] + bb*ys[i+1] + ((a*a*a-a)*m.AtVec(i)+(bb*bb*bb-bb)*m.AtVec(i+1))*h*h/6
	}
}

func TestCubicSpline(t *testing.T) {
	vk.Prop(t, 4000, "natural cubic splines through points in any order, queried at knots, between and outside; non-trivial: at least 3 points", func(c *vk.C) {
		n := c.Size("n", 2, 8, 30)
		xs := knots(c, "x", n)
		ys := vk.Col(c.Mat("y", n, 1, c.Pick("kind", vk.Grid, vk.Gauss)), 0)
		ux := units(c, "unit of x")
		given := shuffled(c, times(xs, ux), ys)
		keep := [][]float64{append([]float64(nil), given[0]...), append([]float64(nil), given[1]...)}
		c.Mark(n > 2, "%v %v", given[0], given[1])
		f := interpolate.CubicSpline(given[0], given[1])
		same(c, "CubicSpline", given, keep)
		if c.Bool("reuse") {
			for i := range given[0] {
				given[0][i], given[1][i] = 7, -7
			}
		}
		ref := spline(xs, ys)
		if ref == nil {
			c.Skip("ill conditioned")
		}
		for i, x := range xs {
			if got := f(x * ux); !vk.Close(got, ys[i], 1e-9, 1e-9) {
				c.Fatalf("f(%g) = %g, not the point's %g", x, got, ys[i])
			}
		}
		for _, x := range queries(c, xs) {
			want := ref(x)
			scale := 1.
			for _, v := range ys {
				scale = math.Max(scale, math.Abs(v))
			}
			if x < xs[0] || x > xs[n-1] {
				scale = math.Max(scale*100, math.Abs(want)*10)
			}
			if got := f(x * ux); !vk.Close(got, want, 1e-6, 1e-7*scale) {
				c.Fatalf("f(%g) = %g, not %g", x, got, want)
			}
		}
	})
}

func TestInterp2d(t *testing.T) {
	vk.Prop(t, 4000, "grids of any size in any order, each column of the grid with its own ordinates or shared ones, queried at nodes, inside, left of the grid and above or below it; non-trivial: at least 3 columns", func(c *vk.C) {
		nx := c.Size("nx", 1, 6, 15)
		gx := knots(c, "gx", nx)
		shared := c.Bool("shared")
		ny := c.Size("ny", 2, 6, 15)
		gy0 := knots(c, "gy", ny)
		var xs, ys, zs []float64
		cols := make([][2][]float64, nx)
		r := c.Rnd("z")
		for i := range gx {
			gy := gy0
			if !shared {
				gy = knots(c, "gyi", c.Size("nyi", 2, 6, 15))
			}
			for _, y := range gy {
				z := math.Round(r.NormFloat64()*8) / 4
				xs, ys, zs = append(xs, gx[i]), append(ys, y), append(zs, z)
				cols[i][0], cols[i][1] = append(cols[i][0], y), append(cols[i][1], z)
			}
		}
		ux, uy := units(c, "unit of x"), units(c, "unit of y")
		given := shuffled(c, times(xs, ux), times(ys, uy), zs)
		keep := [][]float64{append([]float64(nil), given[0]...), append([]float64(nil), given[1]...), append([]float64(nil), given[2]...)}
		c.Mark(nx > 2, "%v %v %v", given[0], given[1], given[2])
		f := interpolate.Interp2d(given[0], given[1], given[2])
		same(c, "Interp2d", given, keep)
		if c.Bool("reuse") {
			for i := range given[0] {
				given[0][i], given[1][i], given[2][i] = 7, -7, 1
			}
		}
		want := func(x, y float64) float64 {
			var line []float64
			for i := range gx {
				line = append(line, lin(cols[i][0], cols[i][1], y))
			}
			if nx == 1 {
				return line[0]
			}
			return lin(gx, line, x)
		}
		for k := 0; k < 20; k++ {
			x := gx[r.Intn(nx)]
			if r.Intn(2) == 0 {
				x = gx[0] + (gx[nx-1]-gx[0])*r.Float64()
			}
			if r.Intn(8) == 0 {
				x = gx[0] - 2*r.Float64()
			}
			i := sort.SearchFloat64s(gx, x)
			if i == nx {
				i--
			}
			gy := cols[i][0]
			y := gy[r.Intn(len(gy))]
			if r.Intn(2) == 0 {
				y = gy[0] - 1 + (gy[len(gy)-1]-gy[0]+2)*r.Float64()
			}
			w := want(x, y)
			if got := f(x*ux, y*uy); !vk.Close(got, w, 1e-8, 1e-8*(10+math.Abs(w))) {
				c.Fatalf("f(%g, %g) = %g, not %g", x, y, got, w)
			}
		}
	})
}
