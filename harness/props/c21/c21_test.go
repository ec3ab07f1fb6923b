// C21: splitters partition the samples in every split, with the advertised sizes, reproducibly.
package c21

import (
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/pa-m/sklearn/base"
	modelselection "github.com/pa-m/sklearn/model_selection"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
	"verifharness/vk"
)

// mt is numpy's legacy generator, for the permutation scikit-learn would draw.
type mt struct {
	s [624]uint32
	i int
}

func newMT(seed uint32) *mt {
	m := &mt{i: 624}
	m.s[0] = seed
	for i := 1; i < 624; i++ {
		m.s[i] = 1812433253*(m.s[i-1]^(m.s[i-1]>>30)) + uint32(i)
	}
	return m
}

func (m *mt) next() uint32 {
	if m.i == 624 {
		for k := 0; k < 624; k++ {
			y := m.s[k]&0x80000000 | m.s[(k+1)%624]&0x7fffffff
			v := m.s[(k+397)%624] ^ y>>1
			if y&1 == 1 {
				v ^= 0x9908b0df
			}
			m.s[k] = v
		}
		m.i = 0
	}
	y := m.s[m.i]
	m.i++
	y ^= y >> 11
	y ^= y << 7 & 0x9d2c5680
	y ^= y << 15 & 0xefc60000
	return y ^ y>>18
}

func numpyPerm(seed uint32, n int) []int {
	m := newMT(seed)
	a := make([]int, n)
	for i := range a {
		a[i] = i
	}
	for i := n - 1; i > 0; i-- {
		mask := uint32(i)
		for _, s := range []uint{1, 2, 4, 8, 16} {
			mask |= mask >> s
		}
		j := m.next() & mask
		for j > uint32(i) {
			j = m.next() & mask
		}
		a[i], a[j] = a[j], a[i]
	}
	return a
}

func collect(s modelselection.Splitter, X *mat.Dense) (out []modelselection.Split) {
	var snap [][]int
	for sp := range s.Split(X, nil) {
		out = append(out, sp)
		snap = append(snap, append(append([]int(nil), sp.TrainIndex...), sp.TestIndex...))
	}
	for i, sp := range out { // a later split leaves the earlier ones alone
		for j, v := range snap[i] {
			var w int
			if k := len(sp.TrainIndex); j < k {
				w = sp.TrainIndex[j]
			} else {
				w = sp.TestIndex[j-k]
			}
			if v != w {
				panic(fmt.Sprintf("split %d changed from %v to %v while later ones were made", i, snap[i], sp))
			}
		}
	}
	return
}

func same(a, b []modelselection.Split) bool { return reflect.DeepEqual(a, b) }

func TestKFold(t *testing.T) {
	vk.Prop(t, 3000, "sample counts 1..200, split counts from below 1 to above the sample count, both shuffle settings, seeded and default random states, several passes and clones; non-trivial: at least 2 splits and samples", func(c *vk.C) {
		n := c.Size("n", 1, 20, 200)
		k := c.Int("k", -1, 12)
		if c.Bool("many") {
			k = c.Int("k2", 1, n+3)
		}
		shuffle := c.Bool("shuffle")
		seed := c.Seed("seed")
		src := c.Pick("src", "source", "locked", "rand", "nil")
		mk := func() *modelselection.KFold {
			kf := &modelselection.KFold{NSplits: k, Shuffle: shuffle}
			switch src {
			case "source":
				kf.RandomState = base.NewSource(seed)
			case "locked":
				kf.RandomState = base.NewLockedSource(seed)
			case "rand":
				kf.RandomState = rand.New(base.NewLockedSource(seed))
			}
			return kf
		}
		c.Mark(n > 1 && k > 1, "n=%d k=%d shuffle=%v %s seed=%d", n, k, shuffle, src, seed)
		want := k
		if k <= 0 {
			want = 3
		}
		X := mat.NewDense(n, 1+c.Int("p", 0, 2), nil)
		check := func(sps []modelselection.Split) {
			if len(sps) != want {
				c.Fatalf("%d splits, not %d", len(sps), want)
			}
			for s, sp := range sps {
				nt := n / want
				if s < n%want {
					nt++
				}
				if len(sp.TestIndex) != nt || len(sp.TrainIndex) != n-nt {
					c.Fatalf("split %d has %d train and %d test samples of %d", s, len(sp.TrainIndex), len(sp.TestIndex), n)
				}
				seen := make([]int, n)
				for _, l := range [][]int{sp.TrainIndex, sp.TestIndex} {
					for _, i := range l {
						if i < 0 || i >= n {
							c.Fatalf("index %d of %d", i, n)
						}
						seen[i]++
					}
				}
				for i, v := range seen {
					if v != 1 {
						c.Fatalf("split %d uses sample %d %d times: %v", s, i, v, sp)
					}
				}
			}
		}
		kf := mk()
		if g := kf.GetNSplits(X, nil); g != want {
			c.Fatalf("GetNSplits %d, not %d", g, want)
		}
		passes := c.Int("passes", 1, 3)
		var runs [][]modelselection.Split
		for i := 0; i < passes; i++ {
			runs = append(runs, collect(kf, X))
			check(runs[i])
		}
		for i := range runs { // splits handed out earlier stay as they were
			check(runs[i])
		}
		if g := kf.GetNSplits(X, nil); g != want {
			c.Fatalf("GetNSplits %d after Split, not %d", g, want)
		}
		if src == "nil" {
			return
		}
		again := mk()
		for i := range runs {
			if !same(runs[i], collect(again, X)) {
				c.Fatalf("pass %d of the same seed gives other splits", i)
			}
		}
		if src == "rand" { // not cloneable: shared
			return
		}
		// a clone goes on where its origin stood; neither disturbs the other
		kf = mk()
		at := c.Int("cloneat", 0, passes)
		for i := 0; i < at; i++ {
			collect(kf, X)
		}
		cl := kf.SplitterClone()
		if cl.GetNSplits(X, nil) != want {
			c.Fatalf("clone has %d splits", cl.GetNSplits(X, nil))
		}
		first := c.Bool("clonefirst")
		for i := at; i < passes; i++ {
			var a, b []modelselection.Split
			if first {
				b = collect(cl, X)
				a = collect(kf, X)
			} else {
				a = collect(kf, X)
				b = collect(cl, X)
			}
			if !same(a, runs[i]) || !same(b, runs[i]) {
				c.Fatalf("pass %d after cloning: %v and clone %v, not %v", i, a, b, runs[i])
			}
		}
	})
}

func TestTrainTestSplit(t *testing.T) {
	vk.Prop(t, 3000, "rows tagged with their number, sizes as fraction and as count, any storage; non-trivial: at least 3 rows", func(c *vk.C) {
		n := c.Size("n", 2, 20, 300)
		p, o := c.Huge("p", 1, 4, 12, 100), c.Huge("o", 1, 3, 9, 100)
		var size float64
		switch c.Int("how", 0, 3) {
		case 0:
			size = c.Float("frac", .001, .999)
		case 1:
			size = float64(c.Int("num", 1, n-1)) / float64(n)
		case 2:
			size = c.PickF("usual", .1, .2, .25, .3, .33, .5, .75)
		default:
			size = float64(c.Int("count", 2, n+2)) - c.PickF("sub", 0, 0, .5)
		}
		nt := int(math.Ceil(size * float64(n)))
		if size > 1 {
			nt = int(math.Ceil(size))
		}
		if nt >= n || nt < 1 {
			c.Skip("one side empty")
		}
		seed := c.Seed("seed")
		if c.Int("seed0", 0, 30) == 0 {
			seed = 0
		}
		c.Mark(n > 2, "n=%d size=%g seed=%d", n, size, seed)
		X := c.Mat("X", n, p, vk.Unif)
		Y := c.Mat("Y", n, o, vk.Unif)
		for i := 0; i < n; i++ {
			X.Set(i, 0, float64(i))
			Y.Set(i, 0, float64(i)*7)
		}
		lx, ly := c.Lay("X", X, true), c.Lay("Y", Y, true)
		Xtr, Xte, ytr, yte := modelselection.TrainTestSplit(lx.M, ly.M, size, seed)
		c.Unchanged("TrainTestSplit", lx, ly)
		if a, _ := Xte.Dims(); a != nt {
			c.Fatalf("%d test rows, not %d", a, nt)
		}
		if a, _ := Xtr.Dims(); a != n-nt {
			c.Fatalf("%d train rows, not %d", a, n-nt)
		}
		perm := numpyPerm(uint32(seed), n)
		if seed > math.MaxUint32 {
			c.Class("wide seed")
		}
		seen := make([]int, n)
		for _, g := range [][2]*mat.Dense{{Xte, yte}, {Xtr, ytr}} {
			r, cx := g[0].Dims()
			r2, cy := g[1].Dims()
			if r != r2 || cx != p || cy != o {
				c.Fatalf("shapes %s %s", vk.M(g[0]), vk.M(g[1]))
			}
			for i := 0; i < r; i++ {
				id := int(g[0].At(i, 0))
				if id < 0 || id >= n {
					c.Fatalf("row %g", g[0].At(i, 0))
				}
				seen[id]++
				c.EqS("X row", vk.Row(g[0], i), vk.Row(X, id), 0, 0)
				c.EqS("Y row of the same sample", vk.Row(g[1], i), vk.Row(Y, id), 0, 0)
			}
		}
		for i, v := range seen {
			if v != 1 {
				c.Fatalf("row %d is used %d times", i, v)
			}
		}
		if seed <= math.MaxUint32 {
			c.Eq("test rows in the order scikit-learn draws them", Xte, vk.Rows(X, perm[:nt]...), 0, 0)
			c.Eq("train rows in the order scikit-learn draws them", Xtr, vk.Rows(X, perm[nt:]...), 0, 0)
		}
		_, X2, _, _ := modelselection.TrainTestSplit(vk.Copy(X), vk.Copy(Y), size, seed)
		c.Eq("same seed", X2, Xte, 0, 0)
		// a change of the result does not reach the caller's data
		Xte.Set(0, 0, -5)
		yte.Set(0, 0, -5)
		Xtr.Set(0, 0, -5)
		ytr.Set(0, 0, -5)
		c.Unchanged("changing the result", lx, ly)
	})
}
