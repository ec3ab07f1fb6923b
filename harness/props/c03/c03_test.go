// C03: the locked random source hands out the seed's stream, each value once, under any schedule.
package c03

import (
	"sort"
	"sync"
	"testing"

	"github.com/pa-m/sklearn/base"
	"verifharness/vk"
)

func TestConcurrentStream(t *testing.T) {
	vk.Prop(t, 250, "g goroutines draw k values each from one source, some through the locked section, some cloning it meanwhile; non-trivial: at least two goroutines", func(c *vk.C) {
		seed := c.Seed("seed")
		g := c.Int("goroutines", 1, 8)
		k := c.Int("draws", 1, 60)
		lockEvery := c.Int("lockEvery", 1, 5)
		cloneEvery := c.Int("cloneEvery", 3, 20)
		c.Mark(g > 1, "seed=%d goroutines=%d draws=%d lockEvery=%d cloneEvery=%d", seed, g, k, lockEvery, cloneEvery)
		ref := base.NewSource(seed)
		want := make([]uint64, g*k)
		pos := map[uint64]int{}
		for i := range want {
			want[i] = ref.Uint64()
			pos[want[i]] = i
		}
		s := base.NewLockedSource(seed)
		got := make([][]uint64, g)
		var wg sync.WaitGroup
		for th := 0; th < g; th++ {
			wg.Add(1)
			go func(th int) {
				defer wg.Done()
				for i := 0; i < k; i++ {
					switch {
					case i%lockEvery == lockEvery-1:
						s.WithLock(func(src base.Source) { got[th] = append(got[th], src.Uint64()) })
					default:
						got[th] = append(got[th], s.Uint64())
					}
					if i%cloneEvery == 1 {
						s.SourceClone().Uint64()
					}
				}
			}(th)
		}
		wg.Wait()
		var all []uint64
		for th := range got {
			last := -1
			for _, v := range got[th] {
				p, ok := pos[v]
				if !ok {
					c.Fatalf("value %d is not in the seed's stream", v)
				}
				if p <= last {
					c.Fatalf("goroutine %d saw the stream out of order", th)
				}
				last = p
			}
			all = append(all, got[th]...)
		}
		sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		for i := range want {
			if all[i] != want[i] {
				c.Fatalf("values handed out are not the first %d of the stream", len(want))
			}
		}
	})
}

// a source against the model "a position in the stream of a seed"
func TestHistory(t *testing.T) {
	vk.Prop(t, 600, "sequences of draw, reseed, clone over a family of sources, each modelled as (seed, position); non-trivial: a clone or reseed after a draw", func(c *vk.C) {
		type model struct {
			seed uint64
			pos  int
		}
		at := func(m model) uint64 {
			s := base.NewSource(m.seed)
			for i := 0; i < m.pos; i++ {
				s.Uint64()
			}
			return s.Uint64()
		}
		seed := c.Seed("seed")
		srcs := []base.Source{base.NewLockedSource(seed)}
		ms := []model{{seed, 0}}
		if c.Bool("plain") {
			srcs[0] = base.NewSource(seed)
		}
		n := c.Int("steps", 1, 25)
		trace := ""
		drawn, inter := false, false
		for i := 0; i < n; i++ {
			j := c.Int("which", 0, len(srcs)-1)
			switch c.Int("op", 0, 5) {
			case 0:
				s2 := c.Seed("reseed")
				srcs[j].Seed(s2)
				ms[j] = model{s2, 0}
				inter = inter || drawn
				trace += "s"
			case 1:
				if cl, ok := srcs[j].(base.SourceCloner); ok && len(srcs) < 6 {
					srcs = append(srcs, cl.SourceClone())
					ms = append(ms, ms[j])
					inter = inter || drawn
					trace += "c"
				}
			default:
				want := at(ms[j])
				ms[j].pos++
				if got := srcs[j].Uint64(); got != want {
					c.Fatalf("source %d after %s: got %d want %d", j, trace, got, want)
				}
				drawn = true
				trace += "d"
			}
		}
		c.Mark(inter, "seed=%d steps=%s", seed, trace)
	})
}
