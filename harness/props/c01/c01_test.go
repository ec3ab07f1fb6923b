// C01: work splitting visits every index exactly once.
package c01

import (
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pa-m/sklearn/base"
	"verifharness/vk"
)

func TestCoverage(t *testing.T) {
	vk.Prop(t, 4000, "threads in -2..1200 and samples in 0..300 (sometimes to 200000) drawn independently; non-trivial: more than one thread and at least two samples", func(c *vk.C) {
		threads := c.Int("threads", -2, 20)
		if c.Int("wide", 0, 4) == 0 {
			threads = c.Size("threads2", 20, 70, 300)
		}
		n := c.Int("n", 0, 40)
		if c.Int("large", 0, 2) == 0 {
			n = c.Int("n2", 40, 300)
		}
		if c.Int("huge", 0, 99) == 0 {
			n = c.Int("n3", 300, 200000)
		}
		c.Mark(threads != 1 && n > 1, "threads=%d samples=%d", threads, n)
		hits := make([]int32, n)
		var mu sync.Mutex
		seenTh := map[int]bool{}
		slow := c.Bool("slow")
		var active int32
		base.Parallelize(threads, n, func(th, start, end int) {
			atomic.AddInt32(&active, 1)
			defer atomic.AddInt32(&active, -1)
			mu.Lock()
			dup := seenTh[th]
			seenTh[th] = true
			mu.Unlock()
			if start < 0 || end > n || start > end {
				mu.Lock()
				defer mu.Unlock()
				seenTh[-1] = true
				return
			}
			if dup && end > start {
				mu.Lock()
				seenTh[-2] = true
				mu.Unlock()
			}
			if slow {
				time.Sleep(time.Millisecond)
			}
			for i := start; i < end; i++ {
				atomic.AddInt32(&hits[i], 1)
			}
		})
		// the call may not return before every part is finished
		if a := atomic.LoadInt32(&active); a != 0 {
			c.Fatalf("Parallelize returned with %d parts still running", a)
		}
		for i := range hits {
			if h := atomic.LoadInt32(&hits[i]); h != 1 {
				c.Fatalf("index %d visited %d times (threads=%d n=%d)", i, h, threads, n)
			}
		}
		mu.Lock()
		defer mu.Unlock()
		if seenTh[-1] {
			c.Fatalf("range outside [0,%d]", n)
		}
		if seenTh[-2] {
			c.Fatalf("two non-empty parts share a worker number")
		}
		if threads > 0 {
			for th := range seenTh {
				if th >= threads {
					c.Fatalf("worker number %d with %d threads", th, threads)
				}
			}
		}
	})
}
