package perturb

import (
	"sync"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/verifmon/core"
)

// Steered runs levels[0] and stops it at the points[0]-th statement, or point, from there
// on while levels[1] runs to its end, which is in turn stopped at the points[1]-th one
// while levels[2] runs, and so on. What is stopped may hold a lock that the others need,
// so it is held for no longer than wait. Levels that were not run in this way, since the
// one before reached too few points, run afterwards.
func Steered(c *core.Case, points []int, wait time.Duration, levels []func()) {
	var wg sync.WaitGroup
	var fns []func()
	ran := make([]int32, len(levels))
	for k := 1; k < len(levels); k++ {
		k := k
		fns = append(fns, func() {
			if !atomic.CompareAndSwapInt32(&ran[k], 0, 1) {
				return
			}
			done := make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer close(done)
				defer func() {
					if p := recover(); p != nil {
						c.Go(func() { panic(p) }) // reported as that of a case
					}
				}()
				levels[k]()
			}()
			select {
			case <-done:
				c.Count("operations stopped until others were done", 1)
			case <-time.After(wait):
				c.Count("operations stopped while others waited for them", 1)
			}
		})
	}
	Fine(true)
	defer Fine(false)
	off := Steer(points, fns)
	levels[0]()
	off()
	wg.Wait()
	for k := 1; k < len(levels); k++ {
		// a request may have stopped after its response was sent
		if atomic.CompareAndSwapInt32(&ran[k], 0, 1) {
			levels[k]()
		}
	}
	c.Wait()
}
