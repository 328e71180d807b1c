// Package perturb provokes unusual interleavings at the yield points that the hooks of
// the build tag verif put between the steps of the concurrent algorithms.
package perturb

import (
	"math/rand/v2"
	"runtime"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/iand/starbow/internal/verifmon/auto"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/yield"
)

// probabilities out of 2^16 of each disturbance at each point
type config struct {
	gosched [yield.NumPoints]uint32
	spin    [yield.NumPoints]uint32
	sleep   [yield.NumPoints]uint32

	// at each statement, out of 2^20
	anyGosched, anySleep uint32
}

var (
	current atomic.Value
	hits    [yield.NumPoints]uint64
	dist    uint64
	anyHits uint64
)

func init() {
	current.Store(&config{})
	yield.Fn = at
	auto.Fn = any
}

// fine tells whether each statement of the algorithms is a point that is steered.
var fine int32

// Fine makes each statement of the algorithms a point that is steered, or not.
func Fine(on bool) {
	n := int32(0)
	if on {
		n = 1
	}
	atomic.StoreInt32(&fine, n)
}

// any is called at each statement.
func any() {
	if atomic.LoadInt32(&fine) != 0 {
		Hit()
	}
	c := current.Load().(*config)
	if c.anyGosched|c.anySleep == 0 {
		return
	}
	v := rand.Uint32() & 0xfffff
	if v < c.anyGosched {
		atomic.AddUint64(&anyHits, 1)
		runtime.Gosched()
	} else if v -= c.anyGosched; v < c.anySleep {
		atomic.AddUint64(&anyHits, 1)
		time.Sleep(time.Microsecond)
	}
}

var sink uint64

// steering runs functions when a certain number of points has been reached.
type steering struct {
	left int32
	fn   func()
	next *steering
}

var steer unsafe.Pointer // *steering

// Steer runs fns[0] in the goroutine that reaches the points[0]-th point from now on,
// then fns[1] in the one that reaches the points[1]-th from there on, and so on. The
// function returned ends that.
func Steer(points []int, fns []func()) func() {
	var st *steering
	for i := len(fns) - 1; i >= 0; i-- {
		st = &steering{int32(points[i]), fns[i], st}
	}
	atomic.StorePointer(&steer, unsafe.Pointer(st))
	return func() { atomic.StorePointer(&steer, nil) }
}

// Hit is a point that is steered, too.
func Hit() {
	st := (*steering)(atomic.LoadPointer(&steer))
	if st != nil && atomic.AddInt32(&st.left, -1) == 0 {
		if atomic.CompareAndSwapPointer(&steer, unsafe.Pointer(st), unsafe.Pointer(st.next)) {
			st.fn()
		}
	}
}

func at(p yield.Point) {
	Hit()
	c := current.Load().(*config)
	if c.gosched[p]|c.spin[p]|c.sleep[p] == 0 {
		return
	}
	x := rand.Uint32()
	v := x & 0xffff
	if v < c.gosched[p] {
		note(p)
		runtime.Gosched()
		return
	}
	v -= c.gosched[p]
	if v < c.spin[p] {
		note(p)
		n := int(x>>16)&0x3ff + 20
		s := uint64(n)
		for i := 0; i < n; i++ {
			s = s*6364136223846793005 + 1
		}
		if s == 42 {
			atomic.AddUint64(&sink, s)
		}
		return
	}
	v -= c.spin[p]
	if v < c.sleep[p] {
		note(p)
		time.Sleep(time.Duration(1+(x>>16)%40) * time.Microsecond)
	}
}

func note(p yield.Point) {
	atomic.AddUint64(&hits[p], 1)
	atomic.AddUint64(&dist, 1)
}

// limit is the largest useful probability at a point. If tight is set then there are
// fewer processors than goroutines, and each disturbance between the two increments of
// a sequence number makes readers spin for a whole scheduling quantum.
func limit(p int, tight bool) float64 {
	switch yield.Point(p) {
	case yield.BufmapReadWord, yield.SeqlockReadWord:
		if tight {
			return 40
		}
		return 100
	case yield.BufmapStoreWord, yield.SeqlockStoreWord:
		if tight {
			return 5
		}
		return 100
	case yield.BufmapStored, yield.SeqlockStored:
		if tight {
			return 500
		}
		return 20000
	}
	return 40000
}

// Off removes all disturbances.
func Off() { current.Store(&config{}) }

// Random sets a random profile of disturbances.
func Random(r *core.Rand, tight bool) {
	c := &config{}
	for p := 0; p < yield.NumPoints; p++ {
		max := limit(p, tight)
		switch r.Intn(5) {
		case 0: // leave alone
		case 1:
			c.gosched[p] = uint32(max * r.Float64())
		case 2:
			c.spin[p] = uint32(max * r.Float64())
		case 3:
			c.sleep[p] = uint32(max / 8 * r.Float64())
		case 4:
			c.gosched[p] = uint32(max / 3 * r.Float64())
			c.spin[p] = uint32(max / 3 * r.Float64())
			c.sleep[p] = uint32(max / 20 * r.Float64())
		}
	}
	switch r.Intn(4) {
	case 0:
		c.anyGosched = uint32(1 + r.Intn(60))
	case 1:
		c.anySleep = uint32(1 + r.Intn(20))
	}
	current.Store(c)
}

// Report adds the number of disturbances that took place to the evidence.
func Report(r *core.Run) {
	r.Count("injected disturbances", int(atomic.LoadUint64(&dist)))
	n := 0
	for p := range hits {
		if atomic.LoadUint64(&hits[p]) > 0 {
			n++
		}
	}
	r.Count("yield points disturbed", n)
	r.Count("statements disturbed", int(atomic.LoadUint64(&anyHits)))
}
