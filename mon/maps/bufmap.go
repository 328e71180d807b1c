package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

func checkBufmap(r *core.Run) {
	r.Rule = "model/*: a random sequence of updates (successful, failing and panicking after scribbling) and reads on a random small map, compared with a Go map after every step; " +
		"non-trivial if at least two keys collided and an update followed another of the same key. " +
		"stress/*, create/*, fill/*: concurrent histories with versioned, patterned values; non-trivial if reads or updates overlapped. Digest: parameters and observed outcomes."
	r.Assum = []string{"the update function does not retain its argument", "concurrent histories sample schedules; disturbances are injected at the yield points"}
	r.Each(r.N(10000, 200000), "model", bufmapModel)
	r.Seq(r.N(250, 3000), "stress", bufmapStress)
	r.Seq(r.N(800, 10000), "create", bufmapCreate)
	r.Seq(r.N(400, 6000), "fill", bufmapFill)
	r.Seq(r.N(10000, 150000), "steer", bufmapSteer)
	r.Seq(r.N(180, 900), "pass", bufmapPass)
	perturb.Report(r)
}

var mapSizes = []int{1, 2, 3, 5, 7, 10, 11, 12, 13, 16, 17, 31, 64, 100, 257, 1000, 5000}
var bufSizes = []int{0, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 255, 1000, 3085}

// keyPool makes keys that often collide in a map of length l.
func keyPool(rng *core.Rand, l, n int) []uint64 {
	seen := map[uint64]bool{0: true}
	var keys []uint64
	base := rng.Uint64() % uint64(4*l+1)
	mode := rng.Intn(6)
	for len(keys) < n {
		var k uint64
		m := mode
		if m == 5 {
			m = rng.Intn(5)
		}
		switch m {
		case 0: // sequential
			k = base + uint64(len(keys))
		case 1: // all in the same slot
			k = base + uint64(l)*uint64(rng.Intn(50*n))
		case 2: // anywhere
			k = rng.Uint64()
		case 3: // near the top of the range
			k = ^uint64(0) - uint64(rng.Intn(3*n+l))
		case 4: // last slots, so that probing wraps around
			k = uint64(l)*uint64(1+rng.Intn(20*n)) - 1 - uint64(rng.Intn(3))
		}
		if seen[k] {
			if rng.P(0.2) {
				k = rng.Uint64()
			}
			if seen[k] {
				mode = 2 + rng.Intn(2)*3
				continue
			}
		}
		seen[k] = true
		keys = append(keys, k)
	}
	return keys
}

var errUpdate = errors.New("update refused by the monitor")

func bufmapModel(c *core.Case, i int) {
	rng := c.Rng
	l := mapSizes[rng.Intn(len(mapSizes))]
	s := bufSizes[rng.Intn(len(bufSizes))]
	if rng.P(0.3) {
		s = rng.Range(0, 200)
	}
	nkeys := rng.Range(1, 40)
	if rng.P(0.3) {
		nkeys = rng.Range(1, 2*l+3)
		if nkeys > 300 {
			nkeys = 300
		}
	}
	keys := keyPool(rng, l, nkeys)
	m := bufmap.New(l, s)
	model := map[uint64][]byte{}
	held := map[uint64]bool{} // keys that may occupy a slot
	minKeys := l
	if minKeys > 11 {
		minKeys = 11
	}
	nops := rng.Range(20, 200)
	failRate := []float64{0, 0.1, 0.3, 0.5}[rng.Intn(4)]
	digest := core.Mix(uint64(l), uint64(s))
	rewrites, collided, refused := 0, false, 0
	slots := map[uint64]uint64{}
	check := func(k uint64) {
		want, ok := model[k]
		n := s
		switch rng.Intn(5) {
		case 0:
			n = rng.Range(0, s)
		case 1:
			n = s + rng.Range(1, 40)
		}
		buf := make([]byte, n)
		for j := range buf {
			buf[j] = 0xa5
		}
		got := m.Get(k, buf)
		c.Check(got == ok, "l=%d s=%d: Get(%d) found=%v, want %v", l, s, k, got, ok)
		if !ok {
			return
		}
		w := want
		if n < s {
			w = w[:n]
		}
		c.Check(bytes.Equal(buf[:len(w)], w), "l=%d s=%d: Get(%d) with a buffer of %d bytes got %x, want %x", l, s, k, n, buf[:len(w)], w)
		for _, b := range buf[len(w):] {
			c.Check(b == 0xa5 || b == 0, "l=%d s=%d: Get(%d) wrote past the value into the caller's buffer", l, s, k)
		}
	}
	for op := 0; op < nops; op++ {
		k := keys[rng.Intn(len(keys))]
		if rng.P(0.02) {
			k = 0
		}
		if rng.P(0.35) {
			check(k)
			continue
		}
		kind := 0 // succeed
		if rng.P(failRate) {
			kind = 1 + rng.Intn(2) // fail, panic
		}
		prev, exists := model[k]
		fresh := rng.Bytes(s)
		partial := rng.P(0.5)
		lo, hi := 0, s
		if s > 0 {
			lo = rng.Intn(s)
			hi = lo + rng.Intn(s-lo) + 1
		}
		var called int
		var result []byte
		var err error
		panicked := false
		func() {
			defer func() {
				if e := recover(); e != nil {
					if e != errUpdate {
						panic(e)
					}
					panicked = true
				}
			}()
			err = m.Update(k, func(data []byte, init bool) error {
				called++
				c.Check(len(data) == s, "l=%d s=%d: update function of key %d got %d bytes", l, s, k, len(data))
				c.Check(init == !exists, "l=%d s=%d: update function of key %d got init=%v, but a successful update exists=%v", l, s, k, init, exists)
				if !init {
					c.Check(bytes.Equal(data, prev), "l=%d s=%d: update of key %d sees %x, want %x", l, s, k, data, prev)
				}
				if init || !partial {
					copy(data, fresh)
				} else {
					copy(data[lo:hi], fresh[lo:hi])
				}
				switch kind {
				case 1:
					return errUpdate
				case 2:
					panic(errUpdate)
				}
				result = append([]byte(nil), data...)
				return nil
			})
		}()
		if k == 0 {
			c.Check(called == 0 && err != nil, "key 0 accepted: err=%v", err)
			check(0)
			continue
		}
		c.Check(called > 0 || err != nil && !panicked, "l=%d s=%d: Update(%d) did not call its function and returned no error", l, s, k)
		if err != nil && !panicked && !errors.Is(err, errUpdate) {
			// refused
			c.Check(!exists, "l=%d s=%d: key %d refused (%v) after it had been accepted", l, s, k, err)
			others := len(held)
			if held[k] {
				others--
			}
			c.Check(others >= minKeys, "l=%d s=%d: key %d refused (%v) although only %d other keys are held", l, s, k, err, others)
			refused++
		} else {
			if err == nil && !panicked {
				held[k] = true
			}
			if o, ok := slots[k%uint64(l)]; ok && o != k {
				collided = true
			}
			slots[k%uint64(l)] = k
			switch kind {
			case 0:
				c.Check(err == nil, "l=%d s=%d: Update(%d) returned %v", l, s, k, err)
				if exists {
					rewrites++
				}
				model[k] = result
			case 1:
				c.Check(errors.Is(err, errUpdate), "l=%d s=%d: Update(%d) returned %v, want the error of the function", l, s, k, err)
			case 2:
				c.Check(panicked, "l=%d s=%d: Update(%d) swallowed a panic", l, s, k)
			}
		}
		digest = core.Mix(digest, k, uint64(kind), uint64(called))
		if rng.P(0.1) {
			check(keys[rng.Intn(len(keys))])
		}
	}
	for _, k := range keys {
		check(k)
	}
	c.Count("model operations", nops)
	c.Count("model refusals", refused)
	if collided && rewrites > 0 {
		c.Eval(digest)
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("model", fmt.Sprintf("l=%d s=%d keys=%d ops=%d rewrites=%d refused=%d", l, s, nkeys, nops, rewrites, refused))
	}
}

// pattern fills data with a value determined by version and key.
func pattern(data []byte, key, version uint64) {
	binary.LittleEndian.PutUint64(data, version)
	x := core.Mix(key, version)
	i := 8
	for ; i+8 <= len(data); i += 8 {
		x = x*6364136223846793005 + 1442695040888963407
		binary.LittleEndian.PutUint64(data[i:], x^x>>29)
	}
	for ; i < len(data); i++ {
		x = x*6364136223846793005 + 1442695040888963407
		data[i] = byte(x >> 56)
	}
}

// version checks that data is a whole value for key and returns its version.
func version(data []byte, key uint64) (uint64, bool) {
	v := binary.LittleEndian.Uint64(data)
	x := core.Mix(key, v)
	i := 8
	for ; i+8 <= len(data); i += 8 {
		x = x*6364136223846793005 + 1442695040888963407
		if binary.LittleEndian.Uint64(data[i:]) != x^x>>29 {
			return v, false
		}
	}
	for ; i < len(data); i++ {
		x = x*6364136223846793005 + 1442695040888963407
		if data[i] != byte(x>>56) {
			return v, false
		}
	}
	return v, true
}

func describe(data []byte) string {
	if len(data) > 48 {
		return fmt.Sprintf("%x... (%d bytes)", data[:48], len(data))
	}
	return fmt.Sprintf("%x", data)
}

type keyState struct {
	key  uint64
	done uint64 // highest version whose update has returned
	succ uint64 // number of successful updates
	mu   sync.Mutex
	seen map[uint64]int // version -> number of updates that wrote it
	fail uint64
}

// storm runs updates and reads of keys from several goroutines and checks everything
// that can be observed. It returns the number of overlapping reads.
func storm(c *core.Case, m *bufmap.Map, l, s int, keys []uint64, writers, readers, ops int, failRate float64, mayRefuse bool) (overlaps, changed int64) {
	states := make([]*keyState, len(keys))
	for i, k := range keys {
		states[i] = &keyState{key: k, seen: map[uint64]int{}}
	}
	gate := make(chan struct{})
	var busy int64
	var live int64 = int64(writers)
	for w := 0; w < writers; w++ {
		rng := c.Rng.Fork()
		c.Go(func() {
			defer atomic.AddInt64(&live, -1)
			<-gate
			for n := 0; n < ops && !c.Stop(); n++ {
				st := states[rng.Intn(len(states))]
				kind := 0
				if rng.P(failRate) {
					kind = 1 + rng.Intn(2)
				}
				var wrote uint64
				called := false
				accepted := atomic.LoadUint64(&st.done) > 0
				atomic.AddInt64(&busy, 1)
				var err error
				func() {
					defer func() {
						if e := recover(); e != nil && e != errUpdate {
							panic(e)
						} else if e != nil {
							err = errUpdate
						}
					}()
					err = m.Update(st.key, func(data []byte, init bool) error {
						called = true
						var v uint64
						if !init {
							var ok bool
							v, ok = version(data, st.key)
							c.Check(ok && v > 0, "update of key %d (l=%d s=%d) sees a value that was never written: %s", st.key, l, s, describe(data))
						} else {
							c.Check(!accepted, "update of key %d (l=%d s=%d) is told that the value is new after an update completed", st.key, l, s)
						}
						if kind != 0 {
							for i := range data {
								data[i] = ^data[i]
							}
							if kind == 2 {
								panic(errUpdate)
							}
							return errUpdate
						}
						wrote = v + 1
						pattern(data, st.key, wrote)
						return nil
					})
				}()
				atomic.AddInt64(&busy, -1)
				c.Check(called || err != nil, "Update(%d) did not call its function and returned no error", st.key)
				if err != nil && !errors.Is(err, errUpdate) {
					c.Check(mayRefuse && !accepted, "key %d refused with %v (l=%d, %d keys in use)", st.key, err, l, len(keys))
					atomic.AddUint64(&st.fail, 1)
					continue
				}
				if kind != 0 {
					c.Check(errors.Is(err, errUpdate), "failing update of key %d returned %v", st.key, err)
					continue
				}
				c.Check(err == nil, "update of key %d returned %v", st.key, err)
				st.mu.Lock()
				st.seen[wrote]++
				dup := st.seen[wrote]
				st.succ++
				if wrote > st.done {
					atomic.StoreUint64(&st.done, wrote)
				}
				st.mu.Unlock()
				c.Check(dup == 1, "lost update: two successful updates of key %d (l=%d s=%d) both produced version %d", st.key, l, s, wrote)
			}
		})
	}
	for g := 0; g < readers; g++ {
		rng := c.Rng.Fork()
		c.Go(func() {
			last := make([]uint64, len(states))
			buf := make([]byte, s)
			<-gate
			var o, ch int64
			for n := 0; !c.Stop() && (n < ops || atomic.LoadInt64(&live) > 0) && n < 50*ops; n++ {
				i := rng.Intn(len(states))
				st := states[i]
				low := atomic.LoadUint64(&st.done)
				before := atomic.LoadInt64(&busy)
				ok := m.Get(st.key, buf)
				if before > 0 || atomic.LoadInt64(&busy) > 0 {
					o++
				}
				if !ok {
					c.Check(low == 0 && last[i] == 0, "key %d (l=%d s=%d) not found although version %d had been stored", st.key, l, s, low)
					continue
				}
				v, whole := version(buf, st.key)
				c.Check(whole && v > 0, "read of key %d (l=%d s=%d) returned a value that was never written (torn or foreign): %s", st.key, l, s, describe(buf))
				c.Check(v >= low, "stale read of key %d: version %d, but the update to %d had completed before", st.key, v, low)
				c.Check(v >= last[i], "reads of key %d went backwards: %d after %d", st.key, v, last[i])
				if v > last[i] {
					ch++
				}
				last[i] = v
				if n&63 == 0 {
					c.Tick()
				}
			}
			atomic.AddInt64(&overlaps, o)
			atomic.AddInt64(&changed, ch)
		})
	}
	close(gate)
	c.Wait()
	buf := make([]byte, s)
	for _, st := range states {
		ok := m.Get(st.key, buf)
		c.Check(ok == (st.succ > 0), "key %d (l=%d s=%d): found=%v after %d successful updates", st.key, l, s, ok, st.succ)
		if !ok {
			continue
		}
		v, whole := version(buf, st.key)
		c.Check(whole && v == st.succ, "key %d (l=%d s=%d): %d successful updates but the final version is %d (whole=%v)", st.key, l, s, st.succ, v, whole)
	}
	held, refused := 0, 0
	for _, st := range states {
		if st.fail > 0 {
			refused++
		}
		if st.succ > 0 || failRate > 0 {
			held++
		}
	}
	min := l
	if min > 11 {
		min = 11
	}
	if refused > 0 {
		c.Check(held >= min || failRate > 0, "a key was refused although only %d keys are held in %d slots", held, l)
	}
	c.Count("concurrent refusals", refused)
	return
}

var procs = []int{1, 2, 4, 8, 8, 8, 16}

// disturbed runs fn, which uses the given number of goroutines, with a random number
// of processors and, with probability p, random disturbances.
func disturbed(rng *core.Rand, goroutines int, p float64, fn func()) {
	n := procs[rng.Intn(len(procs))]
	old := runtime.GOMAXPROCS(n)
	defer runtime.GOMAXPROCS(old)
	perturb.Off()
	if rng.P(p) {
		perturb.Random(rng, n < goroutines || n > 8)
	}
	defer perturb.Off()
	fn()
}

func bufmapStress(c *core.Case, i int) {
	rng := c.Rng
	sizes := []int{8, 13, 16, 24, 33, 40, 64, 100, 512, 1000, 1024, 3085, 8192}
	s := sizes[rng.Intn(len(sizes))]
	l := []int{1, 2, 3, 8, 11, 12, 100, 5000}[rng.Intn(8)]
	nk := rng.Range(1, 6)
	if nk > l {
		nk = l
	}
	keys := keyPool(rng, l, nk)
	ops := 600
	if s > 500 {
		ops = 250
	}
	var o, ch int64
	w, rd := rng.Range(1, 5), rng.Range(1, 5)
	disturbed(rng, w+rd, 0.7, func() {
		o, ch = storm(c, bufmap.New(l, s), l, s, keys, w, rd, ops, []float64{0, 0, 0.2}[rng.Intn(3)], false)
	})
	c.Count("stress histories", 1)
	c.Count("reads overlapping updates", int(o))
	c.Count("version changes seen by readers", int(ch))
	if o > 0 {
		c.Eval(core.Mix(uint64(s), uint64(l), uint64(nk), uint64(o), uint64(ch)))
	} else {
		c.Eval(0)
	}
	if i < 2 {
		c.Sample("stress", fmt.Sprintf("l=%d s=%d keys=%v writers=%d readers=%d overlapping reads=%d version changes seen=%d", l, s, keys, w, rd, o, ch))
	}
}

// bufmapCreate races the first updates of keys, which often collide.
func bufmapCreate(c *core.Case, i int) {
	rng := c.Rng
	rounds := 20
	var o int64
	disturbed(rng, 8, 0.8, func() {
		for n := 0; n < rounds; n++ {
			l := []int{2, 3, 4, 8, 11, 50}[rng.Intn(6)]
			nk := rng.Range(1, 4)
			if nk > l {
				nk = l
			}
			s := rng.PickInt(8, 16, 40, 128)
			a, _ := storm(c, bufmap.New(l, s), l, s, keyPool(rng, l, nk), rng.Range(2, 6), rng.Range(0, 2), rng.Range(1, 4), []float64{0, 0, 0.4}[rng.Intn(3)], false)
			o += a
		}
	})
	c.Count("creation races", rounds)
	c.Eval(core.Mix(uint64(i), uint64(o)))
}

// bufmapFill offers more keys than there is room for.
func bufmapFill(c *core.Case, i int) {
	rng := c.Rng
	l := []int{1, 2, 3, 5, 9, 10, 11, 12, 20}[rng.Intn(9)]
	nk := l + rng.Range(1, 12)
	s := rng.PickInt(8, 16, 24)
	disturbed(rng, 8, 0.6, func() {
		storm(c, bufmap.New(l, s), l, s, keyPool(rng, l, nk), rng.Range(2, 6), rng.Range(0, 2), rng.Range(20, 100), []float64{0, 0, 0.3}[rng.Intn(3)], true)
	})
	c.Count("filled maps", 1)
	c.Eval(core.Mix(uint64(i), uint64(l), uint64(nk), uint64(c.Counter("concurrent refusals"))))
}
