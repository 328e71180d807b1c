package main

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

// This file steers operations: one is stopped at one of its yield points while others run
// to their end, of which one may in turn be stopped while more run.

// An lop is an operation of a history. It says what state it leaves if it is done in a
// state, and whether what it reported agrees with that.
type lop struct {
	s, e  int64
	desc  string
	apply func(st string) (string, bool)
}

// explained reports whether the operations can be put in an order that respects which
// one ended before which began and in which each reports what it should.
func explained(ops []lop, st string) bool {
	type node struct {
		mask uint64
		st   string
	}
	seen := map[node]bool{}
	var try func(mask uint64, st string) bool
	try = func(mask uint64, st string) bool {
		if mask == 1<<uint(len(ops))-1 {
			return true
		}
		n := node{mask, st}
		if seen[n] {
			return false
		}
		seen[n] = true
		first := int64(1) << 62
		for i := range ops {
			if mask>>uint(i)&1 == 0 && ops[i].e < first {
				first = ops[i].e
			}
		}
		for i := range ops {
			if mask>>uint(i)&1 == 0 && ops[i].s < first {
				if next, ok := ops[i].apply(st); ok && try(mask|1<<uint(i), next) {
					return true
				}
			}
		}
		return false
	}
	return try(0, st)
}

// steered runs levels[0], stopping it at a point while levels[1] runs, and so on. What is
// stopped may hold a lock that the others need, so it is held only for a while.
func steered(c *core.Case, points []int, wait time.Duration, levels []func()) {
	var wg sync.WaitGroup
	var fns []func()
	ran := make([]int32, len(levels))
	for k := 1; k < len(levels); k++ {
		k := k
		fns = append(fns, func() {
			atomic.StoreInt32(&ran[k], 1)
			done := make(chan struct{})
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer close(done)
				defer func() {
					if p := recover(); p != nil {
						c.Go(func() { panic(p) }) // reported as that of a case
					}
				}()
				levels[k]()
			}()
			w := wait
			if wait == prompt && atomic.LoadInt32(&excluded) > 0 {
				w = 50 * time.Millisecond
			}
			select {
			case <-done:
				c.Count("operations stopped until others were done", 1)
			case <-time.After(w):
				if w == prompt {
					atomic.StoreInt32(&excluded, 1)
				}
				c.Count("operations stopped while others waited for them", 1)
			}
		})
	}
	off := perturb.Steer(points, fns)
	levels[0]()
	off()
	wg.Wait()
	for k := 1; k < len(levels); k++ {
		if ran[k] == 0 {
			levels[k]()
		}
	}
	c.Wait()
}

// history collects the operations by key.
type history struct {
	c     *core.Case
	clock int64
	mu    sync.Mutex
	ops   map[uint64][]lop
}

func newHistory(c *core.Case) *history { return &history{c: c, ops: map[uint64][]lop{}} }

func (h *history) now() int64 { return atomic.AddInt64(&h.clock, 1) }

func (h *history) add(k uint64, s int64, desc string, apply func(st string) (string, bool)) {
	e := h.now()
	h.mu.Lock()
	h.ops[k] = append(h.ops[k], lop{s, e, desc, apply})
	h.mu.Unlock()
}

func (h *history) check(what string) uint64 {
	d := uint64(0)
	var keys []uint64
	for k := range h.ops {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool { return keys[a] < keys[b] })
	for _, k := range keys {
		ops := h.ops[k]
		sort.Slice(ops, func(a, b int) bool { return ops[a].s < ops[b].s })
		var t []string
		for _, o := range ops {
			t = append(t, fmt.Sprintf("[%d,%d] %s", o.s, o.e, o.desc))
		}
		text := strings.Join(t, "\n")
		h.c.Check(explained(ops, ""), "%s, key %#x: no order of these operations explains what they report:\n%s", what, k, text)
		d = core.Mix(d, core.HashBytes([]byte(text)))
	}
	h.c.Count("steered histories checked", len(keys))
	return d
}

// fine makes, in half of the cases, each statement of the algorithms a point and returns
// how many there are then if there were n before, and a function that ends it.
func fine(rng *core.Rand, c *core.Case, n int) (int, func()) {
	if rng.Bool() {
		return n, func() {}
	}
	perturb.Fine(true)
	c.Count("cases steered statement by statement", 1)
	return 4*n + 20, func() { perturb.Fine(false) }
}

// plan makes the operations of each level and the points at which they are stopped.
func plan(rng *core.Rand, maxPoint int) (sizes, points []int) {
	sizes = []int{1, rng.PickInt(1, 1, 2, 3)}
	points = []int{1 + rng.Intn(rng.PickInt(4, maxPoint, maxPoint))}
	for len(sizes) < 4 && rng.P(0.5) {
		sizes = append(sizes, rng.PickInt(1, 2))
		points = append(points, 1+rng.Intn(maxPoint))
	}
	return
}

// value fills a buffer with a version, recognisable in every word.
func value(b []byte, ver uint32) {
	for i := range b {
		var w [8]byte
		binary.LittleEndian.PutUint32(w[:], ver)
		binary.LittleEndian.PutUint32(w[4:], ver*0x9e3779b1+uint32(i/8)*0x85ebca6b)
		b[i] = w[i%8]
	}
}

func valueOf(b []byte) string {
	for _, x := range b {
		if x != 0 {
			ver := uint32(0)
			if len(b) >= 4 {
				ver = binary.LittleEndian.Uint32(b)
			}
			want := make([]byte, len(b))
			value(want, ver)
			if string(want) != string(b) {
				return fmt.Sprintf("torn %x", b)
			}
			return fmt.Sprint("v", ver)
		}
	}
	return "zero"
}

func bufmapSteer(c *core.Case, i int) {
	rng := c.Rng
	perturb.Off()
	l, size := rng.PickInt(3, 4, 12, 30), rng.PickInt(4, 8, 16, 33, 100)
	m := bufmap.New(l, size)
	base := uint64(rng.Intn(l)) + uint64(l)
	keys := []uint64{base, base + uint64(l), base + uint64(rng.PickInt(1, 2*l))}
	h := newHistory(c)
	vers := uint32(0)
	op := func(kind int, k uint64) {
		s := h.now()
		switch kind {
		case 0, 1:
			buf := make([]byte, size)
			if m.Get(k, buf) {
				v := valueOf(buf)
				h.add(k, s, "get "+v, func(st string) (string, bool) { return st, st == v })
			} else {
				h.add(k, s, "get nothing", func(st string) (string, bool) { return st, st == "" })
			}
		default:
			fail := kind == 4
			ver := atomic.AddUint32(&vers, 1)
			seen := "none"
			err := m.Update(k, func(data []byte, init bool) error {
				if perturb.Hit(); init {
					seen = ""
				} else {
					seen = valueOf(data)
				}
				value(data, ver)
				if fail {
					return errUpdate
				}
				return nil
			})
			v := fmt.Sprint("v", ver)
			if fail {
				c.Check(err == errUpdate, "a failing update of key %#x of %d reports %v", k, len(keys), err)
				h.add(k, s, fmt.Sprintf("failing update, sees %q", seen), func(st string) (string, bool) { return st, st == seen })
			} else {
				c.Check(err == nil, "an update of key %#x, one of %d in %d slots, reports %v", k, len(keys), l, err)
				h.add(k, s, fmt.Sprintf("update to %s, sees %q", v, seen), func(st string) (string, bool) { return v, st == seen })
			}
		}
	}
	for n := rng.Intn(3); n > 0; n-- {
		op(2, keys[rng.Intn(len(keys))])
	}
	max, coarse := fine(rng, c, 4+4*((size+7)/8))
	defer coarse()
	sizes, points := plan(rng, max)
	var levels []func()
	for _, n := range sizes {
		var todo [][2]int
		for ; n > 0; n-- {
			todo = append(todo, [2]int{rng.Intn(5), rng.PickInt(0, 0, 0, 1, 2)})
		}
		levels = append(levels, func() {
			for _, t := range todo {
				op(t[0], keys[t[1]])
			}
		})
	}
	steered(c, points, time.Millisecond, levels)
	for _, k := range keys {
		op(0, k)
	}
	c.Eval(h.check(fmt.Sprintf("map of %d slots of %d bytes", l, size)))
}

// bufmapPass stops a read in the middle while the value is updated many times, so that the
// number of updates alone cannot tell that it was.
func bufmapPass(c *core.Case, i int) {
	rng := c.Rng
	perturb.Off()
	size, n, point := 40, 1<<uint(i%18), 1+i/18
	if point > 8 {
		size, n = rng.PickInt(8, 16, 40, 333), rng.Range(1, 5000)
		max, coarse := fine(rng, c, 2+(size+7)/8)
		defer coarse()
		point = 1 + rng.Intn(max)
	}
	m := bufmap.New(5, size)
	put := func(ver int) {
		err := m.Update(7, func(data []byte, init bool) error { value(data, uint32(ver)); return nil })
		c.Check(err == nil, "Update: %v", err)
	}
	put(1)
	got := ""
	steered(c, []int{point}, prompt, []func(){
		func() {
			buf := make([]byte, size)
			c.Check(m.Get(7, buf), "a key that is held is not found")
			got = valueOf(buf)
		},
		func() {
			for k := 0; k < n; k++ {
				put(2 + k)
				if k%1024 == 0 {
					c.Tick()
				}
			}
		},
	})
	ver := 0
	fmt.Sscanf(got, "v%d", &ver)
	c.Check(ver >= 1 && ver <= n+1, "a read during which the value was updated %d times returns %s", n, got)
	c.Count("updates during a read", n)
	c.Eval(core.Mix(uint64(n), uint64(ver)))
}

const prompt = 20 * time.Second

// excluded is set once others had to wait for what was stopped, after which there is no
// point in giving them long.
var excluded int32

func seqlockSteer(c *core.Case, i int) {
	rng := c.Rng
	perturb.Off()
	l := seqlock.New()
	h := newHistory(c)
	vers := uint32(0)
	op := func(kind int) {
		s := h.now()
		ver := atomic.AddUint32(&vers, 1)
		v := fmt.Sprint("v", ver)
		switch kind {
		case 0, 1:
			b := l.Get()
			v := valueOf(b[:])
			h.add(0, s, "get "+v, func(st string) (string, bool) { return st, st == v })
		case 2:
			var b [1024]byte
			value(b[:], ver)
			l.Put(b)
			h.add(0, s, "put "+v, func(st string) (string, bool) { return v, true })
		default:
			fail := kind == 4
			seen := "none"
			err := l.Update(func(data []byte) error {
				perturb.Hit()
				seen = valueOf(data)
				value(data, ver)
				if fail {
					return errUpdate
				}
				return nil
			})
			if fail {
				c.Check(err == errUpdate, "a failing update reports %v", err)
				h.add(0, s, "failing update, sees "+seen, func(st string) (string, bool) { return st, st == seen })
			} else {
				c.Check(err == nil, "an update reports %v", err)
				h.add(0, s, "update to "+v+", sees "+seen, func(st string) (string, bool) { return v, st == seen })
			}
		}
	}
	op(2)
	max, coarse := fine(rng, c, 270)
	defer coarse()
	sizes, points := plan(rng, max)
	var levels []func()
	for _, n := range sizes {
		var todo []int
		for ; n > 0; n-- {
			todo = append(todo, rng.Intn(5))
		}
		levels = append(levels, func() {
			for _, t := range todo {
				op(t)
			}
		})
	}
	steered(c, points, time.Millisecond, levels)
	op(0)
	c.Eval(h.check("sequence lock"))
}

func seqlockPass(c *core.Case, i int) {
	rng := c.Rng
	perturb.Off()
	l := seqlock.New()
	n, point := 1<<uint(i%18), rng.PickInt(1, 2, 3, 20, 64, 100, 128, 129)
	if i >= 54 {
		max, coarse := fine(rng, c, 129)
		defer coarse()
		n, point = rng.Range(1, 3000), 1+rng.Intn(max)
	}
	put := func(ver int) {
		var b [1024]byte
		value(b[:], uint32(ver))
		if ver%2 == 0 {
			l.Put(b)
		} else {
			l.Update(func(data []byte) error { copy(data, b[:]); return nil })
		}
	}
	put(1)
	got := ""
	steered(c, []int{point}, prompt, []func(){
		func() {
			b := l.Get()
			got = valueOf(b[:])
		},
		func() {
			for k := 0; k < n; k++ {
				put(2 + k)
				if k%1024 == 0 {
					c.Tick()
				}
			}
		},
	})
	ver := 0
	fmt.Sscanf(got, "v%d", &ver)
	c.Check(ver >= 1 && ver <= n+1, "a read during which %d values were written returns %s", n, clipValue(got))
	c.Count("writes during a read", n)
	c.Eval(core.Mix(uint64(n), uint64(ver)))
}

func clipValue(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func incmapSteer(c *core.Case, i int) {
	rng := c.Rng
	perturb.Off()
	l := rng.PickInt(3, 4, 12, 30)
	m := incmap.New(l)
	base := uint64(rng.Intn(l)) + uint64(l)
	keys := []uint64{base, base + uint64(l), base + uint64(rng.PickInt(1, 2*l))}
	h := newHistory(c)
	bit := uint32(0)
	begun := map[uint64]int{}
	var mu sync.Mutex
	op := func(kind int, k uint64) {
		s := h.now()
		if kind > 1 {
			d := uint64(1) << (atomic.AddUint32(&bit, 1) - 1)
			mu.Lock()
			begun[k]++
			mu.Unlock()
			ok := m.Inc(k, d)
			c.Check(ok, "an increment of key %#x, one of %d in %d slots, is refused", k, len(keys), l)
			h.add(k, s, fmt.Sprintf("increment by %#x", d), func(st string) (string, bool) { return fmt.Sprint(sumOf(st) + d), true })
			return
		}
		v, ok := m.Get(k)
		mu.Lock()
		n := begun[k]
		mu.Unlock()
		if !ok {
			h.add(k, s, "get nothing", func(st string) (string, bool) { return st, st == "" })
			return
		}
		// a key whose first increment is under way may be found with nothing in it
		c.Check(n > 0, "key %#x, which was never incremented, is found", k)
		h.add(k, s, fmt.Sprintf("get %#x", v), func(st string) (string, bool) { return st, sumOf(st) == v })
	}
	for n := rng.Intn(3); n > 0; n-- {
		op(2, keys[rng.Intn(len(keys))])
	}
	max, coarse := fine(rng, c, 4)
	defer coarse()
	sizes, points := plan(rng, max)
	var levels []func()
	for _, n := range sizes {
		var todo [][2]int
		for ; n > 0; n-- {
			todo = append(todo, [2]int{rng.Intn(4), rng.PickInt(0, 0, 0, 1, 2)})
		}
		levels = append(levels, func() {
			for _, t := range todo {
				op(t[0], keys[t[1]])
			}
		})
	}
	steered(c, points, time.Millisecond, levels)
	for _, k := range keys {
		op(0, k)
	}
	c.Eval(h.check(fmt.Sprintf("map of %d slots", l)))
}

func sumOf(st string) (v uint64) {
	fmt.Sscan(st, &v)
	return
}
