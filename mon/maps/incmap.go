package main

import (
	"fmt"
	"sync/atomic"

	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

func checkIncmap(r *core.Run) {
	r.Rule = "model/*: random sequences of increments and reads compared with a Go map; non-trivial if keys collided. " +
		"bits/*: concurrent increments by distinct powers of two, so that every read value decodes to the exact set of increments it contains; non-trivial if a read saw a proper subset. " +
		"wide/*: many concurrent increments by one amount that has bits in all parts of the word; each read must be a whole multiple between what was completed and what was begun. sum/*: many concurrent small increments, compared at the end. Digest: parameters and outcomes."
	r.Assum = []string{"concurrent histories sample schedules; disturbances are injected at the yield points"}
	r.Each(r.N(20000, 300000), "model", incModel)
	r.Seq(r.N(600, 8000), "bits", incBits)
	r.Seq(r.N(60, 800), "sum", incSum)
	r.Seq(r.N(40, 400), "wide", incWide)
	r.Seq(r.N(10000, 150000), "steer", incmapSteer)
	perturb.Report(r)
}

func incModel(c *core.Case, i int) {
	rng := c.Rng
	l := mapSizes[rng.Intn(len(mapSizes))]
	n := rng.Range(1, 40)
	if rng.P(0.3) {
		n = rng.Range(1, 2*l+3)
		if n > 200 {
			n = 200
		}
	}
	keys := keyPool(rng, l, n)
	m := incmap.New(l)
	model := map[uint64]uint64{}
	min := l
	if min > 11 {
		min = 11
	}
	digest := core.Mix(uint64(l), uint64(n))
	refused := 0
	ops := rng.Range(20, 200)
	for op := 0; op < ops; op++ {
		k := keys[rng.Intn(len(keys))]
		if rng.P(0.03) {
			k = 0
		}
		if rng.P(0.3) {
			v, ok := m.Get(k)
			w, wok := model[k]
			c.Check(ok == wok && (!ok || v == w), "l=%d: Get(%d) = %d,%v, want %d,%v", l, k, v, ok, w, wok)
			continue
		}
		d := uint64(1)
		switch rng.Intn(6) {
		case 0:
			d = 0
		case 1:
			d = rng.Uint64()
		case 2:
			d = ^uint64(0) - uint64(rng.Intn(10))
		case 3:
			d = uint64(rng.Intn(1000))
		case 4:
			d = 1 << uint(rng.Intn(64))
		}
		ok := m.Inc(k, d)
		if k == 0 {
			c.Check(!ok, "key 0 was accepted")
			continue
		}
		if ok {
			model[k] += d
		} else {
			refused++
			_, had := model[k]
			c.Check(!had, "l=%d: increment of key %d refused although it is held", l, k)
			c.Check(len(model) >= min, "l=%d: key %d refused although only %d keys are held", l, k, len(model))
		}
		digest = core.Mix(digest, k, d)
	}
	for _, k := range append(keys, 0, keys[0]+uint64(l)*7919+1) {
		v, ok := m.Get(k)
		w, wok := model[k]
		c.Check(ok == wok && (!ok || v == w), "l=%d: at the end Get(%d) = %d,%v, want %d,%v", l, k, v, ok, w, wok)
	}
	c.Count("model operations", ops)
	c.Count("model refusals", refused)
	if n > 1 {
		c.Eval(digest)
	} else {
		c.Eval(0)
	}
}

type bitKey struct {
	key                 uint64
	next                int64 // next power to use
	started, done, deny uint64
}

func or(p *uint64, bit uint64) {
	for {
		o := atomic.LoadUint64(p)
		if atomic.CompareAndSwapUint64(p, o, o|bit) {
			return
		}
	}
}

func incBits(c *core.Case, i int) {
	rng := c.Rng
	disturbed(rng, 8, 0.8, func() {
		for round := 0; round < 12; round++ {
			l := []int{1, 2, 3, 5, 8, 11, 12, 64}[rng.Intn(8)]
			nk := rng.Range(1, 5)
			full := rng.P(0.2)
			if full {
				nk = l + 3
			} else if nk > l {
				nk = l
			}
			m := incmap.New(l)
			var ks []*bitKey
			for _, k := range keyPool(rng, l, nk) {
				ks = append(ks, &bitKey{key: k})
			}
			gate := make(chan struct{})
			var live int64
			w := rng.Range(2, 6)
			live = int64(w)
			for g := 0; g < w; g++ {
				rg := rng.Fork()
				c.Go(func() {
					defer atomic.AddInt64(&live, -1)
					<-gate
					for tries := 0; tries < 40*nk && !c.Stop(); tries++ {
						b := ks[rg.Intn(len(ks))]
						p := atomic.AddInt64(&b.next, 1) - 1
						if p > 63 {
							continue
						}
						d := uint64(1) << uint(p)
						held := atomic.LoadUint64(&b.done) != 0
						or(&b.started, d)
						if m.Inc(b.key, d) {
							or(&b.done, d)
						} else {
							or(&b.deny, d)
							c.Check(full && !held, "l=%d: increment of key %d refused with %d keys in use (held=%v)", l, b.key, nk, held)
						}
					}
				})
			}
			for g := 0; g < rng.Range(1, 3); g++ {
				rg := rng.Fork()
				c.Go(func() {
					last := make([]uint64, len(ks))
					<-gate
					part := 0
					for n := 0; n < 2000 && atomic.LoadInt64(&live) > 0 && !c.Stop(); n++ {
						j := rg.Intn(len(ks))
						b := ks[j]
						low := atomic.LoadUint64(&b.done)
						v, ok := m.Get(b.key)
						high := atomic.LoadUint64(&b.started)
						if !ok {
							c.Check(low == 0 && last[j] == 0, "key %d not found although increments %x had completed", b.key, low)
							continue
						}
						c.Check(low&^v == 0, "read of key %d returned %x and misses completed increments %x", b.key, v, low&^v)
						c.Check(v&^high == 0, "read of key %d returned %x and contains %x that were never begun", b.key, v, v&^high)
						c.Check(last[j]&^v == 0, "reads of key %d lost increments %x", b.key, last[j]&^v)
						if v != 0 && v != high {
							part++
						}
						last[j] = v
					}
					c.Count("reads of a proper subset", part)
				})
			}
			close(gate)
			c.Wait()
			var dg uint64
			for _, b := range ks {
				v, ok := m.Get(b.key)
				c.Check(ok == (b.done != 0), "key %d found=%v, completed increments %x", b.key, ok, b.done)
				c.Check(v == b.done, "key %d (l=%d) holds %x, want %x", b.key, l, v, b.done)
				c.Count("concurrent increments", int(b.next))
				dg = core.Mix(dg, v, b.deny)
			}
			c.Eval(core.Mix(uint64(l), uint64(nk), dg, uint64(w)))
		}
	})
	if i < 2 {
		c.Sample("bits", "12 rounds of concurrent increments by distinct powers of two")
	}
}

func incSum(c *core.Case, i int) {
	rng := c.Rng
	perturb.Off()
	l := []int{2, 4, 11, 50}[rng.Intn(4)]
	nk := rng.Range(1, 4)
	if nk > l {
		nk = l
	}
	keys := keyPool(rng, l, nk)
	m := incmap.New(l)
	want := make([]uint64, nk)
	for g := 0; g < 8; g++ {
		rg := rng.Fork()
		c.Go(func() {
			sum := make([]uint64, nk)
			for n := 0; n < 20000; n++ {
				j := rg.Intn(nk)
				d := rg.Uint64() >> uint(rg.Intn(64))
				c.Check(m.Inc(keys[j], d), "increment refused")
				sum[j] += d
			}
			for j := range sum {
				atomic.AddUint64(&want[j], sum[j])
			}
		})
	}
	c.Wait()
	for j, k := range keys {
		v, ok := m.Get(k)
		c.Check(ok && v == want[j], "key %d (l=%d): got %d, want %d", k, l, v, want[j])
	}
	c.Count("concurrent increments", 8*20000)
	c.Eval(core.Mix(uint64(i), want[0]))
	if i < 2 {
		c.Sample("sum", fmt.Sprintf("l=%d keys=%v sums=%v", l, keys, want))
	}
}

// incWide increments one key by an amount that spreads over the word, so that a read of
// part of an increment is recognised.
func incWide(c *core.Case, i int) {
	rng := c.Rng
	perturb.Off()
	l := []int{1, 2, 11, 50}[rng.Intn(4)]
	d := []uint64{1<<32 | 1, 1<<48 | 1<<32 | 1<<16 | 1, 1<<50 | 1<<34 | 1<<18 | 1<<2, 1<<40 | 1<<31 | 1, 1<<33 | 1<<15}[rng.Intn(5)]
	const per = 4000 // so that the parts do not overflow into each other
	key := rng.Uint64() | 1
	m := incmap.New(l)
	w := rng.Range(1, 4)
	var begun, done uint64
	live := int64(w)
	for g := 0; g < w; g++ {
		c.Go(func() {
			defer atomic.AddInt64(&live, -1)
			for n := 0; n < per && !c.Stop(); n++ {
				atomic.AddUint64(&begun, 1)
				c.Check(m.Inc(key, d), "increment refused")
				atomic.AddUint64(&done, 1)
			}
		})
	}
	var reads, seen int64
	for g := rng.Range(1, 4); g > 0; g-- {
		c.Go(func() {
			last, r, s := uint64(0), int64(0), int64(0)
			for atomic.LoadInt64(&live) > 0 && !c.Stop() {
				low := atomic.LoadUint64(&done)
				v, ok := m.Get(key)
				high := atomic.LoadUint64(&begun)
				r++
				if !ok {
					c.Check(low == 0 && last == 0, "key %d not found after %d increments", key, low)
					continue
				}
				n := v / d
				c.Check(v%d == 0, "read of key %d returned %x, which is not a multiple of the increment %x", key, v, d)
				c.Check(n >= low && n <= high && n >= last, "read of key %d contains %d increments; %d were complete, %d begun, and %d seen before", key, n, low, high, last)
				if n != last {
					s++
				}
				last = n
			}
			atomic.AddInt64(&reads, r)
			atomic.AddInt64(&seen, s)
		})
	}
	c.Wait()
	v, ok := m.Get(key)
	c.Check(ok && v == uint64(w)*per*d, "key %d holds %x after %d increments of %x", key, v, w*per, d)
	c.Count("concurrent increments", w*per)
	c.Count("values seen while incrementing", int(seen))
	c.Eval(core.Mix(uint64(l), d, uint64(w), uint64(reads)))
}
