package main

import (
	"errors"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

func checkSeqlock(r *core.Run) {
	r.Rule = "model/*: random sequences of put, get, update and failing update against a byte array. history/*: concurrent puts, updates, failing updates and reads of unique 1024-byte patterned values, " +
		"recorded with call and return times and checked for linearizability (zones of Gibbons and Korach; updates are also checked to follow their predecessor immediately). " +
		"pass/*: a read is stopped at one of its steps while up to 65536 writes are done. steer/*: an operation is stopped at one of its steps until others are done, of which one may be stopped likewise; the history of each key must be linearizable. Non-trivial if reads overlapped writes. Digest: outcome of the history."
	r.Assum = []string{"concurrent histories sample schedules; disturbances are injected at the yield points"}
	r.Each(r.N(6000, 80000), "model", seqModel)
	r.Seq(r.N(240, 4000), "history", seqHistory)
	r.Seq(r.N(3000, 40000), "steer", seqlockSteer)
	r.Seq(r.N(72, 360), "pass", seqlockPass)
	perturb.Report(r)
}

const seqKey = 0x5eb10c

func seqModel(c *core.Case, i int) {
	rng := c.Rng
	s := seqlock.New()
	var model [1024]byte
	digest := uint64(0)
	n := rng.Range(1, 60)
	for op := 0; op < n; op++ {
		kind := rng.Intn(4)
		digest = core.Mix(digest, uint64(kind))
		switch kind {
		case 0:
			var v [1024]byte
			copy(v[:], rng.Bytes(1024))
			s.Put(v)
			model = v
		case 1:
			fail := rng.P(0.4)
			lo := rng.Intn(1024)
			b := rng.Bytes(rng.Range(1, 1024-lo))
			calls := 0
			err := s.Update(func(data []byte) error {
				calls++
				c.Check(len(data) == 1024, "update function got %d bytes", len(data))
				c.Check(string(data) == string(model[:]), "update sees a value other than the last written one")
				copy(data[lo:], b)
				if fail {
					return errUpdate
				}
				return nil
			})
			c.Check(calls > 0, "update function was not called")
			if fail {
				c.Check(errors.Is(err, errUpdate), "failing update returned %v", err)
			} else {
				c.Check(err == nil, "update returned %v", err)
				copy(model[lo:], b)
			}
		default:
			v := s.Get()
			c.Check(v == model, "get returned something other than the last written value")
			v[rng.Intn(1024)]++ // must not affect the lock's data
		}
	}
	c.Check(s.Get() == model, "final value differs")
	c.Count("model operations", n)
	c.Eval(digest)
}

type seqOp struct {
	kind       byte   // 'p' put, 'u' update, 'f' failing update, 'g' get
	reads      uint64 // id of the value read (u, f, g)
	writes     uint64 // id of the value written (p, u)
	start, end int64
}

func seqHistory(c *core.Case, i int) {
	rng := c.Rng
	disturbed(rng, 8, 0.8, func() {
		s := seqlock.New()
		var clock, ids, writing int64
		var mu sync.Mutex
		var hist []seqOp
		w, rd := rng.Range(1, 4), rng.Range(1, 4)
		ops := rng.PickInt(50, 150, 300)
		putRate := []float64{0, 0.3, 0.7, 1}[rng.Intn(4)]
		failRate := []float64{0, 0.2, 0.5}[rng.Intn(3)]
		gate := make(chan struct{})
		decode := func(b []byte, who string) uint64 {
			id, ok := version(b, seqKey)
			if id == 0 {
				for _, x := range b {
					c.Check(x == 0, "%s saw a value that was never written: %s", who, describe(b))
				}
				return 0
			}
			c.Check(ok, "%s saw a value that was never written (torn): %s", who, describe(b))
			return id
		}
		for g := 0; g < w; g++ {
			rg := rng.Fork()
			c.Go(func() {
				var mine []seqOp
				<-gate
				for n := 0; n < ops && !c.Stop(); n++ {
					op := seqOp{}
					atomic.AddInt64(&writing, 1)
					if rg.P(putRate) {
						op.kind = 'p'
						op.writes = uint64(atomic.AddInt64(&ids, 1))
						var v [1024]byte
						pattern(v[:], seqKey, op.writes)
						op.start = atomic.AddInt64(&clock, 1)
						s.Put(v)
						op.end = atomic.AddInt64(&clock, 1)
					} else {
						fail := rg.P(failRate)
						id := uint64(atomic.AddInt64(&ids, 1))
						op.start = atomic.AddInt64(&clock, 1)
						err := s.Update(func(data []byte) error {
							op.reads = decode(data, "update")
							if fail {
								for i := range data {
									data[i] ^= 0x55
								}
								return errUpdate
							}
							pattern(data, seqKey, id)
							return nil
						})
						op.end = atomic.AddInt64(&clock, 1)
						if fail {
							op.kind = 'f'
							c.Check(errors.Is(err, errUpdate), "failing update returned %v", err)
						} else {
							op.kind = 'u'
							op.writes = id
							c.Check(err == nil, "update returned %v", err)
						}
					}
					atomic.AddInt64(&writing, -1)
					mine = append(mine, op)
				}
				mu.Lock()
				hist = append(hist, mine...)
				mu.Unlock()
			})
		}
		var overlap int64
		for g := 0; g < rd; g++ {
			c.Go(func() {
				var mine []seqOp
				<-gate
				for n := 0; n < ops && !c.Stop(); n++ {
					op := seqOp{kind: 'g'}
					b := atomic.LoadInt64(&writing)
					op.start = atomic.AddInt64(&clock, 1)
					v := s.Get()
					op.end = atomic.AddInt64(&clock, 1)
					if b > 0 || atomic.LoadInt64(&writing) > 0 {
						atomic.AddInt64(&overlap, 1)
					}
					op.reads = decode(v[:], "read")
					mine = append(mine, op)
				}
				mu.Lock()
				hist = append(hist, mine...)
				mu.Unlock()
			})
		}
		close(gate)
		c.Wait()
		v := s.Get()
		end := clock + 1
		hist = append(hist, seqOp{kind: 'g', reads: decode(v[:], "final read"), start: end, end: end + 1})
		linearizable(c, hist)
		dg := uint64(len(hist))
		for _, op := range hist {
			dg = core.Mix(dg, uint64(op.kind), op.reads, op.writes)
		}
		c.Count("history operations", len(hist))
		c.Count("reads overlapping writes", int(overlap))
		if overlap > 0 {
			c.Eval(dg)
		} else {
			c.Eval(0)
		}
		if i < 3 {
			var first []string
			for _, op := range hist[:min(6, len(hist))] {
				first = append(first, fmt.Sprintf("%c reads=%d writes=%d [%d,%d]", op.kind, op.reads, op.writes, op.start, op.end))
			}
			c.Sample("history", map[string]interface{}{"writers": w, "readers": rd, "operations": len(hist), "overlapping reads": overlap, "first": first})
		}
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// linearizable checks necessary conditions that are also sufficient for a register
// with unique values and no read-modify-write operations, and that for the latter
// adds that no value has two immediate successors.
func linearizable(c *core.Case, hist []seqOp) {
	type zone struct {
		id       uint64
		minEnd   int64
		maxStart int64
		written  bool
	}
	zones := map[uint64]*zone{0: {id: 0, minEnd: 0, maxStart: 0, written: true}}
	add := func(id uint64, op seqOp) *zone {
		z := zones[id]
		if z == nil {
			z = &zone{id: id, minEnd: op.end, maxStart: op.start}
			zones[id] = z
			return z
		}
		if op.end < z.minEnd {
			z.minEnd = op.end
		}
		if op.start > z.maxStart {
			z.maxStart = op.start
		}
		return z
	}
	successor := map[uint64]uint64{}
	writeStart := map[uint64]int64{}
	for _, op := range hist {
		switch op.kind {
		case 'p':
			add(op.writes, op).written = true
			writeStart[op.writes] = op.start
		case 'u':
			add(op.reads, op)
			add(op.writes, op).written = true
			writeStart[op.writes] = op.start
			if o, dup := successor[op.reads]; dup {
				c.Failf("lost update: updates to %d and %d both replaced value %d", o, op.writes, op.reads)
			}
			successor[op.reads] = op.writes
		default:
			add(op.reads, op)
		}
	}
	for _, op := range hist {
		if op.kind != 'p' {
			if !zones[op.reads].written {
				c.Failf("value %d was read but never (successfully) written", op.reads)
			}
			if st := writeStart[op.reads]; st > op.end {
				c.Failf("value %d was read at [%d,%d] before its write began at %d", op.reads, op.start, op.end, st)
			}
		}
	}
	// A value is current for the whole of its forward zone [minEnd,maxStart].
	var forward, backward []*zone
	for _, z := range zones {
		if z.minEnd < z.maxStart {
			forward = append(forward, z)
		} else {
			backward = append(backward, z)
		}
	}
	sort.Slice(forward, func(i, j int) bool { return forward[i].minEnd < forward[j].minEnd })
	for i := 1; i < len(forward); i++ {
		a, b := forward[i-1], forward[i]
		if b.minEnd < a.maxStart {
			c.Failf("not linearizable: value %d was current during [%d,%d] and value %d during [%d,%d]", a.id, a.minEnd, a.maxStart, b.id, b.minEnd, b.maxStart)
		}
	}
	for _, b := range backward {
		j := sort.Search(len(forward), func(i int) bool { return forward[i].minEnd > b.maxStart }) - 1
		if j >= 0 && forward[j].minEnd < b.maxStart && b.minEnd < forward[j].maxStart {
			c.Failf("not linearizable: value %d lived only within [%d,%d] while value %d was current during [%d,%d]", b.id, b.maxStart, b.minEnd, forward[j].id, forward[j].minEnd, forward[j].maxStart)
		}
	}
}
