package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkBackend(r *core.Run) {
	r.Rule = "stores over backends written by the monitor that keep the contract of storage.Backend but are not the buffer map. retry/*: for every observation the update function is tried any number of times on copies of the record, on old versions of it and on memory full of garbage that is to be initialised, with the copies overwritten afterwards, before one result is kept; all instances are compared with the model. " +
		"fault/*: the backend returns errors of its own (before, between or after trials, and when reading it does not know the record); the observation must report the error and not count, directly or over HTTP. cancel/*: observations whose context has ended must return its error and change nothing, and if it ends during the update the observation must be either acknowledged or without effect. " +
		"race/*: the same with concurrent writers and readers, whose buffers are held while others read. Non-trivial if at least one observation was tried more than once or refused. Digest: schema, observations and values."
	r.Assum = []string{"an update function is never called concurrently with itself for one observation, and the record it is given is the one of the key or is to be initialised"}
	r.Each(r.N(6000, 80000), "retry", backRetry)
	r.Each(r.N(3000, 30000), "fault", backFault)
	r.Each(r.N(200, 2000), "fault-http", backFaultHTTP)
	r.Each(r.N(2000, 20000), "cancel", backCancel)
	r.Each(r.N(250, 3000), "race", backRace)
}

// ledger is a backend that keeps every record it was ever given.
type ledger struct {
	mu     sync.Mutex
	rng    *core.Rand
	size   int
	recs   map[uint64]*record
	trials int // trials in all
	// fail is called at each step of an update and may return an error.
	fail func(step string) error
	// hold is called with a buffer that has just been read.
	hold func(buf []byte)
	lost bool // Get finds nothing
	c    *core.Case
}

type record struct {
	mu       sync.Mutex
	rng      *core.Rand
	versions [][]byte
}

func newLedger(c *core.Case, size int) *ledger {
	return &ledger{rng: c.Rng.Fork(), size: size, recs: map[uint64]*record{}, c: c}
}

func (l *ledger) rec(k uint64, add bool) *record {
	l.mu.Lock()
	defer l.mu.Unlock()
	r := l.recs[k]
	if r == nil && add {
		r = &record{rng: l.rng.Fork()}
		l.recs[k] = r
	}
	return r
}

func (l *ledger) Update(k uint64, fn func(data []byte, init bool) error) error {
	r := l.rec(k, true)
	r.mu.Lock()
	defer r.mu.Unlock()
	rng := r.rng
	fail := func(step string) error {
		if l.fail == nil {
			return nil
		}
		return l.fail(step)
	}
	if err := fail("before"); err != nil {
		return err
	}
	try := func(from []byte) ([]byte, error) {
		data := make([]byte, l.size, l.size+rng.Intn(2)*100)
		if from == nil {
			rng2 := rng.Intn(3)
			for i := range data {
				switch rng2 {
				case 0:
					data[i] = byte(i * 37)
				case 1:
					data[i] = 0xff
				}
			}
		} else {
			copy(data, from)
		}
		err := fn(data, from == nil)
		return data, err
	}
	n := len(r.versions)
	var cur []byte
	if n > 0 {
		cur = r.versions[n-1]
	}
	for t := rng.PickInt(0, 0, 1, 1, 2, 5); t > 0; t-- {
		from := cur
		switch {
		case rng.P(0.3):
			from = nil
		case n > 1 && rng.P(0.3):
			from = r.versions[rng.Intn(n)]
		}
		data, err := try(from)
		for i := range data {
			data[i] ^= 0xa5 // not kept
		}
		l.mu.Lock()
		l.trials++
		l.mu.Unlock()
		if err != nil {
			return err
		}
		if err := fail("between"); err != nil {
			return err
		}
	}
	data, err := try(cur)
	if err != nil {
		return err
	}
	if err := fail("after"); err != nil {
		return err
	}
	if len(r.versions) > 6 {
		r.versions = r.versions[3:]
	}
	r.versions = append(r.versions, data)
	return nil
}

func (l *ledger) Get(k uint64, buf []byte) bool {
	r := l.rec(k, false)
	if r == nil || l.lost {
		return false
	}
	r.mu.Lock()
	n := len(r.versions)
	if n == 0 {
		r.mu.Unlock()
		return false
	}
	cur := r.versions[n-1]
	r.mu.Unlock()
	l.c.Check(len(buf) >= l.size, "a record of %d bytes is to be read into a buffer of %d", l.size, len(buf))
	copy(buf, cur)
	if l.hold != nil {
		l.hold(buf)
		l.c.Check(bytes.Equal(buf[:l.size], cur[:l.size]), "a buffer is changed by others while the backend fills it")
	}
	return true
}

// kept returns all records.
func (l *ledger) kept() map[uint64]string {
	m := map[uint64]string{}
	for k, r := range l.recs {
		if n := len(r.versions); n > 0 {
			m[k] = string(r.versions[n-1])
		}
	}
	return m
}

func same(a, b map[uint64]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// scribbled writes an observation and overwrites the row afterwards.
func scribbled(st storage.Store, ctx context.Context, o obs) error {
	row := o.row()
	err := st.Write(ctx, row)
	for _, fv := range row.Data {
		for i := range fv.F {
			fv.F[i] = '?'
		}
		for i := range fv.V {
			fv.V[i] = '?'
		}
	}
	return err
}

func backRetry(c *core.Case, i int) {
	rng := c.Rng
	s := denseSchema(rng)
	m := newModel(s)
	coll := s.compile(c)
	l := newLedger(c, coll.Size())
	st := storage.Store{Backend: l, Collator: coll}
	n := rng.Range(1, 30)
	os := measFeed(rng, m, n)
	v := 0
	for j, o := range os {
		err := scribbled(st, context.Background(), o)
		c.Check(err == nil, "%v: observation %q is rejected: %v", s, o, err)
		m.add(o)
		if rng.P(0.1) {
			v += m.verifyAll(c, &direct{st}, fmt.Sprintf("after %d observations", j+1))
		}
	}
	v += m.verifyAll(c, &direct{st}, "at the end")
	c.Count("observations", n)
	c.Count("trials", l.trials)
	c.Count("values compared with the model", v)
	if l.trials > 0 {
		c.Eval(m.digest())
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("retry", fmt.Sprintf("%v: %d observations, %d trials", s, n, l.trials))
	}
}

var errOwn = errors.New("the backend is out of order")

func backFault(c *core.Case, i int) {
	rng := c.Rng
	s := denseSchema(rng)
	m := newModel(s)
	coll := s.compile(c)
	l := newLedger(c, coll.Size())
	st := storage.Store{Backend: l, Collator: coll}
	n := rng.Range(2, 25)
	os := measFeed(rng, m, n)
	refused, v := 0, 0
	for _, o := range os {
		if rng.P(0.4) {
			step := rng.Pick("before", "between", "after")
			own := []error{errOwn, io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", errOwn), context.Canceled}[rng.Intn(4)]
			failed := false
			l.fail = func(at string) error {
				if at != step || failed {
					return nil
				}
				failed = true
				return own
			}
			before := l.kept()
			err := scribbled(st, context.Background(), o)
			l.fail = nil
			if failed {
				c.Check(err != nil, "%v: the backend fails with %q (%s trials) but observation %q is acknowledged", s, own, step, o)
				c.Check(errors.Is(err, own), "%v: the backend fails with %q but the error reported for observation %q is %q", s, own, o, err)
				c.Check(same(before, l.kept()), "%v: observation %q is refused with %q but has changed a record", s, o, own)
				refused++
				continue
			}
			c.Check(err == nil, "%v: observation %q is rejected: %v", s, o, err)
		} else {
			err := scribbled(st, context.Background(), o)
			c.Check(err == nil, "%v: observation %q is rejected: %v", s, o, err)
		}
		m.add(o)
		if rng.P(0.1) {
			l.lost = true
			for _, k := range m.order {
				a := readStore(c, st, s.measures(), m.insts[k].crit)
				c.Check(len(a) == 0, "%v: the backend has no record but %q reports %v", s, m.insts[k].crit, a)
			}
			l.lost = false
		}
	}
	v = m.verifyAll(c, &direct{st}, "at the end")
	c.Count("observations refused by the backend", refused)
	c.Count("values compared with the model", v)
	if refused > 0 {
		c.Eval(m.digest())
	} else {
		c.Eval(0)
	}
}

func backFaultHTTP(c *core.Case, i int) {
	rng := c.Rng
	s := randomSchema(rng, "c", 2)
	m := newModel(s)
	coll := s.compile(c)
	l := newLedger(c, coll.Size())
	sv := serve(c, storage.Store{Backend: l, Collator: coll})
	defer sv.close()
	n := rng.Range(5, 40)
	f := newFeed(rng, m, rng.Range(1, 3), n)
	refused := 0
	for j := 0; j < n; {
		var os []obs
		for b := rng.Range(1, 6); b > 0; b-- {
			os = append(os, f.next())
			j++
		}
		d := delimFor(rng, os)
		var body strings.Builder
		for _, o := range os {
			body.WriteString(o.line(timestamp(rng), d) + "\n")
		}
		// the backend fails at one of the lines that have a record
		at, seen := -1, 0
		step := rng.Pick("before", "after")
		if rng.P(0.5) {
			at = rng.Intn(len(os))
		}
		failed := -1
		l.fail = func(st string) error {
			if st == step {
				if seen++; seen-1 == at {
					failed = at
					return errOwn
				}
			}
			return nil
		}
		rp := sv.post(c, body.String())
		l.fail = nil
		if failed >= 0 {
			c.Check(rp.code >= 400, "%v: the backend fails but observations %q get status %d", s, body.String(), rp.code)
			refused++
		} else {
			c.Check(ok2xx(rp.code), "%v: observations %q get status %d %s", s, body.String(), rp.code, rp.body)
		}
		// those before the failure are stored
		x := 0
		for _, o := range os {
			if routed(s, o) {
				if x == failed {
					break
				}
				x++
			}
			m.add(o)
		}
	}
	v := m.verifyAll(c, sv, "at the end")
	c.Count("batches refused by the backend", refused)
	c.Count("values compared with the model", v)
	if refused > 0 {
		c.Eval(m.digest())
	} else {
		c.Eval(0)
	}
}

// routed reports whether an observation has all the keys.
func routed(s *schema, o obs) bool {
	for _, k := range s.keys {
		if _, ok := o.get(k); !ok {
			return false
		}
	}
	return true
}

// midway calls fn at some point of an update.
type midway struct {
	storage.Backend
	at int
	fn func()
}

func (w *midway) call(at int) {
	if w.fn != nil && w.at == at {
		w.fn()
	}
}

func (w *midway) Update(k uint64, fn func(data []byte, init bool) error) error {
	w.call(0)
	err := w.Backend.Update(k, func(data []byte, init bool) error {
		err := fn(data, init)
		w.call(1)
		return err
	})
	w.call(2)
	return err
}

func backCancel(c *core.Case, i int) {
	rng := c.Rng
	s := denseSchema(rng)
	m := newModel(s)
	coll := s.compile(c)
	l := newLedger(c, coll.Size())
	st := storage.Store{Backend: l, Collator: coll}
	if rng.Bool() {
		st = s.store(c, 600)
	}
	mid := &midway{Backend: st.Backend}
	st.Backend = mid
	n := rng.Range(2, 20)
	f := newFeed(rng, m, rng.Range(1, 3), n)
	cancelled := 0
	for j := 0; j < n; j++ {
		o := f.next()
		if routed(s, o) && rng.P(0.4) {
			var ctx context.Context
			var cancel context.CancelFunc
			switch rng.Intn(3) {
			case 0:
				ctx, cancel = context.WithCancel(context.Background())
				cancel()
			case 1:
				ctx, cancel = context.WithDeadline(context.Background(), time.Unix(1, 0))
			case 2:
				var parent context.Context
				parent, cancel = context.WithTimeout(context.Background(), -1)
				ctx = context.WithValue(parent, new(int), 1)
			}
			err := scribbled(st, ctx, o)
			cancel()
			c.Check(errors.Is(err, ctx.Err()), "%v: observation %q whose context has ended (%v) gets %v", s, o, ctx.Err(), err)
			cancelled++
			continue
		}
		ctx, cancel := context.WithCancel(context.Background())
		if rng.P(0.2) {
			// it ends while the observation is being stored
			mid.at, mid.fn = rng.Intn(3), cancel
			err := scribbled(st, ctx, o)
			mid.fn = nil
			cancel()
			if err == nil {
				m.add(o)
			}
			a := m.verifyAll(c, &direct{st}, fmt.Sprintf("after the context of %q ended while it was being stored, with the result %v", o, err))
			c.Count("values compared with the model", a)
			c.Count("contexts that ended during the update", 1)
			continue
		}
		err := scribbled(st, ctx, o)
		cancel()
		c.Check(err == nil, "%v: observation %q is rejected: %v", s, o, err)
		m.add(o)
	}
	v := m.verifyAll(c, &direct{st}, "at the end")
	c.Count("observations whose context had ended", cancelled)
	c.Count("values compared with the model", v)
	if cancelled > 0 {
		c.Eval(m.digest())
	} else {
		c.Eval(0)
	}
}

func backRace(c *core.Case, i int) {
	rng := c.Rng
	s := ingestSchema(rng, "c", "k")
	m := newModel(s)
	coll := s.compile(c)
	l := newLedger(c, coll.Size())
	l.hold = func([]byte) { runtime.Gosched() }
	st := storage.Store{Backend: l, Collator: coll}
	keys := keyNames(rng, rng.Range(2, 5))
	writers, readers := rng.Range(2, 4), rng.Range(2, 3)
	var all [][]obs
	// what an instance never reports: the least value is one only it gets
	low := map[string]int{}
	for x, k := range keys {
		low[k] = -5000000 - x
		o := obs{{"k", k}, {"x", fmt.Sprint(low[k])}}
		c.Check(scribbled(st, context.Background(), o) == nil, "observation %q is rejected", o)
		m.add(o)
	}
	for w := 0; w < writers; w++ {
		var os []obs
		for n := rng.Range(5, 30); n > 0; n-- {
			os = append(os, ingestObs(rng, keys[rng.Intn(len(keys))]))
		}
		all = append(all, os)
	}
	rngs := make([]*core.Rand, readers)
	for r := range rngs {
		rngs[r] = rng.Fork()
	}
	race(c, writers+readers, func(w int) {
		if w < writers {
			for _, o := range all[w] {
				c.Check(scribbled(st, context.Background(), o) == nil, "observation %q is rejected", o)
			}
			return
		}
		rng := rngs[w-writers]
		for n := 0; n < 40; n++ {
			k := keys[rng.Intn(len(keys))]
			a := readStore(c, st, []string{"min(x)"}, []kv{{"k", k}})
			g, ok := a.get("min(x)")
			c.Check(ok && g == fmt.Sprint(float64(low[k])), "instance %q reports %v, the least value is %d", k, a, low[k])
		}
	})
	n := 0
	for _, os := range all {
		for _, o := range os {
			m.add(o)
			n++
		}
	}
	v := m.verifyAll(c, &direct{st}, "at the end")
	c.Count("concurrent observations", n)
	c.Count("concurrent queries", 40*readers)
	c.Count("trials", l.trials)
	c.Count("values compared with the model", v)
	c.Eval(m.digest())
}
