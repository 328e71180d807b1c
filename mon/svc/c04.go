package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/exact"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

func checkSnapshots(r *core.Run) {
	r.Rule = "the i-th observation of an instance has the value 2^i, so the reported sum names the set of observations that the query saw; count, maximum, minimum, mean, variance and unique count of the response are compared with those of that set, " +
		"the set must contain all observations acknowledged before the query and none sent after the response, grow from query to query, and contain the lines of a batch in order; a third of the stores has a backend that takes its time before and after each access. direct/*: through storage.Store; http/*: through the server. steer/*: an operation is stopped before some statement of the store, the map, the collator or the server until others were done, of which one may be stopped, too. " +
		"Non-trivial if a query overlapped a write and saw some but not all observations. Digest: the sets seen."
	r.Assum = []string{"schedules are sampled, with injected delays"}
	r.Seq(r.N(2000, 25000), "direct", snapDirect)
	r.Seq(r.N(400, 3000), "http", snapHTTP)
	r.Seq(r.N(4000, 60000), "steer", snapSteer)
	perturb.Off()
	perturb.Report(r)
}

const snapMax = 50

type snapInst struct {
	key        string
	n          int
	sent, ackd [snapMax]int64 // logical times
	batch      [snapMax]int   // number of the batch
}

type snapSeen struct {
	set        uint64
	start, end int64
	inst       int
	text       string
}

func snapSchema(rng *core.Rand) *schema {
	s := &schema{name: "c", rec: 1, keys: []string{"k"}}
	s.fields = []fieldSpec{{"x", contMeasures}}
	if rng.P(0.7) {
		s.fields = append(s.fields, fieldSpec{"u", []string{fmt.Sprintf("uniquecount:%d", rng.PickInt(4, 6, 8, 10, 12, 13))}})
	}
	if rng.P(0.5) {
		s.fields = append(s.fields, fieldSpec{"w", []string{"sum", "min", "max"}})
	}
	rng.Shuffle(len(s.fields), func(i, j int) { s.fields[i], s.fields[j] = s.fields[j], s.fields[i] })
	return s
}

func snapObs(key string, i int) obs {
	v := strconv.FormatUint(1<<uint(i), 10)
	return obs{{"k", key}, {"x", v}, {"u", "item " + v}, {"w", v}}
}

// snapDecode finds the set of observations that an answer was computed from and checks
// that all of it agrees.
func snapDecode(c *core.Case, s *schema, a answer, n int) uint64 {
	if len(a) == 0 {
		return 0
	}
	txt, ok := a.get("sum(x)")
	c.Check(ok, "answer %v lacks the sum", a)
	sum, err := strconv.ParseFloat(txt, 64)
	c.Check(err == nil && sum >= 1 && sum < math.Ldexp(1, n) && sum == math.Trunc(sum), "the sum in %v is not that of a set of the observations", a)
	set := uint64(sum)
	in := &inst{rows: bits.OnesCount64(set), vals: map[string][]float64{}, items: map[string]map[string]bool{"u": {}}}
	for i := 0; i < n; i++ {
		if set>>uint(i)&1 == 1 {
			v := math.Ldexp(1, i)
			in.vals["x"] = append(in.vals["x"], v)
			in.vals["w"] = append(in.vals["w"], v)
			in.items["u"]["item "+strconv.FormatUint(1<<uint(i), 10)] = true
		}
	}
	for _, p := range a {
		in.verify(c, s, p.f, p.v, fmt.Sprintf("answer %v for the set %b of observations", a, set))
	}
	return set
}

var _ = exact.Of

// snapJudge checks the sets seen against the times.
func snapJudge(c *core.Case, insts []*snapInst, seen []snapSeen, final []uint64) {
	partial, overlap := 0, 0
	d := uint64(0)
	perInst := make([][]snapSeen, len(insts))
	for _, q := range seen {
		in := insts[q.inst]
		for i := 0; i < in.n; i++ {
			has := q.set>>uint(i)&1 == 1
			if !has && in.ackd[i] != 0 && in.ackd[i] < q.start {
				c.Failf("observation %d of %s was acknowledged before the query was sent and is missing from the answer (set %b)", i, in.key, q.set)
			}
			if has && (in.sent[i] == 0 || in.sent[i] > q.end) {
				c.Failf("observation %d of %s was sent after the response was received (set %b)", i, in.key, q.set)
			}
			if has && i > 0 && in.batch[i] == in.batch[i-1] && q.set>>uint(i-1)&1 == 0 {
				c.Failf("line %d of a batch was seen without the line before it (%s, set %b)", i, in.key, q.set)
			}
		}
		full := uint64(1)<<uint(in.n) - 1
		if q.set != 0 && q.set != full {
			partial++
		}
		for i := 0; i < in.n; i++ {
			if in.sent[i] < q.end && in.ackd[i] > q.start {
				overlap++
				break
			}
		}
		d += core.Mix(uint64(q.inst), q.set)
		perInst[q.inst] = append(perInst[q.inst], q)
	}
	for x, qs := range perInst {
		// qs are in order of their end; compare with everything that ended before
		for i := range qs {
			for j := i + 1; j < len(qs) && j < i+200; j++ {
				a, b := qs[i], qs[j]
				if a.end < b.start && a.set&^b.set != 0 {
					c.Failf("a query of %s saw %b and a later one only %b", insts[x].key, a.set, b.set)
				}
				if b.end < a.start && b.set&^a.set != 0 {
					c.Failf("a query of %s saw %b and a later one only %b", insts[x].key, b.set, a.set)
				}
				if a.set&^b.set != 0 && b.set&^a.set != 0 {
					c.Failf("two queries of %s saw %b and %b, neither of which can be the later state", insts[x].key, a.set, b.set)
				}
			}
		}
	}
	for x, in := range insts {
		c.Check(final[x] == uint64(1)<<uint(in.n)-1, "after all were acknowledged %s reports the set %b of %d observations", in.key, final[x], in.n)
	}
	c.Count("queries judged", len(seen))
	c.Count("queries overlapping a write", overlap)
	c.Count("queries that saw a part", partial)
	if partial > 0 && overlap > 0 {
		c.Eval(d)
	} else {
		c.Eval(0)
	}
}

func spin(d int) {
	if d <= 0 {
		return
	}
	t := time.Now()
	for time.Since(t) < time.Duration(d)*time.Microsecond {
	}
}

func snapRun(c *core.Case, i int, s *schema, t target, keys []string, http *remote) {
	rng := c.Rng
	var insts []*snapInst
	for _, k := range keys {
		insts = append(insts, &snapInst{key: k, n: rng.Range(10, snapMax)})
	}
	// each writer sends some of the batches of each instance
	writers := rng.Range(1, 4)
	readers := rng.Range(1, 4)
	type batch struct{ inst, lo, hi int }
	plan := make([][]batch, writers)
	nb := 0
	for x, in := range insts {
		for lo := 0; lo < in.n; {
			hi := lo + 1
			if http != nil && rng.P(0.5) {
				hi = lo + rng.Range(1, 8)
			}
			if hi > in.n {
				hi = in.n
			}
			nb++
			for j := lo; j < hi; j++ {
				in.batch[j] = nb
			}
			w := rng.Intn(writers)
			plan[w] = append(plan[w], batch{x, lo, hi})
			lo = hi
		}
	}
	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	var running int32 = int32(writers)
	pause := rng.PickInt(0, 0, 5, 30)
	seen := make([][]snapSeen, readers)
	// others send what is rejected, of the same instances and of ones that do not come to be
	noisy := 0
	if rng.Bool() {
		noisy = rng.Range(1, 2)
	}
	rngs := make([]*core.Rand, writers+readers+noisy)
	for j := range rngs {
		rngs[j] = rng.Fork()
	}
	ms := s.measures()
	limit := 3000
	if http != nil {
		limit = 400
	}
	perturb.Random(rng, writers+readers > 6)
	rejected := int64(0)
	race(c, writers+readers+noisy, func(w int) {
		rg := rngs[w]
		if w >= writers+readers {
			for n := 0; n < limit && atomic.LoadInt32(&running) > 0 && !c.Stop(); n++ {
				snapNoise(c, rg, t, insts[rg.Intn(len(insts))].key, http)
				atomic.AddInt64(&rejected, 1)
				spin(rg.Intn(pause + 1))
			}
			return
		}
		if w < writers {
			defer atomic.AddInt32(&running, -1)
			b := plan[w]
			rg.Shuffle(len(b), func(x, y int) { b[x], b[y] = b[y], b[x] })
			for _, bt := range b {
				in := insts[bt.inst]
				t0 := now()
				for j := bt.lo; j < bt.hi; j++ {
					atomic.StoreInt64(&in.sent[j], t0)
				}
				if http != nil {
					var body strings.Builder
					for j := bt.lo; j < bt.hi; j++ {
						body.WriteString(snapObs(in.key, j).line("1", '\t') + "\n")
					}
					rp := http.post(c, body.String())
					c.Check(ok2xx(rp.code), "observations are rejected: %d %s", rp.code, rp.body)
				} else {
					c.Check(t.write(c, snapObs(in.key, bt.lo)), "observation is rejected")
				}
				t1 := now()
				for j := bt.lo; j < bt.hi; j++ {
					atomic.StoreInt64(&in.ackd[j], t1)
				}
				spin(rg.Intn(pause + 1))
			}
			return
		}
		r := w - writers
		for atomic.LoadInt32(&running) > 0 && len(seen[r]) < limit && !c.Stop() {
			x := rg.Intn(len(insts))
			q := snapSeen{inst: x, start: now()}
			a := t.read(c, "c", ms, []kv{{"k", insts[x].key}})
			q.end = now()
			q.set = snapDecode(c, s, a, insts[x].n)
			seen[r] = append(seen[r], q)
			c.Tick()
		}
	})
	perturb.Off()
	c.Count("rejected observations and refused requests beside them", int(rejected))
	var all []snapSeen
	for _, l := range seen {
		all = append(all, l...)
	}
	final := make([]uint64, len(insts))
	for x, in := range insts {
		final[x] = snapDecode(c, s, t.read(c, "c", ms, []kv{{"k", in.key}}), in.n)
	}
	snapJudge(c, insts, all, final)
	if i < 3 {
		c.Sample("history", fmt.Sprintf("%v: %d writers, %d readers, %d instances, %d queries", s, writers, readers, len(insts), len(all)))
	}
}

// snapNoise sends something that must have no effect.
func snapNoise(c *core.Case, rng *core.Rand, t target, key string, sv *remote) {
	o := obs{{"k", key}, {"u", rng.Pick("evil", "item 1")}, {"w", rng.Pick("-1e9", "1e19")}, {"x", rng.Pick("-3", "1e18", "1099511627776")}, {"other", "1"}}
	rng.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	for i := range o {
		if o[i].f == "x" {
			o[i].v = rng.Pick("", "1e400", "x", "1,5", "0x", "--1")
		}
		if o[i].f == "k" && rng.P(0.2) {
			o[i].v = rng.Pick("new", "newer", "3")
		}
	}
	if sv == nil || rng.P(0.4) {
		c.Check(!t.write(c, o), "observation %q is accepted", o)
		return
	}
	want := 400
	var rp reply
	switch rng.Intn(6) {
	case 0:
		rp, want = sv.post(c, "x"+o.line("1", '\t')+"\n"), 500
	case 1:
		rp = sv.do(c, "POST", "/obs", "image/png", o.line("1", '\t'), false)
	case 2:
		rp = sv.do(c, "GET", "/obs", "text/plain", o.line("1", '\t'), false)
	case 3:
		rp = sv.query(c, "c", "select count(*)", rng.Bool())
	case 4:
		rp = sv.query(c, "nosuch", "select count(*) where k='"+key+"'", rng.Bool())
	case 5:
		rp, want = sv.post(c, o.line("1", '|')+"\n"+o.line("1", '\t')+"\n"), 500
	}
	c.Check(rp.code >= want, "a request that is not well-formed gets %d %s", rp.code, rp.body)
}

// lagging is a backend that takes its time before and after reads and updates.
type lagging struct {
	storage.Backend
	n    uint64
	seed uint64
}

func (l *lagging) lag(max int) {
	x := core.Mix(l.seed, atomic.AddUint64(&l.n, 1))
	if x%3 != 0 {
		time.Sleep(time.Duration(x>>8%uint64(max)) * time.Microsecond)
	}
}

func (l *lagging) Get(k uint64, buf []byte) bool {
	l.lag(100)
	ok := l.Backend.Get(k, buf)
	l.lag(1000)
	return ok
}

func (l *lagging) Update(k uint64, fn func([]byte, bool) error) error {
	l.lag(100)
	err := l.Backend.Update(k, fn)
	l.lag(100)
	return err
}

func snapStore(c *core.Case, i int, s *schema, slots int) storage.Store {
	st := s.store(c, slots)
	if i%3 == 2 {
		st.Backend = &lagging{Backend: st.Backend, seed: c.Rng.Uint64()}
	}
	return st
}

func snapDirect(c *core.Case, i int) {
	s := snapSchema(c.Rng)
	keys := keyNames(c.Rng, c.Rng.PickInt(1, 1, 2, 3))
	snapRun(c, i, s, &direct{snapStore(c, i, s, c.Rng.PickInt(len(keys), 8, 64))}, keys, nil)
}

func snapHTTP(c *core.Case, i int) {
	s := snapSchema(c.Rng)
	keys := keyNames(c.Rng, c.Rng.PickInt(1, 1, 2, 3))
	sv := serve(c, snapStore(c, i, s, c.Rng.PickInt(len(keys), 8, 64)))
	defer sv.close()
	snapRun(c, i, s, sv, keys, sv)
}

// snapSteer stops an operation before some statement while others run to their end.
func snapSteer(c *core.Case, i int) {
	rng := c.Rng
	perturb.Off()
	s := &schema{name: "c", rec: 1, keys: []string{"k"}}
	s.fields = []fieldSpec{{"x", contMeasures}}
	if rng.Bool() {
		s.fields = append(s.fields, fieldSpec{"u", []string{fmt.Sprintf("uniquecount:%d", rng.PickInt(4, 5))}})
	}
	if rng.P(0.3) {
		s.fields = append(s.fields, fieldSpec{"w", []string{"sum", "min", "max"}})
	}
	rng.Shuffle(len(s.fields), func(i, j int) { s.fields[i], s.fields[j] = s.fields[j], s.fields[i] })
	keys := keyNames(rng, rng.PickInt(1, 1, 2))
	slots := rng.PickInt(len(keys), 4, 20)
	var t target = &direct{s.store(c, slots)}
	var sv *remote
	if i%8 == 7 {
		sv = serve(c, s.store(c, slots))
		defer sv.close()
		t = sv
	}
	insts := make([]*snapInst, len(keys))
	for x, k := range keys {
		insts[x] = &snapInst{key: k}
	}
	ms := s.measures()
	var mu sync.Mutex // guards the history, of which the operations are no part
	var seen []snapSeen
	clock := int64(0)
	type op struct {
		kind, inst int
		rng        *core.Rand
	}
	do := func(o op) {
		in := insts[o.inst]
		switch {
		case o.kind < 4:
			mu.Lock()
			j := in.n
			in.n++
			clock++
			in.sent[j], in.batch[j] = clock, j+1
			mu.Unlock()
			c.Check(t.write(c, snapObs(in.key, j)), "observation is rejected")
			mu.Lock()
			clock++
			in.ackd[j] = clock
			mu.Unlock()
		case o.kind < 8:
			mu.Lock()
			clock++
			q := snapSeen{inst: o.inst, start: clock}
			mu.Unlock()
			a := t.read(c, "c", ms, []kv{{"k", in.key}})
			mu.Lock()
			clock++
			q.end = clock
			q.set = snapDecode(c, s, a, in.n)
			seen = append(seen, q)
			mu.Unlock()
		default:
			snapNoise(c, o.rng, t, in.key, nil)
		}
	}
	some := func(n int) (ops []op) {
		for ; n > 0; n-- {
			ops = append(ops, op{rng.Intn(9), rng.Intn(len(insts)), rng.Fork()})
		}
		return
	}
	for _, o := range some(rng.PickInt(0, 0, 1, 3)) {
		do(o)
	}
	for r := 0; r < 2; r++ {
		var points []int
		var levels []func()
		for k := 0; k == 0 || k < 4 && rng.P(0.6) || k == 1; k++ {
			ops := some(1)
			if k > 0 {
				ops = some(rng.PickInt(1, 1, 2, 3))
			}
			levels = append(levels, func() {
				for _, o := range ops {
					do(o)
				}
			})
			points = append(points, 1+rng.Intn(rng.PickInt(40, 200, 200, 800)))
		}
		perturb.Steered(c, points[1:], time.Millisecond, levels)
	}
	final := make([]uint64, len(insts))
	for x, in := range insts {
		final[x] = snapDecode(c, s, t.read(c, "c", ms, []kv{{"k", in.key}}), in.n)
	}
	snapJudge(c, insts, seen, final)
}
