package main

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

func checkConcurrentIngest(r *core.Run) {
	r.Rule = "writers released by a barrier send observations to shared, distinct and freshly created instances, which contend for the few slots of the store (at most ten instances, so none may be refused); afterwards every measure of every instance is compared with the model. " +
		"create/*: all writers race to create the same instances, through storage.Store; stream/*: longer streams; http/*: through the server with batches and several collations. full/*: more instances than there is room for; what was refused must not be counted, what was acknowledged must. Some observations are the same as earlier ones, of the same writer or of another, one after the other or not. Disturbances are injected at the yield points of the buffer map. " +
		"Non-trivial if at least two writers wrote to the same instance. Digest: observations and order of acknowledgement."
	r.Assum = []string{"schedules are sampled, with injected delays"}
	r.Seq(r.N(5000, 60000), "create", ingestCreate)
	r.Seq(r.N(500, 6000), "stream", ingestStream)
	r.Seq(r.N(200, 2000), "http", ingestHTTP)
	r.Seq(r.N(1500, 15000), "full", ingestFull)
	perturb.Off()
	perturb.Report(r)
}

// ingestSchema has all kinds of measures, including those with a non-zero initial state.
func ingestSchema(rng *core.Rand, name string, keys ...string) *schema {
	s := &schema{name: name, rec: 1, keys: keys}
	s.fields = []fieldSpec{{"x", contMeasures}}
	if rng.P(0.6) {
		s.fields = append(s.fields, fieldSpec{"u", []string{unique(rng)}})
	}
	if rng.P(0.4) {
		s.fields = append(s.fields, fieldSpec{"y", randomMeasures(rng)})
	}
	rng.Shuffle(len(s.fields), func(i, j int) { s.fields[i], s.fields[j] = s.fields[j], s.fields[i] })
	return s
}

// ingestObs makes an observation of instance key whose values are integers, so that
// sums do not depend on the order.
func ingestObs(rng *core.Rand, key string) obs {
	o := obs{{"k", key}}
	if rng.P(0.9) {
		o = append(o, kv{"x", strconv.Itoa(rng.Range(-1000000, 1000000))})
	}
	if rng.P(0.7) {
		o = append(o, kv{"u", "item" + strconv.Itoa(rng.Intn(60))})
	}
	if rng.P(0.5) {
		o = append(o, kv{"y", strconv.Itoa(rng.Range(1, 100))})
	}
	if rng.P(0.2) {
		o = append(o, kv{"l", rng.Pick("p", "q")})
	}
	rng.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

// repeater puts observations that were made before in the place of new ones.
type repeater struct {
	rng  *core.Rand
	prob float64
	last int // probability, in tenths, that it is the last one
	seen []obs
}

func newRepeater(rng *core.Rand) *repeater {
	rp := &repeater{rng: rng, last: rng.Range(0, 10)}
	if rng.P(0.5) {
		rp.prob = rng.Float64()
	}
	return rp
}

func (rp *repeater) or(o obs) obs {
	if len(rp.seen) > 0 && rp.rng.P(rp.prob) {
		o = rp.seen[len(rp.seen)-1]
		if rp.rng.Intn(10) >= rp.last {
			o = rp.seen[rp.rng.Intn(len(rp.seen))]
		}
	}
	rp.seen = append(rp.seen, o)
	return o
}

// race runs the writers at the same time.
func race(c *core.Case, writers int, fn func(w int)) {
	var ready int32
	for w := 0; w < writers; w++ {
		w := w
		c.Go(func() {
			atomic.AddInt32(&ready, 1)
			for i := 0; atomic.LoadInt32(&ready) < int32(writers); i++ {
				if i > 200 {
					runtime.Gosched()
				}
			}
			fn(w)
		})
	}
	c.Wait()
}

func keyNames(rng *core.Rand, n int) []string {
	var ks []string
	pre := rng.Text(rng.Range(0, 4), "abc")
	for i := 0; i < n; i++ {
		ks = append(ks, pre+strconv.Itoa(i*rng.PickInt(1, 1, 10)+0)+strings.Repeat("z", i%2))
	}
	seen := map[string]bool{}
	var out []string
	for _, k := range ks {
		if !seen[k] {
			seen[k] = true
			out = append(out, k)
		}
	}
	return out
}

func ingestDirect(c *core.Case, i int, keys []string, writers, perWriter, slots int) {
	rng := c.Rng
	s := ingestSchema(rng, "c", "k")
	m := newModel(s)
	t := &direct{s.store(c, slots)}
	plan := make([][]obs, writers)
	hit := map[string]int{}
	again := newRepeater(rng)
	for w := range plan {
		mine := map[string]bool{}
		for j := 0; j < perWriter; j++ {
			o := again.or(ingestObs(rng, keys[rng.Intn(len(keys))]))
			k, _ := o.get("k")
			plan[w] = append(plan[w], o)
			if !mine[k] {
				mine[k] = true
				hit[k]++
			}
		}
	}
	if rng.P(0.2) {
		// some instances exist already
		o := ingestObs(rng, keys[0])
		c.Check(t.write(c, o), "observation %q is rejected", o)
		m.add(o)
	}
	perturb.Random(rng, writers > 6)
	var order uint64
	var at uint64
	// queries meanwhile, also of instances that do not exist yet
	var done, asked int32
	if rng.P(0.3) {
		qr := rng.Fork()
		c.Go(func() {
			for atomic.LoadInt32(&done) < int32(writers) {
				readStore(c, t.st, []string{"count(*)"}, []kv{{"k", keys[qr.Intn(len(keys))]}})
				atomic.AddInt32(&asked, 1)
			}
		})
	}
	race(c, writers, func(w int) {
		defer atomic.AddInt32(&done, 1)
		for _, o := range plan[w] {
			c.Check(t.write(c, o), "observation %q is rejected", o)
			n := atomic.AddUint64(&at, 1)
			atomic.AddUint64(&order, core.Mix(uint64(w), n))
			if n%64 == 0 {
				c.Tick()
			}
		}
	})
	c.Count("queries meanwhile", int(asked))
	for w := range plan {
		for _, o := range plan[w] {
			m.add(o)
		}
	}
	v := m.verifyAll(c, t, fmt.Sprintf("after %d writers with %d observations each (%d slots)", writers, perWriter, slots))
	c.Count("observations", writers*perWriter)
	c.Count("instances", len(m.insts))
	c.Count("values compared with the model", v)
	d := core.Mix(m.digest(), order)
	shared := false
	for _, n := range hit {
		shared = shared || n > 1
	}
	if !shared {
		d = 0
	}
	c.Eval(d)
}

func ingestCreate(c *core.Case, i int) {
	rng := c.Rng
	n := rng.PickInt(1, 1, 2, 3, 5, 10)
	keys := keyNames(rng, n)
	slots := rng.PickInt(len(keys), len(keys), len(keys)+1, 16, 64)
	ingestDirect(c, i, keys, rng.Range(2, 8), rng.Range(1, 4), slots)
	if i < 3 {
		c.Sample("create", fmt.Sprintf("instances %q, %d slots", keys, slots))
	}
}

func ingestStream(c *core.Case, i int) {
	rng := c.Rng
	keys := keyNames(rng, rng.Range(1, 10))
	ingestDirect(c, i, keys, rng.Range(2, 10), rng.Range(20, 150), rng.PickInt(len(keys), 12, 64))
}

func ingestHTTP(c *core.Case, i int) {
	rng := c.Rng
	keys := keyNames(rng, rng.Range(1, 10))
	ms := []*model{newModel(ingestSchema(rng, "c1", "k"))}
	switch rng.Intn(3) {
	case 0:
		ms = append(ms, newModel(ingestSchema(rng, "c2")))
	case 1:
		ms = append(ms, newModel(ingestSchema(rng, "c2", "l")), newModel(ingestSchema(rng, "c3", "k")))
	}
	sv := serve(c, ms[0].s.store(c, rng.PickInt(len(keys), 16, 64)))
	if len(ms) == 2 {
		sv.close()
		sv = serve(c, ms[0].s.store(c, 64), ms[1].s.store(c, 1))
	} else if len(ms) == 3 {
		sv.close()
		sv = serve(c, ms[0].s.store(c, 64), ms[1].s.store(c, 2), ms[2].s.store(c, len(keys)))
	}
	defer sv.close()
	writers := rng.Range(2, 8)
	plan := make([][]obs, writers)
	again := newRepeater(rng)
	for w := range plan {
		n := rng.Range(5, 80)
		for j := 0; j < n; j++ {
			plan[w] = append(plan[w], again.or(ingestObs(rng, keys[rng.Intn(len(keys))])))
		}
	}
	rngs := make([]*core.Rand, writers)
	for w := range rngs {
		rngs[w] = rng.Fork()
	}
	perturb.Random(rng, false)
	var order, at uint64
	race(c, writers, func(w int) {
		rest := plan[w]
		for len(rest) > 0 {
			n := rngs[w].Range(1, 20)
			if n > len(rest) {
				n = len(rest)
			}
			var b strings.Builder
			for _, o := range rest[:n] {
				b.WriteString(o.line("1480000000000000", '\t') + "\n")
			}
			rest = rest[n:]
			rp := sv.post(c, b.String())
			c.Check(ok2xx(rp.code), "observations %q are rejected: %d %s", b.String(), rp.code, rp.body)
			atomic.AddUint64(&order, core.Mix(uint64(w), atomic.AddUint64(&at, 1)))
		}
	})
	total, v := 0, 0
	d := order
	for _, m := range ms {
		for w := range plan {
			for _, o := range plan[w] {
				m.add(o)
				total++
			}
		}
		v += m.verifyAll(c, sv, fmt.Sprintf("after %d clients", writers))
		c.Count("instances", len(m.insts))
		d = core.Mix(d, m.digest())
	}
	c.Count("observations", total)
	c.Count("values compared with the model", v)
	c.Eval(d)
	if i < 3 {
		c.Sample("http", fmt.Sprintf("%d clients, %d collations, instances %q", writers, len(ms), keys))
	}
}

// ingestFull has writers that compete for too little room: an observation is either
// acknowledged and counted once, or refused and counted nowhere.
func ingestFull(c *core.Case, i int) {
	rng := c.Rng
	s := ingestSchema(rng, "c", "k")
	slots := rng.PickInt(1, 1, 2, 3, 5, 8, 12)
	keys := keyNames(rng, slots+rng.Range(1, slots+8))
	var t target = &direct{s.store(c, slots)}
	post := func(o obs) bool { return t.write(c, o) }
	if i%5 == 0 {
		sv := serve(c, s.store(c, slots))
		defer sv.close()
		t = sv
		post = func(o obs) bool { return ok2xx(sv.post(c, o.line("1480000000000000", '\t')+"\n").code) }
	}
	writers := rng.Range(1, 8)
	plan := make([][]obs, writers)
	acked := make([][]bool, writers)
	again := newRepeater(rng)
	for w := range plan {
		for j := rng.Range(2, 30); j > 0; j-- {
			plan[w] = append(plan[w], again.or(ingestObs(rng, keys[rng.Intn(len(keys))])))
		}
		acked[w] = make([]bool, len(plan[w]))
	}
	perturb.Random(rng, writers > 6)
	var at, order uint64
	race(c, writers, func(w int) {
		for j := range plan[w] {
			acked[w][j] = post(plan[w][j])
			atomic.AddUint64(&order, core.Mix(uint64(w), atomic.AddUint64(&at, 1)))
		}
	})
	m := newModel(s)
	refused, total := 0, 0
	for w := range plan {
		for j, o := range plan[w] {
			total++
			if acked[w][j] {
				m.add(o)
			} else {
				refused++
			}
		}
	}
	v := m.verifyAll(c, t, fmt.Sprintf("after %d writers, %d observations of which %d were refused (%d slots)", writers, total, refused, slots))
	for _, k := range keys {
		crit := []kv{{"k", k}}
		if key, _ := s.tuple(crit); m.insts[key] == nil {
			a := t.read(c, s.name, s.measures(), crit)
			c.Check(len(a) == 0, "instance %q, of which every observation was refused, reports %v", k, a)
			v++
		}
	}
	c.Count("observations", total)
	c.Count("observations refused", refused)
	c.Count("values compared with the model", v)
	if refused > 0 && writers > 1 {
		c.Eval(core.Mix(order, m.digest()))
	} else {
		c.Eval(0)
	}
}
