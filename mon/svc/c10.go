package main

import (
	"fmt"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

func checkFull(r *core.Run) {
	r.Rule = "more key values than fit are sent to collations with 1 to 40 slots; a new one may be refused only if eleven others (or as many as there are slots) are held, must be refused if every slot is taken, and must then change nothing; queries for instances that do not exist are made in between; existing ones must always be accepted; all instances are compared with the model. " +
		"direct/*, http/*: one client; race/*: concurrent writers on a filling collation who also query absent instances. " +
		"Non-trivial if an observation was refused. Digest: slots, arrivals, refusals."
	r.Assum = []string{"schedules are sampled, with injected delays"}
	r.Each(r.N(6000, 80000), "direct", fullDirect)
	r.Each(r.N(200, 2000), "http", fullHTTP)
	r.Seq(r.N(600, 8000), "race", fullRace)
	perturb.Off()
	perturb.Report(r)
}

func fullSeq(c *core.Case, i int, s *schema, t target, slots, n int, sv *remote) {
	rng := c.Rng
	m := newModel(s)
	nkeys := rng.Range(1, slots*2+4)
	style := rng.Intn(3)
	pre := rng.Text(rng.Range(0, 3), "abc")
	name := func(j int) string {
		switch style {
		case 0:
			return pre + strconv.Itoa(j)
		case 1:
			return strconv.FormatUint(core.Mix(uint64(j), uint64(i)), 36)
		}
		return pre + string(rune('A'+j%26)) + pre + string(rune('a'+j/26))
	}
	refused := map[string]bool{}
	nref, v := 0, 0
	d := core.Mix(uint64(slots), uint64(style))
	need := 11
	if slots < need {
		need = slots
	}
	for j := 0; j < n; j++ {
		k := name(rng.Intn(nkeys))
		if rng.P(0.3) && len(m.order) > 0 {
			k = m.insts[m.order[rng.Intn(len(m.order))]].crit[0].v
		}
		for rng.P(0.3) {
			// asking for what there is not takes no room
			k := name(rng.Intn(2 * nkeys))
			if key, _ := s.tuple(obs{{"k", k}}); m.insts[key] == nil {
				a := t.read(c, s.name, s.measures(), []kv{{"k", k}})
				c.Check(len(a) == 0, "instance %q that was never stored reports %v", k, a)
				c.Count("queries for absent instances", 1)
			}
		}
		o := ingestObs(rng, k)
		key, _ := s.tuple(o)
		ok := false
		if sv != nil {
			rp := sv.post(c, o.line("1", '\t'))
			ok = ok2xx(rp.code)
			c.Check(ok || rp.code >= 400, "observation %q gets status %d", o, rp.code)
		} else {
			ok = t.write(c, o)
		}
		c.Logf("%q accepted %v", o, ok)
		d = core.Mix(d, core.HashBytes([]byte(k)))
		if !ok {
			c.Check(m.insts[key] == nil, "observation %q of an existing instance is refused (%d instances in %d slots)", o, len(m.insts), slots)
			c.Check(len(m.insts) >= need, "observation %q of a new instance is refused although only %d are held in %d slots", o, len(m.insts), slots)
			refused[k] = true
			nref++
			a := t.read(c, s.name, s.measures(), []kv{{"k", k}})
			c.Check(len(a) == 0, "refused instance %q reports %v", k, a)
			if rng.P(0.1) {
				v += m.verifyAll(c, t, "after a refusal")
			} else if len(m.order) > 0 {
				v += m.verifyOne(c, t, m.order[rng.Intn(len(m.order))], s.measures(), "after a refusal")
			}
			continue
		}
		c.Check(m.insts[key] != nil || len(m.insts) < slots, "observation %q of a new instance is accepted although %d are held in %d slots", o, len(m.insts), slots)
		m.add(o)
		delete(refused, k)
		if rng.P(0.05) {
			v += m.verifyAll(c, t, "in between")
		}
	}
	v += m.verifyAll(c, t, "at the end")
	for k := range refused {
		a := t.read(c, s.name, s.measures(), []kv{{"k", k}})
		c.Check(len(a) == 0, "refused instance %q reports %v", k, a)
	}
	c.Count("observations refused", nref)
	c.Count("instances", len(m.insts))
	c.Count("values compared with the model", v)
	if nref > 0 {
		c.Eval(core.Mix(d, m.digest()))
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("sequence", fmt.Sprintf("%d slots, %d keys, %d instances, %d refusals", slots, nkeys, len(m.insts), nref))
	}
}

func fullSlots(rng *core.Rand) int {
	if rng.P(0.3) {
		return rng.Range(11, 40)
	}
	return rng.Range(1, 13)
}

func fullDirect(c *core.Case, i int) {
	s := ingestSchema(c.Rng, "c", "k")
	slots := fullSlots(c.Rng)
	fullSeq(c, i, s, &direct{s.store(c, slots)}, slots, c.Rng.Range(slots, slots*5+5), nil)
}

func fullHTTP(c *core.Case, i int) {
	s := ingestSchema(c.Rng, "c", "k")
	slots := fullSlots(c.Rng)
	sv := serve(c, s.store(c, slots))
	defer sv.close()
	fullSeq(c, i, s, sv, slots, c.Rng.Range(slots, slots*3+5), sv)
}

func fullRace(c *core.Case, i int) {
	rng := c.Rng
	s := ingestSchema(rng, "c", "k")
	slots := fullSlots(rng)
	t := &direct{s.store(c, slots)}
	nkeys := rng.Range(1, slots*2+4)
	writers := rng.Range(2, 8)
	plan := make([][]obs, writers)
	for w := range plan {
		for j := rng.Range(2, 40); j > 0; j-- {
			plan[w] = append(plan[w], ingestObs(rng, "k"+strconv.Itoa(rng.Intn(nkeys))))
		}
	}
	var mu sync.Mutex
	took := map[string]bool{} // acknowledged by now
	started := map[string]bool{}
	acked := make([][]bool, writers)
	for w := range acked {
		acked[w] = make([]bool, len(plan[w]))
	}
	need := 11
	if slots < need {
		need = slots
	}
	perturb.Random(rng, writers > 6)
	var at, order uint64
	nref := int64(0)
	asked := make([]*core.Rand, writers)
	for w := range asked {
		asked[w] = rng.Fork()
	}
	race(c, writers, func(w int) {
		for j, o := range plan[w] {
			k, _ := o.get("k")
			if rng := asked[w]; rng.P(0.3) {
				a := t.read(c, "c", s.measures(), []kv{{"k", fmt.Sprintf("absent%d", rng.Intn(1000))}})
				c.Check(len(a) == 0, "an instance that was never stored reports %v", a)
			}
			mu.Lock()
			before := took[k]
			started[k] = true
			mu.Unlock()
			ok := t.write(c, o)
			mu.Lock()
			others := len(started)
			if ok {
				took[k] = true
			}
			mu.Unlock()
			atomic.AddUint64(&order, core.Mix(uint64(w), atomic.AddUint64(&at, 1)))
			if !ok {
				atomic.AddInt64(&nref, 1)
				c.Check(!before, "observation %q of an existing instance is refused", o)
				c.Check(others-1 >= need, "observation %q is refused although at most %d other instances exist in %d slots", o, others-1, slots)
			}
			acked[w][j] = ok
		}
	})
	m := newModel(s)
	for w := range plan {
		for j, o := range plan[w] {
			if acked[w][j] {
				m.add(o)
			}
		}
	}
	c.Check(len(m.insts) <= slots, "%d instances are accepted in %d slots", len(m.insts), slots)
	v := m.verifyAll(c, t, fmt.Sprintf("%d writers, %d slots", writers, slots))
	for j := 0; j < nkeys; j++ {
		k := "k" + strconv.Itoa(j)
		key, _ := s.tuple(obs{{"k", k}})
		if m.insts[key] == nil {
			a := t.read(c, "c", s.measures(), []kv{{"k", k}})
			c.Check(len(a) == 0, "refused instance %q reports %v", k, a)
		}
	}
	c.Count("observations refused", int(nref))
	c.Count("instances", len(m.insts))
	c.Count("values compared with the model", v)
	if nref > 0 {
		c.Eval(core.Mix(order, m.digest()))
	} else {
		c.Eval(0)
	}
}
