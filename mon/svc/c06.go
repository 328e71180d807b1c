package main

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

func checkRejected(r *core.Run) {
	r.Rule = "observations with one or more measured values that are not numbers, in every position among the fields, are sent to new and existing instances between acceptable ones; each must be rejected, and all measures of all instances must read exactly as before; acceptable observations follow. " +
		"direct/*: through storage.Store; http/*: through the server; race/*: acceptable and unacceptable observations of the same instances concurrently, compared with the model of the acceptable ones, while one instance gets only unacceptable ones and is read all the time. room/*: two small stores, of which one also gets rejected observations of new instances, accept and refuse the same. " +
		"Non-trivial if a rejected observation also had valid measured fields. Digest: schema and observations."
	r.Assum = []string{"infinities and NaN are outside the domain", "only the collation that rejects is compared; a server with several collations stores an observation in those before it"}
	r.Each(r.N(12000, 150000), "direct", rejectDirect)
	r.Each(r.N(250, 2500), "http", rejectHTTP)
	r.Each(r.N(1500, 20000), "room", func(c *core.Case, i int) { twinRoom(c, i, true) })
	r.Seq(r.N(300, 4000), "race", rejectRace)
	perturb.Off()
	perturb.Report(r)
}

var badNumbers = []string{"", "abc", "1e999", "-1e999", "12x", " 1", "1 ", "1,5", "0x", "--1", "+", "-", ".", "1e", "e5", "1_000", "\\N", "1.2.3", "£3", "１", "1\x00", "\x00", "true", "0x1", "1e+", "+-1", "N/A", "null", "1=2", "=1", "0b1", "1e5000000000", strings.Repeat("9", 400), "nanx", "- 1", "0x1p99999"}

// spoil replaces or adds measured values so that the observation must be rejected. It
// reports the fields that were made invalid, or nil if there is none to spoil.
func spoil(rng *core.Rand, s *schema, o obs) (obs, []string) {
	if _, ok := s.tuple(o); !ok {
		return nil, nil
	}
	key := map[string]bool{}
	for _, k := range s.keys {
		key[k] = true
	}
	var nums []string
	for _, f := range s.fields {
		if s.numeric(f.name) && !key[f.name] {
			nums = append(nums, f.name)
		}
	}
	if len(nums) == 0 {
		return nil, nil
	}
	p := append(obs(nil), o...)
	var bad []string
	for _, n := range rng.Perm(len(nums)) {
		f := nums[n]
		v := badNumbers[rng.Intn(len(badNumbers))]
		if _, ok := numberText(v); ok {
			continue
		}
		at := -1
		for j := range p {
			if p[j].f == f {
				at = j
			}
		}
		if at < 0 {
			at = rng.Range(0, len(p))
			p = append(p[:at:at], append(obs{{f, v}}, p[at:]...)...)
		} else {
			p[at].v = v
		}
		bad = append(bad, f)
		if rng.P(0.8) {
			break
		}
	}
	if len(bad) == 0 {
		return nil, nil
	}
	// any position
	if rng.Bool() {
		rng.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
	}
	return p, bad
}

// dump reads everything about all instances of the model and the extra one.
func dump(c *core.Case, m *model, t target, extra []obs) string {
	var b strings.Builder
	ms := m.s.measures()
	if len(ms) == 0 {
		return ""
	}
	for _, k := range m.order {
		crit := m.insts[k].crit
		if len(crit) == 0 {
			crit = []kv{{"nokey", "x"}}
		}
		fmt.Fprintf(&b, "%q: %v\n", crit, t.read(c, m.s.name, ms, crit))
	}
	for _, o := range extra {
		var crit []kv
		for _, k := range m.s.keys {
			v, _ := o.get(k)
			crit = append(crit, kv{k, v})
		}
		if len(crit) == 0 {
			crit = []kv{{"nokey", "x"}}
		}
		fmt.Fprintf(&b, "%q: %v\n", crit, t.read(c, m.s.name, ms, crit))
	}
	return b.String()
}

func rejectSeq(c *core.Case, i int, s *schema, t target, n int) {
	rng := c.Rng
	m := newModel(s)
	f := newFeed(rng, m, rng.Range(1, 3), n)
	f.noKey = 0.02
	rejected, mixed, v := 0, false, 0
	d := uint64(0)
	for j := 0; j < n; j++ {
		o := f.next()
		if rng.P(0.45) {
			p, bad := spoil(rng, s, o)
			if p != nil {
				before := dump(c, m, t, []obs{p})
				c.Check(!t.write(c, p), "%v: observation %q is accepted though %q is not a number", s, p, bad)
				after := dump(c, m, t, []obs{p})
				c.Check(before == after, "%v: rejected observation %q changes\n%s to\n%s", s, p, before, after)
				if _, ok := s.tuple(p); ok {
					key, _ := s.tuple(p)
					if m.insts[key] == nil {
						c.Count("rejected for a new instance", 1)
					}
				}
				c.Logf("reject %q", p)
				rejected++
				d = core.Mix(d, core.HashBytes([]byte(fmt.Sprint(p))))
				mixed = mixed || len(p) > len(bad)+len(s.keys)
				if rng.P(0.3) {
					continue
				}
			}
		}
		c.Check(t.write(c, o), "%v: observation %q is rejected", s, o)
		c.Logf("accept %q", o)
		m.add(o)
		if rng.P(0.05) {
			v += m.verifyAll(c, t, "in between")
		}
	}
	v += m.verifyAll(c, t, "at the end")
	c.Count("observations rejected", rejected)
	c.Count("observations accepted", n)
	c.Count("values compared with the model", v)
	if rejected > 0 && mixed {
		c.Eval(core.Mix(d, m.digest()))
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("sequence", fmt.Sprintf("%v: %d rejected, %d instances", s, rejected, len(m.insts)))
	}
}

// rejectSchema has at least one numeric field.
func rejectSchema(rng *core.Rand) *schema {
	for {
		s := randomSchema(rng, "c", 2)
		for _, f := range s.fields {
			if s.numeric(f.name) {
				return s
			}
		}
	}
}

func rejectDirect(c *core.Case, i int) {
	s := rejectSchema(c.Rng)
	rejectSeq(c, i, s, &direct{s.store(c, c.Rng.Range(9, 100))}, c.Rng.Range(1, 16))
}

func rejectHTTP(c *core.Case, i int) {
	s := rejectSchema(c.Rng)
	sv := serve(c, s.store(c, c.Rng.Range(9, 100)))
	defer sv.close()
	rejectSeq(c, i, s, sv, c.Rng.Range(1, 12))
}

func rejectRace(c *core.Case, i int) {
	rng := c.Rng
	keys := keyNames(rng, rng.Range(1, 5))
	s := ingestSchema(rng, "c", "k")
	m := newModel(s)
	t := &direct{s.store(c, rng.PickInt(len(keys)+1, 12, 64))}
	writers := rng.Range(2, 8)
	// during the race, the observations of this instance are all rejected
	const settled = "settled"
	for j := rng.Range(1, 3); j > 0; j-- {
		o := ingestObs(rng, settled)
		c.Check(t.write(c, o), "observation %q is rejected", o)
		m.add(o)
	}
	readSettled := func() string { return t.read(c, "c", s.measures(), []kv{{"k", settled}}).String() }
	before := readSettled()
	type step struct {
		o   obs
		bad bool
	}
	plan := make([][]step, writers)
	nbad := 0
	for w := range plan {
		for j := rng.Range(1, 30); j > 0; j-- {
			o := ingestObs(rng, keys[rng.Intn(len(keys))])
			if rng.P(0.3) {
				if p, _ := spoil(rng, s, ingestObs(rng, settled)); p != nil {
					plan[w] = append(plan[w], step{p, true})
					nbad++
					continue
				}
			}
			if rng.P(0.5) {
				if p, _ := spoil(rng, s, o); p != nil {
					plan[w] = append(plan[w], step{p, true})
					nbad++
					continue
				}
			}
			plan[w] = append(plan[w], step{o, false})
		}
	}
	perturb.Random(rng, writers > 6)
	var at, order uint64
	running := int32(writers)
	race(c, writers+1, func(w int) {
		if w == writers {
			for atomic.LoadInt32(&running) > 0 && !c.Stop() {
				now := readSettled()
				c.Check(now == before, "an instance whose observations are all rejected reports %s instead of %s for a moment", now, before)
				c.Count("reads of an instance while observations of it are rejected", 1)
			}
			return
		}
		defer atomic.AddInt32(&running, -1)
		for _, st := range plan[w] {
			ok := t.write(c, st.o)
			c.Check(ok == !st.bad, "observation %q: accepted is %v", st.o, ok)
			atomic.AddUint64(&order, core.Mix(uint64(w), atomic.AddUint64(&at, 1)))
		}
	})
	used := map[string]bool{settled: true}
	total := 0
	for w := range plan {
		for _, st := range plan[w] {
			k, _ := st.o.get("k")
			if st.bad {
				if _, ok := used[k]; !ok {
					used[k] = false
				}
				continue
			}
			used[k] = true
			m.add(st.o)
			total++
		}
	}
	v := m.verifyAll(c, t, fmt.Sprintf("after %d writers, %d observations rejected", writers, nbad))
	for k, any := range used {
		if !any {
			a := t.read(c, "c", s.measures(), []kv{{"k", k}})
			c.Check(len(a) == 0, "instance %q had only rejected observations and reports %v", k, a)
		}
	}
	c.Count("observations rejected", nbad)
	c.Count("observations accepted", total)
	c.Count("values compared with the model", v)
	c.Eval(core.Mix(order, m.digest()))
}
