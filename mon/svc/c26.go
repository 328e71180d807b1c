package main

import (
	"fmt"
	"strings"

	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkQueriesPure(r *core.Run) {
	r.Rule = "two servers get the same observations; one also gets many queries of all kinds (valid, unknown measures, instances and collations, malformed, other methods), alone and concurrently. Repeated queries must get the same bytes, the line of a measure must be the same whatever else is requested, and in the end both servers must answer everything with the same bytes and agree with the model. room/*: two small stores, of which one is queried for instances that do not exist, accept and refuse the same observations. " +
		"Non-trivial if at least ten queries were repeated. Digest: observations and responses."
	r.Each(r.N(700, 4000), "twin", pureTwin)
	r.Each(r.N(1500, 20000), "room", func(c *core.Case, i int) { twinRoom(c, i, false) })
}

func pureTwin(c *core.Case, i int) {
	rng := c.Rng
	ms := []*model{newModel(randomSchema(rng, "c0", 2))}
	if rng.Bool() {
		ms = append(ms, newModel(randomSchema(rng, "c1", 1)))
		// the same fields, so that any observation suits both
		ms[1].s.fields = ms[0].s.fields
		ms[1].s.keys = ms[0].s.keys
		if len(ms[0].s.keys) > 0 {
			ms[1].s.keys = ms[0].s.keys[:1]
		}
	}
	feed := newFeed(rng, ms[0], rng.Range(1, 3), 40)
	start := func() *remote {
		var stores []storage.Store
		for _, m := range ms {
			stores = append(stores, m.s.store(c, 64))
		}
		return serve(c, stores...)
	}
	quiet, asked := start(), start()
	defer quiet.close()
	defer asked.close()

	randomQuery := func(rng *core.Rand) (string, string) {
		m := ms[rng.Intn(len(ms))]
		name := m.s.name
		all := m.s.measures()
		rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
		if len(all) > 0 {
			all = all[:rng.Range(1, len(all))]
		}
		for rng.P(0.3) || len(all) == 0 {
			all = append(all, rng.Pick("nosuch(x)", "sum(nofield)", "count(*)", "median(*)"))
		}
		var crit []kv
		if len(m.order) > 0 && rng.P(0.8) {
			crit = append(crit, m.insts[m.order[rng.Intn(len(m.order))]].crit...)
		}
		for _, k := range m.s.keys {
			if len(crit) < len(m.s.keys) {
				crit = append(crit, kv{k, textValue(rng)})
			}
		}
		if len(crit) == 0 || rng.P(0.2) {
			crit = append(crit, kv{"nokey", textValue(rng)})
		}
		if rng.P(0.1) {
			crit = crit[1:]
			if len(crit) == 0 {
				crit = []kv{{"z", ""}}
			}
		}
		q := queryText(all, crit)
		switch rng.Intn(12) {
		case 0:
			q = badQueries[rng.Intn(len(badQueries))]
		case 1:
			name = rng.Pick("nosuch", "c", "c00")
		case 2:
			b := []byte(q)
			for n := rng.Range(1, 4); n > 0; n-- {
				b[rng.Intn(len(b))] = byte(rng.Uint64())
			}
			q = string(b)
		}
		return name, q
	}
	ask := func(rng *core.Rand, name, q string) string {
		rp := asked.query(c, name, q, rng.P(0.3))
		c.Count("queries", 1)
		return fmt.Sprintf("%d %s", rp.code, rp.body)
	}
	repeated, v := 0, 0
	d := uint64(0)
	phases := rng.Range(1, 4)
	for ph := 0; ph < phases; ph++ {
		var os []obs
		for n := rng.Range(1, 25); n > 0; n-- {
			o := feed.next()
			if len(ms) > 1 && ms[1].clash(o) {
				continue
			}
			os = append(os, o)
		}
		if len(os) == 0 {
			continue
		}
		dl := delimFor(rng, os)
		var b strings.Builder
		for _, o := range os {
			b.WriteString(o.line("1", dl) + "\n")
			for _, m := range ms {
				m.add(o)
			}
		}
		for _, sv := range []*remote{quiet, asked} {
			rp := sv.post(c, b.String())
			c.Check(ok2xx(rp.code), "observations %q are rejected: %d %s", b.String(), rp.code, rp.body)
		}
		// answers to be repeated
		type qa struct{ name, q, a string }
		var qas []qa
		for n := rng.Range(2, 10); n > 0; n-- {
			name, q := randomQuery(rng)
			qas = append(qas, qa{name, q, ask(rng, name, q)})
		}
		rngs := make([]*core.Rand, rng.Range(1, 5))
		for w := range rngs {
			rngs[w] = rng.Fork()
		}
		counts := make([]int, len(rngs))
		race(c, len(rngs), func(w int) {
			rng := rngs[w]
			for n := rng.Range(3, 15); n > 0; n-- {
				if rng.Bool() {
					name, q := randomQuery(rng)
					ask(rng, name, q)
				}
				x := qas[rng.Intn(len(qas))]
				got := ask(rng, x.name, x.q)
				c.Check(got == x.a, "query %q of %s is answered %q and later, without any observation in between, %q", x.q, x.name, x.a, got)
				counts[w]++
			}
		})
		for _, n := range counts {
			repeated += n
		}
		for _, x := range qas {
			d = core.Mix(d, core.HashBytes([]byte(x.a)))
		}
		// each measure alone and together with the others
		for _, m := range ms {
			if len(m.order) == 0 || len(m.s.measures()) == 0 {
				continue
			}
			crit := m.insts[m.order[rng.Intn(len(m.order))]].crit
			if len(crit) == 0 {
				crit = []kv{{"nokey", "x"}}
			}
			all := asked.read(c, m.s.name, m.s.measures(), crit)
			for _, p := range all {
				a := asked.read(c, m.s.name, []string{p.f}, crit)
				c.Check(len(a) == 1 && a[0] == p, "%s is %v alone but %q together with %q", p.f, a, p.v, m.s.measures())
				repeated++
			}
		}
	}
	for _, m := range ms {
		v += m.verifyAll(c, asked, "server that was queried")
		q, a := dump(c, m, quiet, nil), dump(c, m, asked, nil)
		c.Check(q == a, "a server that was not queried reports\n%s and one that was\n%s", q, a)
	}
	c.Count("queries repeated", repeated)
	c.Count("values compared with the model", v)
	for _, m := range ms {
		d = core.Mix(d, m.digest())
	}
	if repeated < 10 {
		d = 0
	}
	c.Eval(d)
	if i < 3 {
		c.Sample("twin", fmt.Sprintf("%v, %d phases, %d queries repeated", ms[0].s, phases, repeated))
	}
}
