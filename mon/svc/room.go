package main

import (
	"fmt"

	"github.com/iand/starbow/internal/verifmon/core"
)

// twinRoom compares two small stores, of which one also gets either observations that it
// must reject or queries, also for instances that do not exist. These take no room: both
// must accept and refuse the same observations.
func twinRoom(c *core.Case, i int, rejects bool) {
	rng := c.Rng
	s := &schema{name: "c", rec: 1, keys: []string{"k"}, fields: []fieldSpec{{"x", []string{"count", "sum", unique(rng)}}}}
	slots := rng.Range(1, 24)
	quiet, asked := newModel(s), newModel(s)
	var q, a target
	var qs, as *remote
	http := i%4 == 0
	if http {
		qs, as = serve(c, s.store(c, slots)), serve(c, s.store(c, slots))
		defer qs.close()
		defer as.close()
		q, a = qs, as
	} else {
		q, a = &direct{s.store(c, slots)}, &direct{s.store(c, slots)}
	}
	write := func(t target, sv *remote, o obs) bool {
		if http {
			return ok2xx(sv.post(c, o.line("1", '\t')+"\n").code)
		}
		return t.(*direct).write(c, o)
	}
	what := "queried"
	if rejects {
		what = "sent rejected observations"
	}
	var pool []string
	for n := rng.Range(1, 40); n > 0; n-- {
		pool = append(pool, fmt.Sprintf("%c%d", 'a'+rune(rng.Intn(26)), rng.Intn(1000)))
	}
	others, refused := 0, 0
	for n := rng.Range(1, 60); n > 0; n-- {
		for rng.P(0.7) {
			k := pool[rng.Intn(len(pool))]
			if rng.P(0.5) {
				k = fmt.Sprintf("q%d", rng.Intn(10000))
			}
			others++
			if !rejects {
				a.read(c, "c", []string{"count(*)", "sum(x)"}, []kv{{"k", k}})
				continue
			}
			o := obs{{"k", k}, {"x", rng.Pick("", "abc", "1x", "--1", "1e999", "0x")}}
			c.Check(!write(a, as, o), "observation %q is accepted", o)
		}
		o := obs{{"k", pool[rng.Intn(len(pool))]}, {"x", fmt.Sprint(rng.Range(-100, 100))}}
		w1, w2 := write(q, qs, o), write(a, as, o)
		c.Check(w1 == w2, "%d slots, %d instances: observation %q accepted: %v by a server left alone, %v by one that was %s (%d)", slots, len(quiet.insts), o, w1, w2, what, others)
		if !w1 {
			refused++
			continue
		}
		quiet.add(o)
		asked.add(o)
	}
	v := quiet.verifyAll(c, q, "left alone") + asked.verifyAll(c, a, what)
	for _, k := range pool {
		crit := []kv{{"k", k}}
		x, y := q.read(c, "c", s.measures(), crit), a.read(c, "c", s.measures(), crit)
		c.Check(fmt.Sprint(x) == fmt.Sprint(y), "%q: a server left alone reports %v and one that was %s %v", crit, x, what, y)
	}
	c.Count("values compared with the model", v)
	if rejects {
		c.Count("observations rejected", others)
	} else {
		c.Count("queries", others)
	}
	c.Count("observations refused by both", refused)
	d := quiet.digest()
	if others < 3 {
		d = 0
	}
	c.Eval(d)
}
