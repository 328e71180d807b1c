package main

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/craft"
)

func checkRouting(r *core.Run) {
	r.Rule = "random/*: 1 to 4 collations with 0 to 4 overlapping key fields on one server receive observations with random subsets and orders of fields and adversarial values (empty, prefixes of each other, binary, long, with = and spaces); every tuple that was used and many that were not are queried with criteria in random order and with irrelevant ones. " +
		"wide/*: up to 40 collations of up to 20 keys, observations of up to 300 fields, queries of up to 120 criteria. many/*: a collation with 200000 instances. pair/*: pairs of tuples that differ minimally. concat, collision: the known findings. zero: key values whose hash is zero. craft/*: key values crafted to have extreme hashes and to fall into the same slots of a small store. " +
		"Non-trivial if at least two instances were told apart. Digest: the instances and their contents."
	r.Assum = []string{"instances are told apart by a 64-bit hash; two sets of key values with the same hash are a known finding", "values do not contain quotes or line breaks, field names no white space, commas, quotes or parentheses (they cannot be written in a query)"}
	r.Each(r.N(500, 4000), "random", routeRandom)
	r.Each(r.N(300, 4000), "wide", routeWide)
	r.Each(r.N(10000, 200000), "pair", routePair)
	r.Each(r.N(2, 8), "many", routeMany)
	r.Do("concat", routeConcat)
	r.Do("zero", routeZero)
	r.Do("collision", routeCollision)
	r.Each(r.N(8000, 150000), "craft", routeCraft)
}

// zeroHash is a string whose FNV-1 hash is zero.
const zeroHash = "\x92\x06\x77\x4c\xe0\x2f\x89\x2a\xd2"

func routeZero(c *core.Case) {
	for cut := 1; cut < len(zeroHash); cut++ {
		s := &schema{name: "c", rec: 1, keys: []string{zeroHash[:cut]}}
		m := newModel(s)
		t := &direct{s.store(c, 64)}
		for _, o := range []obs{{{zeroHash[:cut], zeroHash[cut:]}}, {{zeroHash[:cut], "other"}}, {{zeroHash[:cut], ""}}, {{zeroHash[:cut], zeroHash[cut:]}}} {
			c.Check(t.write(c, o), "%v: observation %q is rejected", s, o)
			m.add(o)
		}
		c.Count("values compared with the model", m.verifyAll(c, t, "zero hash"))
		c.Eval(m.digest())
	}
}

// routeConcat shows the known finding: the names and values of several keys are hashed
// without separators.
func routeConcat(c *core.Case) {
	s := &schema{name: "c", rec: 1, keys: []string{"a", "b"}}
	t := &direct{s.store(c, 64)}
	o1, o2 := obs{{"a", "1"}, {"b", "2b3"}}, obs{{"a", "1b2"}, {"b", "3"}}
	c.Check(t.write(c, o1), "observation %q is rejected", o1)
	a := t.read(c, "c", []string{"count(*)"}, o2)
	c.Eval(0)
	if len(a) == 0 {
		return // no longer so
	}
	what := "keys (a='1',b='2b3') and (a='1b2',b='3') select the same instance, since field names and values are hashed without separators"
	if v, _ := a.get("count(*)"); v != "1" {
		c.Failf("after one observation of %q the instance %q reports %v", o1, o2, a)
	}
	if !c.Known("concat-collision", what) {
		c.Failf("%s", what)
	}
}

// routeWide has many of everything: collations, keys, fields and criteria.
func routeWide(c *core.Case, i int) {
	rng := c.Rng
	nk := rng.Range(1, 24)
	var keys []string
	for j := 0; j < nk; j++ {
		keys = append(keys, fmt.Sprintf("k%02d", j)) // fixed lengths, so that the concatenations differ
	}
	nc := rng.PickInt(1, 2, 5, 9, 17, 40)
	var models []*model
	var stores []storage.Store
	for j := 0; j < nc; j++ {
		s := &schema{name: fmt.Sprintf("c%d", j), rec: 1, fields: []fieldSpec{{"val", []string{"sum"}}}}
		p := rng.Perm(nk)
		if n := rng.Range(0, 20); n < nk {
			p = p[:n]
		}
		for _, x := range p {
			s.keys = append(s.keys, keys[x])
		}
		models = append(models, newModel(s))
		stores = append(stores, s.store(c, 1<<12))
	}
	http := i%2 == 0
	var sv *remote
	if http {
		sv = serve(c, stores...)
		defer sv.close()
	}
	fill := func(max int) obs {
		var o obs
		for _, k := range keys {
			o = append(o, kv{k, rng.Pick("a", "a", "a", "a", "a", "b")})
		}
		if rng.P(0.1) {
			j := rng.Intn(len(o))
			o = append(o[:j], o[j+1:]...)
		}
		for j := rng.PickInt(0, 3, 20, max); j > 0; j-- {
			o = append(o, kv{fmt.Sprint("n", j), "b"})
		}
		return o
	}
	var sent []obs
	for j := rng.Range(3, 25); j > 0; j-- {
		o := append(fill(300), kv{"val", strconv.Itoa(rng.Range(-100, 100))})
		rng.Shuffle(len(o), func(x, y int) { o[x], o[y] = o[y], o[x] })
		if http {
			rp := sv.post(c, o.line("1", '\t'))
			c.Check(ok2xx(rp.code), "%d collations: observation %q is rejected: %d %s", nc, o, rp.code, rp.body)
		}
		for k, m := range models {
			if !http {
				c.Check((&direct{stores[k]}).write(c, o), "%v: observation %q is rejected", m.s, o)
			}
			m.add(o)
		}
		sent = append(sent, o)
	}
	told, checked := 0, 0
	for k, m := range models {
		var t target = sv
		if !http {
			t = &direct{stores[k]}
		}
		checked += m.verifyAll(c, t, "at the end")
		for j := 0; j < 3; j++ {
			crit := fill(100)
			if rng.Bool() {
				// those of an observation but perhaps for one
				for x := range crit {
					if v, ok := sent[j%len(sent)].get(crit[x].f); ok {
						crit[x].v = v
					}
				}
				if len(crit) > 0 && rng.Bool() {
					crit[rng.Intn(len(crit))].v = "c"
				}
			}
			if len(crit) == 0 {
				continue // not a query
			}
			rng.Shuffle(len(crit), func(x, y int) { crit[x], crit[y] = crit[y], crit[x] })
			a := t.read(c, m.s.name, m.s.measures(), crit)
			key, ok := m.s.tuple(crit)
			in := m.insts[key]
			if !ok || in == nil {
				c.Check(len(a) == 0, "%v: criteria %q select no instance but get %v", m.s, crit, a)
				c.Count("queries that select nothing", 1)
				continue
			}
			c.Check(len(a) > 0, "%v: criteria %q get nothing", m.s, crit)
			for _, p := range a {
				in.verify(c, m.s, p.f, p.v, fmt.Sprintf("%v criteria %q", m.s, crit))
			}
			checked += len(a)
		}
		if len(m.insts) > 1 {
			told++
		}
	}
	c.Count("values compared with the model", checked)
	if told > 0 {
		c.Eval(core.Mix(uint64(nc), models[0].digest(), models[nc-1].digest()))
	} else {
		c.Eval(0)
	}
}

func routeRandom(c *core.Case, i int) {
	rng := c.Rng
	nc := rng.Range(1, 4)
	keyPool := pickNames(rng, 5)
	var models []*model
	var stores []storage.Store
	vals := map[string][]string{}
	long := rng.P(0.1)
	for _, k := range keyPool {
		n := rng.Range(2, 6)
		for j := 0; j < n; j++ {
			vals[k] = append(vals[k], textValue(rng))
		}
		if long {
			vals[k] = append(vals[k], textLong(rng))
		}
	}
	// a common pool makes equal values in different fields likely
	for _, k := range keyPool {
		o := keyPool[rng.Intn(len(keyPool))]
		vals[k] = append(vals[k], vals[o][rng.Intn(len(vals[o]))])
	}
	for j := 0; j < nc; j++ {
		s := &schema{name: fmt.Sprintf("c%d", j), rec: 1}
		p := rng.Perm(len(keyPool))
		for _, x := range p[:rng.Range(0, 4)] {
			s.keys = append(s.keys, keyPool[x])
		}
		s.fields = []fieldSpec{{"val", []string{"count", "sum", "min", "max"}}}
		if rng.P(0.3) {
			s.fields = append(s.fields, fieldSpec{keyPool[rng.Intn(len(keyPool))], []string{unique(rng)}})
		}
		models = append(models, newModel(s))
		slots := 1 << 18
		if len(s.fields) > 1 {
			slots = 1 << 14
		}
		stores = append(stores, s.store(c, slots))
	}
	http := i%3 != 2
	var sv *remote
	if http {
		sv = serve(c, stores...)
		defer sv.close()
	}
	n := rng.Range(5, 80)
	if !http {
		n = rng.Range(5, 400)
	}
	miss := rng.Float64() * 0.3
	checked := 0
	var pending []obs
	var sent []obs
	flush := func() {
		if len(pending) == 0 {
			return
		}
		d := delimFor(rng, pending)
		var b strings.Builder
		for _, o := range pending {
			b.WriteString(o.line(timestamp(rng), d) + "\n")
		}
		rp := sv.post(c, b.String())
		c.Check(ok2xx(rp.code), "observations %q are rejected: %d %s", b.String(), rp.code, rp.body)
		pending = nil
	}
	for j := 0; j < n; j++ {
		var o obs
		for _, k := range keyPool {
			if !rng.P(miss) {
				o = append(o, kv{k, vals[k][rng.Intn(len(vals[k]))]})
			}
		}
		if rng.P(0.9) {
			o = append(o, kv{"val", strconv.Itoa(rng.Range(-1000000, 1000000))})
		}
		if rng.P(0.3) {
			o = append(o, kv{"other", textValue(rng)})
		}
		rng.Shuffle(len(o), func(x, y int) { o[x], o[y] = o[y], o[x] })
		bad := false
		for _, m := range models {
			bad = m.clash(o) || bad
		}
		if bad || len(o) == 0 {
			continue
		}
		c.Logf("write %q", o)
		for k, m := range models {
			if !http && !(&direct{stores[k]}).write(c, o) {
				// A collation may refuse a new instance if the others are in the way
				t, _ := m.s.tuple(o)
				c.Check(m.insts[t] == nil && len(m.insts) > 10, "%v: observation %q is rejected (%d instances)", m.s, o, len(m.insts))
				c.Count("instances refused", 1)
				continue
			}
			m.add(o)
		}
		sent = append(sent, o)
		if http {
			pending = append(pending, o)
			if rng.P(0.2) {
				flush()
			}
		}
	}
	if http {
		flush()
	}
	told := 0
	for k, m := range models {
		var t target = sv
		if !http {
			t = &direct{stores[k]}
		}
		checked += m.verifyAll(c, t, "final")
		if len(m.insts) > 1 {
			told++
		}
		// criteria in any order, with irrelevant ones; criteria that select nothing
		asks := 40
		if http {
			asks = 15
		}
		for j := 0; j < asks; j++ {
			var crit obs
			for _, k := range keyPool {
				if rng.P(0.9) {
					v := vals[k][rng.Intn(len(vals[k]))]
					if len(sent) > 0 && rng.P(0.6) {
						if w, ok := sent[rng.Intn(len(sent))].get(k); ok {
							v = w
						}
					}
					switch {
					case rng.P(0.05):
						v += rng.Pick("x", " ", "0", "\x00")
					case rng.P(0.03) && len(v) > 0:
						v = v[:len(v)-1]
					}
					crit = append(crit, kv{k, v})
				}
			}
			if rng.P(0.3) {
				crit = append(crit, kv{"unrelated", textValue(rng)})
			}
			if len(crit) == 0 {
				continue
			}
			rng.Shuffle(len(crit), func(x, y int) { crit[x], crit[y] = crit[y], crit[x] })
			if m.clash(crit) {
				continue
			}
			ms := m.s.measures()
			a := t.read(c, m.s.name, ms, crit)
			key, ok := m.s.tuple(crit)
			in := m.insts[key]
			if !ok || in == nil {
				c.Check(len(a) == 0, "%v: criteria %q select no instance but get %v", m.s, crit, a)
				c.Count("queries that select nothing", 1)
				continue
			}
			c.Check(sameOrder(a, m.s.expectOrder(ms)), "%v: query for %q with criteria %q answers %v", m.s, ms, crit, a)
			for _, p := range a {
				in.verify(c, m.s, p.f, p.v, fmt.Sprintf("%v criteria %q", m.s, crit))
			}
			checked += len(a)
		}
	}
	c.Count("observations", len(sent))
	c.Count("values compared with the model", checked)
	d := uint64(0)
	for _, m := range models {
		d = core.Mix(d, m.digest())
		c.Count("instances", len(m.insts))
	}
	if told == 0 {
		d = 0
	}
	c.Eval(d)
	if i < 3 {
		c.Sample("random", fmt.Sprintf("%v and %d more collations, %d observations", models[0].s, nc-1, len(sent)))
	}
}

// routePair checks that tuples which differ as little as possible are told apart.
func routePair(c *core.Case, i int) {
	rng := c.Rng
	nk := rng.Range(1, 4)
	keys := pickNames(rng, nk)
	s := &schema{name: "c", rec: 1, keys: keys}
	var o1 obs
	for _, k := range keys {
		v := textValue(rng)
		if rng.P(0.05) {
			v = textLong(rng)
		}
		o1 = append(o1, kv{k, v})
	}
	o2 := append(obs(nil), o1...)
	x := rng.Intn(nk)
	v := o2[x].v
	switch rng.Intn(10) {
	case 0:
		v += rng.Pick("x", " ", "\x00", "=", "0", "\x80")
	case 1:
		v = rng.Pick("x", " ", "\x00", "=", "0", "\x80") + v
	case 2:
		if len(v) > 0 {
			b := []byte(v)
			b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
			v = string(b)
		}
	case 3:
		v = strings.ToUpper(v)
	case 4:
		v = strings.TrimSpace(v)
	case 5:
		y := rng.Intn(nk)
		o2[x].v, o2[y].v = o2[y].v, o2[x].v
		v = o2[x].v
	case 6:
		if len(v) > 1 {
			b := []byte(v)
			p := rng.Intn(len(b) - 1)
			b[p], b[p+1] = b[p+1], b[p]
			v = string(b)
		}
	case 7:
		if len(v) > 0 {
			p := rng.Intn(len(v))
			v = v[:p] + v[p+1:]
		}
	case 8:
		v = ""
	case 9:
		if len(v) > 0 { // the end
			b := []byte(v)
			b[len(b)-1-rng.Intn((len(b)+3)/4)] ^= 1 << uint(rng.Intn(8))
			v = string(b)
		}
	}
	o2[x].v = v
	t1, _ := s.tuple(o1)
	t2, _ := s.tuple(o2)
	m := newModel(s)
	if t1 == t2 || m.clash(o1) || m.clash(o2) {
		c.Eval(0)
		return
	}
	t := &direct{s.store(c, 64)}
	n1, n2 := rng.Range(1, 3), rng.Range(1, 3)
	for j := 0; j < n1+n2; j++ {
		o := o1
		if j >= n1 {
			o = o2
		}
		o = append(obs(nil), o...)
		rng.Shuffle(len(o), func(x, y int) { o[x], o[y] = o[y], o[x] })
		c.Check(t.write(c, o), "%v: observation %q is rejected", s, o)
		m.add(o)
		if j == n1-1 {
			c.Check(len(t.read(c, "c", []string{"count(*)"}, o2)) == 0, "%v: %q was observed and %q is reported", s, o1, o2)
		}
	}
	c.Count("values compared with the model", m.verifyAll(c, t, fmt.Sprintf("%q and %q", o1, o2)))
	c.Eval(m.digest())
	if i < 3 {
		c.Sample("pair", fmt.Sprintf("%q %q", o1, o2))
	}
}

// routeMany fills a collation with many instances.
func routeMany(c *core.Case, i int) {
	rng := c.Rng
	n := 200000
	s := &schema{name: "c", rec: 1, keys: []string{"id"}}
	if i%2 == 1 {
		s.keys = []string{"id", "kind"}
	}
	coll := s.compile(c)
	st := storage.Store{Backend: bufmap.New(1<<21+rng.Intn(1000), coll.Size()), Collator: coll}
	pre := rng.Text(rng.Range(0, 12), "abc-")
	form := rng.Intn(3)
	item := func(j int) collation.FVList {
		var v string
		switch form {
		case 0:
			v = pre + strconv.Itoa(j)
		case 1:
			v = fmt.Sprintf("%s%08x", pre, j)
		default:
			v = strconv.FormatUint(core.Mix(uint64(j)), 36)
		}
		l := collation.FVList{{F: []byte("id"), V: []byte(v)}}
		if len(s.keys) > 1 {
			l = append(l, collation.FV{F: []byte("kind"), V: []byte{"xyz"[j%3]}})
		}
		return l
	}
	ctx := context.Background()
	times := func(j int) int {
		if j%7 == 3 {
			return 2
		}
		return 1
	}
	refused := map[int]bool{}
	for round := 0; round < 2; round++ {
		for j := 0; j < n; j++ {
			if round < times(j) && !refused[j] {
				if err := st.Write(ctx, collation.Row{Data: item(j)}); err != nil {
					c.Check(round == 0 && j-len(refused) > 10, "observation of instance %d of %d is rejected: %v", j, n, err)
					refused[j] = true
				}
			}
			if j%10000 == 0 {
				c.Tick()
			}
		}
	}
	q := collation.Query{FieldMeasures: []collation.FM{{F: []byte("*"), M: [][]byte{[]byte("count")}}}}
	for j := 0; j < n; j++ {
		q.Criteria = item(j)
		res, err := st.Read(ctx, q)
		if refused[j] {
			c.Check(len(res.FieldMeasureValues) == 0, "instance %q was refused and reports %v", item(j), res.FieldMeasureValues)
			continue
		}
		c.Check(err == nil && len(res.FieldMeasureValues) == 1 && res.FieldMeasureValues[0].V == float64(times(j)),
			"instance %q of %d received %d observations and reports %v (%v)", item(j), n, times(j), res.FieldMeasureValues, err)
		if j%10000 == 0 {
			c.Tick()
		}
	}
	for j := n; j < n+20000; j++ {
		q.Criteria = item(j)
		res, _ := st.Read(ctx, q)
		c.Check(len(res.FieldMeasureValues) == 0, "instance %q was never observed and reports %v", item(j), res.FieldMeasureValues)
	}
	c.Check(len(refused) < n/2, "%d of %d instances are refused", len(refused), n)
	c.Count("instances refused", len(refused))
	c.Count("instances", n)
	c.Count("values compared with the model", n)
	c.Eval(core.Mix(uint64(i), c.Seed))
	c.Sample("many", fmt.Sprintf("%d instances like %q", n, item(1)))
}

// routeCollision shows the known finding: instances are told apart by a 64-bit hash that
// is easily inverted.
func routeCollision(c *core.Case) {
	s := &schema{name: "c", rec: 1, keys: []string{"k"}}
	var vals []string
	for j := 0; len(vals) < 2; j++ {
		pre := fmt.Sprint("user", j, "-")
		if suf, ok := craft.Suffix([]byte("k"+pre), 0x0123456789abcdef); ok {
			vals = append(vals, pre+string(suf))
		}
	}
	t := &direct{s.store(c, 64)}
	o1, o2 := obs{{"k", vals[0]}}, obs{{"k", vals[1]}}
	c.Check(t.write(c, o1), "observation %q is rejected", o1)
	a := t.read(c, "c", []string{"count(*)"}, o2)
	c.Eval(1)
	if len(a) == 0 {
		return // no longer so
	}
	if v, _ := a.get("count(*)"); v != "1" {
		c.Failf("after one observation of %q the instance %q reports %v", o1, o2, a)
	}
	what := fmt.Sprintf("the values %q and %q of the key k, made to have the same 64-bit FNV-1 hash, select the same instance", vals[0], vals[1])
	if !c.Known("hash-collision", what) {
		c.Failf("%s", what)
	}
}

// routeCraft uses key values that have extreme hashes and that meet in the same slots, if
// the hash is the present one. They are told apart whatever the hash is.
func routeCraft(c *core.Case, i int) {
	rng := c.Rng
	keys := pickNames(rng, rng.Range(1, 3))
	s := &schema{name: "c", rec: 1, keys: keys, fields: []fieldSpec{{"val", []string{"count", "sum"}}}}
	sorted := append([]string(nil), keys...)
	sort.Strings(sorted)
	last := sorted[len(sorted)-1]
	fixed := map[string]string{}
	var prefix string
	for _, k := range sorted[:len(sorted)-1] {
		fixed[k] = textValue(rng)
		prefix += k + fixed[k]
	}
	slots := rng.PickInt(rng.Range(1, 64), rng.Range(11, 40), 16, 64, 1<<16, 1<<16+1)
	starts := []uint64{rng.Uint64(), rng.Uint64()}
	if rng.P(0.3) {
		starts[0] = uint64(slots - 1)
	}
	if rng.P(0.3) {
		starts[1] = starts[0] + uint64(rng.Range(1, 3))
	}
	n := rng.Range(2, 14)
	used := map[uint64]bool{1: true} // stands for zero
	make1 := func() obs {
		for {
			var h uint64
			switch rng.Intn(8) {
			case 0:
				h = []uint64{0, 2, 3, 1<<64 - 1, 1<<64 - 2, 1 << 63, 1<<63 - 1, 1<<63 + 1, 1 << 32, 1<<32 - 1, 1<<32 + 1, 1 << 31, uint64(slots)}[rng.Intn(13)]
			case 1:
				h = rng.Uint64()
			case 2:
				// differs from another in few bits
				for g := range used {
					if h == 0 || g < h {
						h = g
					}
				}
				h ^= 1 << uint(rng.Intn(64))
			default:
				h = rng.Uint64()
				h += starts[rng.Intn(2)]%uint64(slots) - h%uint64(slots)
			}
			pre := rng.Text(rng.Range(0, 3), "abc")
			suf, ok := craft.Suffix([]byte(prefix+last+pre), h)
			if !ok || used[h] {
				continue
			}
			used[h] = true
			var o obs
			for _, k := range sorted[:len(sorted)-1] {
				o = append(o, kv{k, fixed[k]})
			}
			o = append(o, kv{last, pre + string(suf)})
			rng.Shuffle(len(o), func(x, y int) { o[x], o[y] = o[y], o[x] })
			return o
		}
	}
	m := newModel(s)
	t := &direct{s.store(c, slots)}
	var tuples []obs
	for j := 0; j < n; j++ {
		tuples = append(tuples, make1())
	}
	present := map[int]bool{}
	refused := 0
	for j := 0; j < 3*n; j++ {
		x := rng.Intn(n)
		o := append(append(obs(nil), tuples[x]...), kv{"val", strconv.Itoa(rng.Range(-1000, 1000))})
		if m.clash(o) {
			continue
		}
		if !t.write(c, o) {
			c.Check(!present[x] && (len(present) > 10 || len(present) >= slots), "%v: observation %q is rejected by a store of %d slots with %d instances", s, o, slots, len(present))
			refused++
			continue
		}
		m.add(o)
		present[x] = true
	}
	for x, o := range tuples {
		if !present[x] && !m.clash(o) {
			a := t.read(c, "c", []string{"count(*)", "sum(val)"}, o)
			c.Check(len(a) == 0, "%v: nothing was stored for %q but it reports %v", s, o, a)
			c.Count("queries that select nothing", 1)
		}
	}
	c.Count("instances refused", refused)
	c.Count("crafted instances", len(present))
	c.Count("values compared with the model", m.verifyAll(c, t, "crafted keys"))
	if len(present) < 2 {
		c.Eval(0)
		return
	}
	c.Eval(m.digest())
	if i < 2 {
		c.Sample("craft", fmt.Sprintf("%v with %d slots, %q", s, slots, tuples))
	}
}
