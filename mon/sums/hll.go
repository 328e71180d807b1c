package main

import (
	"bytes"
	"context"
	"fmt"
	"math"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkUniqueAccuracy(r *core.Run) {
	r.Rule = "one/*: counters of every precision given nothing or one item (with repeats); single/*: one population of distinct items, estimates checked along the way; " +
		"ensemble/*: mean and root mean square relative error over many populations at one cardinality; store/*: the same through a collation; deep/*: crafted items that leave the registers as up to 2^58 random items would (skipped if the hash is not the present one). 17 kinds of populations: decimal, padded, prefixed, suffixed, binary, random, long (up to 6000 bytes). " +
		"Non-trivial if at least two distinct items were added. Digest: precision, cardinality, population, estimate."
	r.Assum = []string{"bounds: single estimates 4.5 (below) and 5 to 9 (above, by precision) standard errors plus 1.6; ensemble mean 0.35 standard errors plus sampling error, ensemble root mean square 1.3 (1.55 below precision 6) standard errors plus rounding"}
	r.Each(r.N(600, 6000), "one", hllOne)
	r.Each(r.N(15*24, 15*300), "single", hllSingle)
	r.Each(len(ensembleGrid(r)), "ensemble", hllEnsemble)
	r.Each(r.N(60, 600), "store", hllStore)
	r.Each(r.N(150, 3000), "deep", hllDeep)
}

func sigma(p int) float64 { return 1.04 / math.Sqrt(float64(int(1)<<uint(p))) }

// within reports whether est is an acceptable estimate of n.
func within(p int, n int, est float64) bool {
	up := 5.0
	switch {
	case p <= 5:
		up = 9
	case p <= 7:
		up = 7
	}
	s := sigma(p) * float64(n)
	e := est - float64(n)
	return e <= up*s+1.6 && e >= -4.5*s-1.6
}

func hllOne(c *core.Case, i int) {
	rng := c.Rng
	p := 4 + i%15
	ct := hll.New(uint8(p))
	c.Check(ct.Count() == 0, "p=%d: new counter reports %d", p, ct.Count())
	var v []byte
	var kind string
	switch rng.Intn(5) {
	case 0:
		v, kind = []byte{}, "empty"
	case 1:
		v, kind = rng.Bytes(rng.Range(1, 3)), "short"
	case 2:
		v, kind = rng.Bytes(rng.Range(4, 5000)), "long"
	case 3:
		v, kind = bytes.Repeat([]byte{byte(rng.Intn(256))}, rng.Range(1, 100)), "run"
	default:
		pop := makePopulation(rng, rng.Intn(numPopulations))
		v, kind = pop.item(rng.Intn(1000000)), pop.name
	}
	for n := rng.Range(1, 5); n > 0; n-- {
		ct.Add(v)
		c.Check(ct.Count() == 1, "p=%d: estimate for the one item %q is %d", p, v, ct.Count())
	}
	ct.Reset()
	c.Check(ct.Count() == 0, "p=%d: counter reports %d after a reset", p, ct.Count())
	c.Count("single items", 1)
	c.Eval(core.Mix(uint64(p), core.HashBytes(v)))
	if i < 3 {
		c.Sample("one", fmt.Sprintf("p=%d %s item of %d bytes", p, kind, len(v)))
	}
}

func hllSingle(c *core.Case, i int) {
	rng := c.Rng
	p := 4 + i%15
	m := 1 << uint(p)
	var top int
	switch {
	case p <= 8:
		top = m * rng.Range(2, 400)
	case p <= 12:
		top = m * rng.Range(1, 40)
	case p <= 15:
		top = m * rng.Range(1, c.N(6, 40))
	default:
		top = m/2 + rng.Intn(m*c.N(1, 8))
		if rng.P(0.2) {
			top = m * c.N(3, 16)
		}
	}
	which := i / 15
	if which%numPopulations == longPopulation && top > 50000 {
		which++
	}
	pop := makePopulation(rng, which)
	ct := hll.New(uint8(p))
	next := 1
	worst := 0.0
	for n := 1; n <= top; n++ {
		ct.Add(pop.item(n))
		if n == next || n == top {
			est := float64(ct.Count())
			e := (est - float64(n)) / (sigma(p)*float64(n) + 1)
			if math.Abs(e) > math.Abs(worst) {
				worst = e
			}
			c.Check(within(p, n, est), "p=%d: estimate for %d distinct items (%s) is %v, off by %.1f standard errors", p, n, pop.name, est, (est-float64(n))/(sigma(p)*float64(n)))
			c.Count("estimates checked", 1)
			c.Eval(core.Mix(uint64(p), uint64(n), core.HashBytes([]byte(pop.name)), uint64(est)))
			step := n / 3
			if n > 20*m {
				step = n / 2
			}
			next = n + 1 + rng.Intn(step+1)
		}
	}
	c.Count("distinct items added", top)
	c.Max("absolute error in standard errors (plus one)", math.Abs(worst))
	if i < 3 {
		c.Sample("single", fmt.Sprintf("p=%d %s up to %d items, worst error %.2f standard errors", p, pop.name, top, worst))
	}
}

type ensemblePoint struct {
	p, n, runs int
}

// ensembleGrid lists the cardinalities at which errors are averaged.
func ensembleGrid(r *core.Run) []ensemblePoint {
	var g []ensemblePoint
	for p := 4; p <= 18; p++ {
		m := 1 << uint(p)
		for _, f := range []float64{0.15, 0.3, 0.5, 0.7, 0.9, 1.2, 1.7, 2.3, 3, 4.5, 5.5, 7, 8.7, 12, 40} {
			n := int(f * float64(m))
			budget := r.N(6000000, 60000000)
			runs := budget / n
			if runs > r.N(400, 2000) {
				runs = r.N(400, 2000)
			}
			if runs < 5 {
				continue
			}
			g = append(g, ensemblePoint{p, n, runs})
		}
	}
	return g
}

func hllEnsemble(c *core.Case, i int) {
	g := ensembleGrid(c.Run)[i]
	var sum, sq float64
	runs := 0
	ct := hll.New(uint8(g.p))
	for t := 0; t < g.runs; t++ {
		ct.Reset()
		if t%numPopulations == longPopulation && g.n > 3000 {
			continue // takes long
		}
		runs++
		pop := makePopulation(c.Rng, t)
		for j := 0; j < g.n; j++ {
			ct.Add(pop.item(j))
		}
		e := (float64(ct.Count()) - float64(g.n)) / float64(g.n) / sigma(g.p)
		sum += e
		sq += e * e
		c.Tick()
	}
	mean := sum / float64(runs)
	rms := math.Sqrt(sq / float64(runs))
	round := 1 / (float64(g.n) * sigma(g.p)) // one item, in standard errors
	c.Check(math.Abs(mean) <= 0.35+round+4.5/math.Sqrt(float64(runs)),
		"p=%d: estimates for %d distinct items are off by %.2f standard errors on average over %d populations", g.p, g.n, mean, runs)
	lim := 1.3
	if g.p < 6 {
		lim = 1.55
	}
	c.Check(rms <= (lim+round)*(1+3/math.Sqrt(2*float64(runs))),
		"p=%d: root mean square error for %d distinct items is %.2f standard errors over %d populations", g.p, g.n, rms, runs)
	c.Count("ensemble estimates", runs)
	c.Max("ensemble mean error in standard errors", math.Abs(mean))
	c.Max("ensemble rms error in standard errors", rms)
	c.Eval(core.Mix(uint64(g.p), uint64(g.n), math.Float64bits(mean)))
	if i%40 == 0 {
		c.Sample("ensemble", fmt.Sprintf("p=%d n=%d runs=%d mean=%.3f rms=%.3f (standard errors)", g.p, g.n, runs, mean, rms))
	}
}

// uniqueStore is a store of one collation with unique counts of field v.
func uniqueStore(c *core.Case, p int) *storage.Store {
	sch := collation.Schema{
		Name:     "u",
		Keys:     []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
		Measures: []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "v"}, Measures: []collation.Measure{collation.Cardinality{Precision: p}}}},
	}
	coll, err := sch.Compile()
	c.Check(err == nil, "schema with precision %d refused: %v", p, err)
	return &storage.Store{Backend: bufmap.New(20, coll.Size()), Collator: coll}
}

func obs(st *storage.Store, key string, v []byte) error {
	return st.Write(context.Background(), collation.Row{Data: collation.FVList{{F: []byte("k"), V: []byte(key)}, {F: []byte("v"), V: v}}})
}

// unique returns the unique count of an instance, -1 if there is none.
func unique(c *core.Case, st *storage.Store, key string) float64 {
	res, err := st.Read(context.Background(), collation.Query{
		FieldMeasures: []collation.FM{{F: []byte("v"), M: [][]byte{[]byte("uniquecount")}}},
		Criteria:      collation.FVList{{F: []byte("k"), V: []byte(key)}},
	})
	c.Check(err == nil, "query failed: %v", err)
	if len(res.FieldMeasureValues) == 0 {
		return -1
	}
	c.Check(len(res.FieldMeasureValues) == 1, "%d values for one measure", len(res.FieldMeasureValues))
	var f float64
	_, err = fmt.Sscan(fmt.Sprint(res.FieldMeasureValues[0].V), &f)
	c.Check(err == nil, "value %v is not a number", res.FieldMeasureValues[0].V)
	return f
}

func hllStore(c *core.Case, i int) {
	rng := c.Rng
	p := 4 + i%15
	st := uniqueStore(c, p)
	pop := makePopulation(rng, rng.Intn(numPopulations))
	top := rng.Range(1, 3000)
	if p > 14 {
		top = rng.Range(1, 60) // each observation copies the whole record
	}
	next := 1
	empty := 0 // this value is the empty one
	if rng.P(0.5) {
		empty = rng.PickInt(1, 1, 2, rng.Range(1, top))
	}
	for n := 1; n <= top; n++ {
		it := pop.item(n)
		if n == empty {
			it = []byte{}
		}
		c.Check(obs(st, "a", it) == nil, "observation refused")
		if n == next || n == top {
			est := unique(c, st, "a")
			if n == 1 {
				c.Check(est == 1, "p=%d: unique count for one value %q is %v", p, pop.item(1), est)
			}
			c.Check(within(p, n, est), "p=%d: unique count for %d distinct values (%s) is %v", p, n, pop.name, est)
			next = n + 1 + rng.Intn(n/2+1)
			c.Count("estimates checked", 1)
			c.Eval(core.Mix(uint64(p), uint64(n), uint64(est), 7))
		}
	}
}

func checkUniqueSet(r *core.Run) {
	r.Rule = "set/*: one set of values given to several counters with different order, multiplicity, save and restore points, adoption of the serialized bytes; all estimates must agree with a plain counter. " +
		"store/*: the same through collation instances, with concurrent writers. Non-trivial if the set has at least two values and some value was repeated. Digest: precision, set size, population, estimate."
	r.Each(r.N(2500, 30000), "set", hllSet)
	r.Seq(r.N(120, 1600), "store", hllSetStore)
}

// sequence returns indexes of items 0..n-1, each at least once, in some order.
func sequence(rng *core.Rand, n int) []int {
	seq := rng.Perm(n)
	extra := rng.Intn(2*n + 1)
	switch rng.Intn(4) {
	case 0: // repeats at random places
		for j := 0; j < extra; j++ {
			seq = append(seq, rng.Intn(n))
		}
		rng.Shuffle(len(seq), func(i, j int) { seq[i], seq[j] = seq[j], seq[i] })
	case 1: // repeats at the end
		for j := 0; j < extra; j++ {
			seq = append(seq, rng.Intn(n))
		}
	case 2: // sorted, doubled
		seq = seq[:0]
		for j := 0; j < n; j++ {
			for k := rng.Range(1, 3); k > 0; k-- {
				seq = append(seq, j)
			}
		}
	}
	return seq
}

func hllSet(c *core.Case, i int) {
	rng := c.Rng
	p := 4 + i%15
	n := rng.Range(1, 40)
	switch rng.Intn(4) {
	case 0:
		n = rng.Range(1, 5000)
	case 1:
		n = rng.Range(1, 400)
	}
	if p >= 15 && n > 800 {
		n = 800
	}
	items, kind := hostileItems(c, rng, p, n)
	ref := hll.New(uint8(p))
	for _, v := range items {
		ref.Add(v)
	}
	want := ref.Count()
	c.Check(ref.Count() == want, "two counts without additions differ")
	for variant := 0; variant < 5; variant++ {
		seq := sequence(rng, n)
		ct := hll.New(uint8(p))
		if rng.P(0.3) { // a used and reset counter
			for j := 0; j < 50; j++ {
				ct.Add(rng.Bytes(5))
			}
			ct.Reset()
		}
		saves := 0
		how := ""
		for pos, j := range seq {
			v := append([]byte(nil), items[j]...)
			ct.Add(v)
			for k := range v {
				v[k] ^= 0xff // the counter must not keep the caller's slice
			}
			if pos < len(seq)-1 && rng.P(2/float64(len(seq))) || pos == len(seq)-1 && rng.P(0.3) {
				saves++
				var buf bytes.Buffer
				_, err := ct.WriteTo(&buf)
				c.Check(err == nil, "WriteTo: %v", err)
				if rng.Bool() {
					how += "r"
					var nc hll.Counter
					if rng.Bool() {
						nc = hll.New(uint8(rng.Range(4, 18)))
						nc.Add([]byte("something else"))
						if rng.Bool() {
							nc.Count()
						}
						if rng.P(0.3) {
							nc.Reset()
						}
					}
					_, err = nc.ReadFrom(&buf)
					c.Check(err == nil, "ReadFrom of a stored counter: %v", err)
					ct = nc
				} else {
					how += "a"
					nc, err := hll.WithBytes(buf.Bytes())
					c.Check(err == nil, "WithBytes of a stored counter: %v", err)
					ct = nc
				}
			}
			if rng.P(0.01) || how != "" && rng.P(1/float64(len(seq))) {
				ct.Count()
			}
		}
		got := ct.Count()
		c.Check(got == want, "p=%d: a counter that saw the %d values (%s) in another order, with repeats and %d saves (%s) reports %d, another %d", p, n, kind, saves, how, got, want)
		c.Count("counters compared", 1)
		c.Count("save and restore points", saves)
	}
	if n > 1 {
		c.Eval(core.Mix(uint64(p), uint64(n), core.HashBytes([]byte(kind)), uint64(want)))
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("set", fmt.Sprintf("p=%d %d values (%s), five orders and multiplicities, estimate %d", p, n, kind, want))
	}
}

// hostileItems is a set of values for a counter of precision p: a population, the empty
// value, short ones, and crafted ones that reach large register values.
func hostileItems(c *core.Case, rng *core.Rand, p, n int) (items [][]byte, kind string) {
	pop := makePopulation(rng, rng.Intn(numPopulations))
	kind = pop.name
	for j := 0; j < n; j++ {
		items = append(items, pop.item(j))
	}
	if rng.P(0.5) {
		items[rng.Intn(n)] = []byte{}
		kind += ", empty"
	}
	if rng.P(0.3) {
		for k := rng.Range(1, 3); k > 0; k-- {
			items[rng.Intn(n)] = rng.Bytes(rng.Range(1, 2))
		}
		kind += ", short"
	}
	if rng.P(0.5) && deepUsable(c) {
		for k := rng.Range(1, 20); k > 0; k-- {
			idx := uint64(rng.Intn(1 << uint(p)))
			if rng.Bool() {
				idx = uint64(rng.PickInt(0, 1, 1<<uint(p)-1))
			}
			items[rng.Intn(n)] = deepItem(rng, p, idx, rng.Range(1, 65-p))
		}
		kind += ", deep"
	}
	return items, kind
}

func hllSetStore(c *core.Case, i int) {
	rng := c.Rng
	p := rng.Range(4, 11)
	if rng.P(0.1) {
		p = rng.Range(12, 18)
	}
	n := rng.Range(1, 400)
	if rng.P(0.3) {
		n = rng.Range(1, 5)
	}
	if p > 12 {
		n = rng.Range(1, 60)
	}
	items, kind := hostileItems(c, rng, p, n)
	count := func(seq []int) float64 {
		ref := hll.New(uint8(p))
		for _, j := range seq {
			ref.Add(items[j])
		}
		return float64(ref.Count())
	}
	st := uniqueStore(c, p)
	want := map[string]float64{}
	var all []string
	// In each round some instances get a set of the values, while the others must stay.
	for round := rng.Range(1, 3); round > 0; round-- {
		keys := []string{"a", "b", "c"}
		if want["a"] != 0 {
			keys = []string{fmt.Sprint("d", round), fmt.Sprint("e", round)}
		}
		sub := n
		if rng.Bool() {
			sub = rng.Range(1, n)
		}
		pick := rng.Perm(n)[:sub]
		w := count(pick)
		for _, key := range keys {
			key := key
			seq := sequence(rng, sub)
			g := rng.Range(1, 6)
			for w := 0; w < g; w++ {
				w := w
				c.Go(func() {
					for pos := w; pos < len(seq); pos += g {
						c.Check(obs(st, key, items[pick[seq[pos]]]) == nil, "observation refused")
					}
				})
			}
			want[key] = w
			all = append(all, key)
		}
		c.Wait()
		for _, key := range all {
			got := unique(c, st, key)
			c.Check(got == want[key], "p=%d: instance %s saw values (%s, %d of %d) from several writers and reports %v, a counter %v", p, key, kind, sub, n, got, want[key])
		}
		c.Count("instances compared", len(all))
		// repeating every value changes nothing
		key := keys[rng.Intn(len(keys))]
		for _, j := range sequence(rng, sub) {
			c.Check(obs(st, key, items[pick[j]]) == nil, "observation refused")
		}
		c.Check(unique(c, st, key) == w, "unique count changed by repeated values")
	}
	c.Eval(core.Mix(uint64(p), uint64(n), uint64(want["a"]), 3))
}
