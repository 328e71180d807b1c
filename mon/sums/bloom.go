package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkBloomMembership(r *core.Run) {
	r.Rule = "random items of all kinds are added to filters with random numbers of bits (1 to 100000, odd and even) and hash functions (0 to 255) or capacity and rate; all earlier items are asked for again at random points, after saving, restoring and adopting, and after overfilling. " +
		"Non-trivial if the filter has a hash function and some item asked for was not added (so that the filter was not saturated). Digest: parameters, items, answers."
	r.Each(r.N(20000, 400000), "member", bloomMember)
}

func someItem(rng *core.Rand, pops []population, n int) []byte {
	switch rng.Intn(6) {
	case 0:
		return rng.Bytes(rng.Range(0, 4))
	case 1:
		return rng.Bytes(rng.Range(5, 300))
	default:
		return pops[rng.Intn(len(pops))].item(rng.Intn(n + 1))
	}
}

// saveBloom stores and restores a filter in a random way.
func saveBloom(c *core.Case, rng *core.Rand, b bloom.Bloom, asked ...[]byte) bloom.Bloom {
	var buf bytes.Buffer
	_, err := b.WriteTo(&buf)
	c.Check(err == nil, "WriteTo: %v", err)
	if rng.Bool() {
		nb := bloom.NewBits(rng.Range(1, 100), uint8(rng.Range(0, 9)))
		nb.Add([]byte("something else"))
		for _, v := range asked {
			nb.Has(v) // what it answers now means nothing later
		}
		_, err := nb.ReadFrom(&buf)
		c.Check(err == nil, "ReadFrom of a stored filter: %v", err)
		return nb
	}
	nb, err := bloom.WithBytes(buf.Bytes())
	c.Check(err == nil, "WithBytes of a stored filter: %v", err)
	return nb
}

func bloomMember(c *core.Case, i int) {
	rng := c.Rng
	var b bloom.Bloom
	k := -1
	desc := ""
	if rng.P(0.6) {
		m := rng.Range(1, 64)
		switch rng.Intn(4) {
		case 0:
			m = rng.Range(1, 100000)
		case 1:
			m = rng.Range(1, 2000)
		case 2:
			m = rng.PickInt(1, 2, 3, 7, 8, 9, 63, 64, 65, 127, 128, 1023, 1024, 1025, 65535, 65536, 65537)
		}
		k = rng.Range(1, 12)
		if rng.P(0.1) {
			k = rng.PickInt(0, 1, 30, 100, 254, 255)
		}
		b = bloom.NewBits(m, uint8(k))
		desc = fmt.Sprintf("%d bits, %d hash functions", m, k)
	} else {
		n := rng.Range(1, 50)
		if rng.Bool() {
			n = rng.Range(1, 3000)
		}
		p := math.Pow(10, -rng.Float64()*rng.Float64()*8-0.02)
		b = bloom.New(n, p)
		desc = fmt.Sprintf("capacity %d, rate %g", n, p)
	}
	pops := []population{makePopulation(rng, rng.Intn(numPopulations)), makePopulation(rng, rng.Intn(numPopulations))}
	n := rng.Range(1, 60)
	if rng.P(0.2) {
		n = rng.Range(1, 1500)
	}
	var added [][]byte
	digest := core.HashBytes([]byte(desc))
	saves, asked := 0, 0
	for j := 0; j < n; j++ {
		v := someItem(rng, pops, n)
		arg := append([]byte(nil), v...)
		if rng.P(0.3) {
			b.Has(arg)
		}
		b.Add(arg)
		for x := range arg {
			arg[x]++ // the filter must not keep the caller's slice
		}
		added = append(added, v)
		digest = core.Mix(digest, core.HashBytes(v))
		if rng.P(0.05) {
			var q [][]byte
			for len(q) < 3 {
				q = append(q, added[rng.Intn(len(added))])
			}
			if rng.P(0.2) {
				b.Reset()
				added = added[:0]
				q = nil
			}
			b = saveBloom(c, rng, b, q...)
			saves++
		}
		if rng.P(0.3) || j == n-1 {
			from := 0
			if j != n-1 && len(added) > 20 {
				from = len(added) - 20
			}
			for _, x := range added[from:] {
				asked++
				c.Check(b.Has(x), "%s: item %q was added and is reported absent (%d items, %d saves)", desc, x, len(added), saves)
			}
		}
	}
	absent := false
	for j := 0; j < 10; j++ {
		absent = absent || !b.Has(rng.Bytes(9))
	}
	// after a reset nothing is present
	b.Reset()
	if k != 0 {
		for _, x := range added {
			c.Check(!b.Has(x), "%s: item %q reported present after a reset", desc, x)
		}
		c.Check(!b.Has(rng.Bytes(8)) && !b.Has(nil), "%s: item reported present after a reset", desc)
	}
	v := someItem(rng, pops, n)
	b.Add(v)
	c.Check(b.Has(v), "%s: item %q added after a reset is reported absent", desc, v)
	c.Count("membership questions", asked)
	c.Count("items added", n)
	c.Count("saves", saves)
	if absent && k != 0 {
		c.Eval(digest)
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("member", fmt.Sprintf("%s: %d items, %d saves", desc, n, saves))
	}
}

func checkBloomRates(r *core.Run) {
	r.Rule = "rate/*: filters of capacity 500 to 30000 and rate 0.001 to 0.3 filled with distinct items of one population, tested with absent items of the same population, at capacity and at other fill levels; ensemble/*: averages over random items; low/*: rates of 1e-3 to 1e-30, where no false positive may be seen and the error rate estimate must be near p at capacity; large/*: filters of 4 million items (thorough: 320 million, more than 2^32 bits); lowmean/*: false positives counted over many filters for rates of 1e-4 to 1e-8; edge/*: tiny and saturated filters. " +
		"Non-trivial if at least 30 false positives were expected. Digest: parameters, population, outcome."
	r.Assum = []string{"single filters: false positive rate within [0.55,1.8] of p, item count within 5 sqrt(n) plus 1% plus 2, error rate estimate within [0.55,1.7] of the measured rate; " +
		"averages over random items: [0.88,1.15], 2%, [0.85,1.15]; each plus sampling error"}
	r.Each(r.N(160, 1600), "rate", bloomRate)
	r.Each(r.N(400, 6000), "low", bloomLow)
	r.Each(r.N(3, 5), "large", bloomLarge)
	r.Each(len(bloomLowGrid), "lowmean", bloomLowMean)
	r.Each(len(bloomGrid), "ensemble", bloomEnsemble)
	r.Each(r.N(1500, 20000), "edge", bloomEdge)
}

type bloomPoint struct {
	n int
	p float64
}

var bloomGrid = []bloomPoint{{400, 0.1}, {500, 0.02}, {1000, 0.2}, {1000, 0.05}, {1500, 0.01}, {2000, 0.1}, {3000, 0.02}, {5000, 0.01}, {5000, 0.1}, {10000, 0.05}, {700, 0.005}, {4000, 0.004}}

func bloomRate(c *core.Case, i int) {
	rng := c.Rng
	rates := []float64{0.3, 0.2, 0.1, 0.05, 0.03, 0.01, 0.005, 0.002, 0.001}
	p := rates[i%len(rates)] * (0.9 + 0.2*rng.Float64())
	n := rng.Range(500, 3000)
	if rng.P(0.25) {
		n = rng.Range(3000, 30000)
	}
	pop := makePopulation(rng, i/len(rates))
	b := bloom.New(n, p)
	c.Check(b.Len() == bloom.Len(n, p), "n=%d p=%g: Len()=%d but Len(n,p)=%d", n, p, b.Len(), bloom.Len(n, p))
	c.Check(b.Count() == 0 && b.ErrorRate() == 0, "empty filter reports %d items, error rate %v", b.Count(), b.ErrorRate())
	fills := []int{n / 4, n / 2, n, n + n/2}
	prev := int64(0)
	at := 0
	for f, fill := range fills {
		for ; at < fill; at++ {
			b.Add(pop.item(at))
		}
		cnt := b.Count()
		c.Check(cnt >= prev, "n=%d p=%g: item count estimate fell from %d to %d", n, p, prev, cnt)
		prev = cnt
		d := math.Abs(float64(cnt) - float64(fill))
		c.Check(d <= 0.01*float64(fill)+5*math.Sqrt(float64(fill))+2, "n=%d p=%g: %d distinct items (%s) estimated as %d", n, p, fill, pop.name, cnt)
		tests := int(400 / p)
		if tests > 80000 {
			tests = 80000
		}
		fp := 0
		for j := 0; j < tests; j++ {
			if b.Has(pop.item(2*n + j)) {
				fp++
			}
		}
		actual := float64(fp) / float64(tests)
		est := b.ErrorRate()
		noise := func(rate float64) float64 { return 5 * math.Sqrt(rate/float64(tests)) }
		c.Check(est >= 0 && est <= 1, "error rate estimate is %v", est)
		if f == 2 {
			c.Check(actual <= 1.8*p+noise(1.8*p), "n=%d p=%g: false positive rate at capacity is %v (%d of %d, %s)", n, p, actual, fp, tests, pop.name)
			c.Check(actual >= 0.55*p-noise(0.55*p), "n=%d p=%g: false positive rate at capacity is only %v (%d of %d, %s)", n, p, actual, fp, tests, pop.name)
			c.Max("false positive rate over p", actual/p)
		}
		c.Check(est <= 1.7*actual+noise(est)+1e-4, "n=%d p=%g fill=%d: error rate estimate %v, actual %v (%s)", n, p, fill, est, actual, pop.name)
		if p >= 0.004 || f >= 2 {
			c.Check(actual <= est/0.55+noise(actual)+2e-4, "n=%d p=%g fill=%d: error rate estimate %v, actual %v (%s)", n, p, fill, est, actual, pop.name)
		}
		c.Count("absent items tested", tests)
		c.Count("false positives seen", fp)
		if fp > 30 {
			c.Eval(core.Mix(uint64(n), math.Float64bits(p), uint64(fill), uint64(fp)))
		} else {
			c.Eval(0)
		}
	}
	if i < 4 {
		c.Sample("rate", fmt.Sprintf("n=%d p=%.4g %s", n, p, pop.name))
	}
}

// bloomEnsemble averages over filters holding random items.
func bloomEnsemble(c *core.Case, i int) {
	rng := c.Rng
	g := bloomGrid[i]
	runs := c.N(16, 100)
	tests := int(1500 / g.p)
	for _, frac := range []float64{1, 0.6} {
		n := int(frac * float64(g.n))
		var actual, est, cnt float64
		for t := 0; t < runs; t++ {
			pop := makePopulation(rng, 8+6*(t%2))
			b := bloom.New(g.n, g.p)
			for j := 0; j < n; j++ {
				b.Add(pop.item(j))
			}
			fp := 0
			for j := 0; j < tests; j++ {
				if b.Has(pop.item(n + j)) {
					fp++
				}
			}
			a, e, k := float64(fp)/float64(tests), b.ErrorRate(), float64(b.Count())
			c.Check(math.Abs(k-float64(n)) <= 4*math.Sqrt(float64(n))+2, "n=%d p=%g: %d random items estimated as %v", g.n, g.p, n, k)
			if frac == 1 {
				noise := 5 * math.Sqrt(g.p/float64(tests))
				c.Check(a <= 1.7*g.p+noise && a >= 0.6*g.p-noise, "n=%d p=%g: false positive rate of random items is %v", g.n, g.p, a)
				c.Check(e <= 1.6*a+noise && e >= 0.6*a-noise, "n=%d p=%g: error rate estimate %v, actual %v", g.n, g.p, e, a)
			}
			actual += a / float64(runs)
			est += e / float64(runs)
			cnt += k / float64(runs)
			c.Count("absent items tested", tests)
			c.Count("false positives seen", fp)
		}
		if frac == 1 {
			c.Check(actual <= 1.15*g.p && actual >= 0.88*g.p, "n=%d p=%g: average false positive rate is %v", g.n, g.p, actual)
			c.Max("average false positive rate over p", actual/g.p)
		}
		slack := 4 * math.Sqrt(actual/float64(tests*runs))
		c.Check(est <= 1.15*actual+slack && est >= 0.85*actual-slack, "n=%d p=%g fill=%d: average error rate estimate %v, actual %v", g.n, g.p, n, est, actual)
		c.Check(math.Abs(cnt-float64(n)) <= 0.02*float64(n)+1.5, "n=%d p=%g: %d random items estimated as %v on average", g.n, g.p, n, cnt)
		c.Eval(core.Mix(uint64(i), math.Float64bits(actual), math.Float64bits(cnt)))
	}
	c.Sample("ensemble", fmt.Sprintf("n=%d p=%g runs=%d", g.n, g.p, runs))
}

var bloomLowGrid = []bloomPoint{{300, 1e-4}, {500, 1e-4}, {1000, 1e-4}, {3000, 1e-4}, {300, 1e-5}, {500, 1e-5}, {1000, 1e-5}, {2000, 1e-5}, {500, 1e-6}, {1000, 1e-6}, {800, 1e-7}, {2000, 1e-8}}

// bloomLowMean counts the false positives of many filters for a low rate.
func bloomLowMean(c *core.Case, i int) {
	rng := c.Rng
	g := bloomLowGrid[i]
	runs, tests := 20, c.N(200000, 2000000)
	fp := 0
	for t := 0; t < runs; t++ {
		pop := makePopulation(rng, t)
		b := bloom.New(g.n, g.p)
		for j := 0; j < g.n; j++ {
			b.Add(pop.item(j))
		}
		for j := 0; j < tests; j++ {
			if b.Has(pop.item(g.n + j)) {
				fp++
			}
		}
		c.Tick()
	}
	want := g.p * float64(tests*runs)
	c.Check(float64(fp) <= 1.3*want+6*math.Sqrt(1.3*want)+3, "n=%d p=%g: %d of %d absent items are reported present by %d filters at capacity", g.n, g.p, fp, tests*runs, runs)
	c.Check(float64(fp) >= 0.75*want-6*math.Sqrt(want), "n=%d p=%g: only %d of %d absent items are reported present by %d filters at capacity", g.n, g.p, fp, tests*runs, runs)
	c.Count("absent items tested", tests*runs)
	c.Count("false positives seen", fp)
	c.Max("false positive rate over p at low rates (where 30 are expected)", map[bool]float64{true: float64(fp) / want, false: 0}[want > 30])
	c.Eval(core.Mix(uint64(i), uint64(fp), 11))
	c.Sample("lowmean", fmt.Sprintf("n=%d p=%g: %d of %d", g.n, g.p, fp, tests*runs))
}

// bloomLarge fills a large filter.
func bloomLarge(c *core.Case, i int) {
	rng := c.Rng
	n, p := 1<<22+rng.Intn(1000000), []float64{0.001, 0.02, 0.1}[i%3]
	if i >= 3 {
		n, p = []int{40000000, 320000000}[i-3], 0.001
	}
	key := rng.Uint64()
	var buf [8]byte
	item := func(j int) []byte {
		binary.LittleEndian.PutUint64(buf[:], key+uint64(j))
		return buf[:]
	}
	b := bloom.New(n, p)
	for j := 0; j < n; j++ {
		b.Add(item(j))
		if j&(1<<20-1) == 0 {
			c.Tick()
		}
	}
	for j := 0; j < 200000; j++ {
		x := rng.Intn(n)
		c.Check(b.Has(item(x)), "n=%d p=%g: item %d was added and is reported absent", n, p, x)
	}
	tests := int(20000 / p)
	if tests > 4000000 {
		tests = 4000000
	}
	fp := 0
	for j := 0; j < tests; j++ {
		if b.Has(item(n + j)) {
			fp++
		}
	}
	actual := float64(fp) / float64(tests)
	noise := 6 * math.Sqrt(p/float64(tests))
	c.Check(actual <= 1.12*p+noise && actual >= 0.88*p-noise, "n=%d p=%g: the false positive rate at capacity is %v", n, p, actual)
	e, k := b.ErrorRate(), float64(b.Count())
	c.Check(e <= 1.1*actual+noise && e >= 0.9*actual-noise, "n=%d p=%g: error rate estimate %v, actual %v", n, p, e, actual)
	c.Check(math.Abs(k-float64(n)) <= 0.003*float64(n), "n=%d p=%g: %d items estimated as %v", n, p, n, k)
	c.Count("absent items tested", tests)
	c.Count("false positives seen", fp)
	c.Max("items in the largest filter", float64(n))
	c.Eval(core.Mix(uint64(n), uint64(fp)))
	c.Sample("large", fmt.Sprintf("n=%d p=%g: rate %v, estimate %v, count %v", n, p, actual, e, k))
}

// bloomEdge checks that estimates are always sane.
func bloomEdge(c *core.Case, i int) {
	rng := c.Rng
	m := rng.Range(1, 40)
	if rng.P(0.3) {
		m = rng.Range(1, 3000)
	}
	k := rng.Range(1, 10)
	if rng.P(0.2) {
		k = rng.PickInt(1, 50, 255)
	}
	b := bloom.NewBits(m, uint8(k))
	for round := 0; round < 2; round++ {
		c.Check(b.Count() == 0 && b.ErrorRate() == 0, "m=%d k=%d: empty filter reports %d items, error rate %v", m, k, b.Count(), b.ErrorRate())
		n := rng.Range(1, 3*m/k+10)
		prev, prevE := int64(0), 0.0
		for j := 0; j < n; j++ {
			b.Add(rng.Bytes(rng.Range(0, 12)))
			cnt, e := b.Count(), b.ErrorRate()
			c.Check(cnt >= 0 && float64(cnt) <= float64(m)*(math.Log(float64(m)+1)+1)+1, "m=%d k=%d: item count estimate is %d", m, k, cnt)
			c.Check(cnt >= 1 || m == 1, "m=%d k=%d: filter with an item reports %d items", m, k, cnt)
			c.Check(e >= 0 && e <= 1, "m=%d k=%d: error rate estimate is %v", m, k, e)
			c.Check(cnt >= prev && e >= prevE, "m=%d k=%d: estimates fell from %d, %v to %d, %v when an item was added", m, k, prev, prevE, cnt, e)
			prev, prevE = cnt, e
			c.Eval(core.Mix(uint64(m), uint64(k), uint64(cnt), math.Float64bits(e)))
		}
		b.Reset()
	}
}

// bloomLow checks filters for rates that are too small to measure.
func bloomLow(c *core.Case, i int) {
	rng := c.Rng
	lg := 3 + 27*rng.Float64()
	if rng.Bool() {
		lg = 3 + 9*rng.Float64()
	}
	p := math.Pow(10, -lg)
	n := rng.Range(500, 3000)
	if rng.P(0.1) {
		n = rng.Range(3000, 30000)
	}
	pop := makePopulation(rng, i)
	b := bloom.New(n, p)
	for j := 0; j < n; j++ {
		b.Add(pop.item(j))
	}
	// the share of set bits is one half, give or take; the estimate is its k-th power
	k := math.Ceil(lg * math.Ln10 / math.Ln2)
	m := float64(n) * k / math.Ln2
	spread := k * 0.8 / math.Sqrt(m) // relative, one standard deviation
	r := b.ErrorRate() / p
	c.Check(r <= 1.4*math.Exp(6*spread+0.0004*k), "n=%d p=%.3g: error rate estimate at capacity is %.3g (%s)", n, p, b.ErrorRate(), pop.name)
	c.Check(r >= 0.4*math.Exp(-6*spread-0.0004*k), "n=%d p=%.3g: error rate estimate at capacity is only %.3g (%s)", n, p, b.ErrorRate(), pop.name)
	cnt := float64(b.Count())
	c.Check(math.Abs(cnt-float64(n)) <= 0.01*float64(n)+5*math.Sqrt(float64(n))+2, "n=%d p=%.3g: %d distinct items (%s) estimated as %v", n, p, n, pop.name, cnt)
	tests, fp := 3000, 0
	for j := 0; j < tests; j++ {
		if b.Has(pop.item(n + j)) {
			fp++
		}
	}
	c.Check(float64(fp) <= 1.8*p*float64(tests)+6*math.Sqrt(1.8*p*float64(tests))+1, "n=%d p=%.3g: %d of %d absent items are reported present (%s)", n, p, fp, tests, pop.name)
	c.Count("absent items tested", tests)
	c.Max("error rate estimate over p at capacity (low rates)", r)
	c.Max("p over error rate estimate at capacity (low rates)", 1/r)
	c.Eval(core.Mix(uint64(n), math.Float64bits(p), math.Float64bits(r)))
	if i < 2 {
		c.Sample("low", fmt.Sprintf("n=%d p=%.3g %s: estimate %.3g", n, p, pop.name, b.ErrorRate()))
	}
}
