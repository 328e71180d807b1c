package main

import (
	"context"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/exact"
)

func checkStatistics(r *core.Run) {
	r.Rule = "random schemas (0 to 2 keys, 0 to 4 measured fields with any measures) receive random observations with random subsets of the fields and values of 15 shapes (offsets, tiny, huge, mixed, negative, constant, extreme) in all spellings of numbers; " +
		"all measures of all instances are compared at random points with statistics computed exactly. direct/*: through storage.Store; http/*: through the server with random batches; large/*: the same with records of up to some hundred kilobytes; long/*: tens of thousands of values in one instance; many/*: up to 200000 observations, and once more than 2^24, of small integers, for which the results are known in closed form. " +
		"Non-trivial if an instance received at least two values of a field. Digest: schema and all values."
	r.Assum = []string{"sum, mean and variance are compared with tolerances derived from standard error bounds of the running algorithm; they are not compared if a value exceeds 1e150 in magnitude, since squares overflow"}
	// There are at most nine instances, so that none may be refused.
	r.Each(r.N(15000, 150000), "direct", statDirect)
	r.Each(r.N(300, 2500), "http", statHTTP)
	r.Each(r.N(150, 2000), "large", statLarge)
	r.Each(r.N(8, 60), "long", statLong)
	r.Each(r.N(9, 17), "many", statMany)
}

func evalModel(c *core.Case, m *model, values int) {
	for _, in := range m.insts {
		for _, v := range in.vals {
			if len(v) >= 2 {
				c.Eval(m.digest())
				c.Count("values compared with the model", values)
				return
			}
		}
	}
	c.Count("values compared with the model", values)
	c.Eval(0)
}

func statDirect(c *core.Case, i int) {
	statStore(c, i, randomSchema(c.Rng, "c", 2), c.Rng.Range(1, 60), c.Rng.Range(9, 600))
}

func statLarge(c *core.Case, i int) {
	statStore(c, i, largeSchema(c.Rng, "c", 2), c.Rng.Range(1, 30), c.Rng.Range(9, 20))
}

func statStore(c *core.Case, i int, s *schema, n, slots int) {
	rng := c.Rng
	m := newModel(s)
	f := newFeed(rng, m, rng.Range(1, 3), n)
	t := &direct{s.store(c, slots)}
	checked := 0
	for j := 0; j < n; j++ {
		o := f.next()
		c.Logf("write %q", o)
		c.Check(t.write(c, o), "%v: observation %q is rejected", s, o)
		m.add(o)
		if rng.P(0.08) {
			checked += m.verifyAll(c, t, fmt.Sprintf("after %d observations", j+1))
		}
	}
	checked += m.verifyAll(c, t, fmt.Sprintf("after %d observations", n))
	c.Count("observations", n)
	c.Count("instances", len(m.insts))
	evalModel(c, m, checked)
	if i < 3 {
		c.Sample("direct", fmt.Sprintf("%v: %d observations, %d instances", s, n, len(m.insts)))
	}
}

func statHTTP(c *core.Case, i int) {
	rng := c.Rng
	s := randomSchema(rng, rng.Pick("c", "country", "tz2", "x-y"), 2)
	m := newModel(s)
	n := rng.Range(1, 150)
	f := newFeed(rng, m, rng.Range(1, 3), n)
	sv := serve(c, s.store(c, rng.Range(9, 600)))
	defer sv.close()
	checked := 0
	for j := 0; j < n; {
		batch := rng.Range(1, 12)
		var os []obs
		for b := 0; b < batch && j < n; b++ {
			os = append(os, f.next())
			j++
		}
		d := delimFor(rng, os)
		var body strings.Builder
		for _, o := range os {
			body.WriteString(o.line(timestamp(rng), d) + "\n")
			m.add(o)
		}
		c.Logf("post %q", body.String())
		rp := sv.post(c, body.String())
		c.Check(ok2xx(rp.code), "%v: observations %q are rejected: %d %s", s, body.String(), rp.code, rp.body)
		if rng.P(0.15) {
			checked += m.verifyAll(c, sv, fmt.Sprintf("after %d observations", j))
		}
	}
	checked += m.verifyAll(c, sv, fmt.Sprintf("after %d observations", n))
	c.Count("observations", n)
	c.Count("instances", len(m.insts))
	evalModel(c, m, checked)
}

func statLong(c *core.Case, i int) {
	rng := c.Rng
	s := &schema{name: "c", rec: 1, fields: []fieldSpec{{"x", randomMeasures(rng)}, {"y", contMeasures}}}
	m := newModel(s)
	n := rng.Range(5000, 30000)
	_, xs := exact.Values(rng, n)
	_, ys := exact.Values(rng, n)
	t := &direct{s.store(c, 4)}
	for j := 0; j < n; j++ {
		o := obs{{"x", numText(rng, xs[j])}}
		if rng.P(0.9) {
			o = append(o, kv{"y", numText(rng, ys[j])})
		}
		c.Check(t.write(c, o), "%v: observation %q is rejected", s, o)
		m.add(o)
	}
	v := m.verifyAll(c, t, fmt.Sprintf("after %d observations", n))
	c.Count("observations", n)
	evalModel(c, m, v)
}

// statMany makes so many observations that a counter of 16 bits or of the precision of a float32 runs out.
// The values of x run through 0..k-1 again and again, y is given by every other observation.
func statMany(c *core.Case, i int) {
	rng := c.Rng
	s := &schema{name: "c", rec: 1, keys: []string{"key"}, fields: []fieldSpec{{"x", contMeasures}, {"y", contMeasures}, {"z", []string{"count"}}}}
	n := rng.Range(1<<16+1, 200000)
	if i == 0 {
		n = 1<<24 + 1 + rng.Intn(1000)
		s.fields = []fieldSpec{{"x", []string{"count", "mean"}}}
	}
	k := rng.Range(2, 50)
	var full, half []collation.Row
	for v := 0; v < k; v++ {
		o := obs{{"key", "a"}, {"x", fmt.Sprint(v)}, {"z", "7"}}
		half = append(half, o.row())
		full = append(full, append(o, kv{"y", fmt.Sprint(-v)}).row())
	}
	st := s.store(c, 4)
	ctx := context.Background()
	var cx, cy int
	var sx, sy, qx, qy float64
	maxy := 0
	for j := 0; j < n; j++ {
		v := j % k
		row := half[v]
		if j/k%2 == 0 {
			row = full[v]
			cy++
			sy += float64(-v)
			qy += float64(v * v)
			if v > maxy {
				maxy = v
			}
		}
		cx++
		sx += float64(v)
		qx += float64(v * v)
		if err := st.Write(ctx, row); err != nil {
			c.Failf("%v: observation %d of %d is rejected: %v", s, j+1, n, err)
		}
	}
	a := readStore(c, st, s.measures(), []kv{{"key", "a"}})
	near := func(mf string, want float64) {
		text, ok := a.get(mf)
		if i == 0 && !ok {
			return
		}
		got, err := strconv.ParseFloat(text, 64)
		c.Check(ok && err == nil && math.Abs(got-want) <= 1e-6*math.Max(1, math.Abs(want)),
			"%v after %d observations, x through 0..%d, y=-x in every other run: %s=%q, want %v", s, n, k-1, mf, text, want)
	}
	for _, mf := range []string{"count(*)", "count(x)", "count(y)", "count(z)"} {
		text, ok := a.get(mf)
		if i == 0 && !ok {
			continue
		}
		want := n
		if mf == "count(y)" {
			want = cy
		}
		got, err := strconv.ParseFloat(text, 64)
		c.Check(err == nil && got == float64(want), "%v after %d observations, y in %d of them: %s=%q", s, n, cy, mf, text)
	}
	near("sum(x)", sx)
	near("sum(y)", sy)
	near("mean(x)", sx/float64(cx))
	near("mean(y)", sy/float64(cy))
	near("max(x)", float64(k-1))
	near("max(y)", 0)
	near("min(x)", 0)
	near("min(y)", float64(-maxy))
	near("var(x)", (qx-sx*sx/float64(cx))/float64(cx-1))
	near("var(y)", (qy-sy*sy/float64(cy))/float64(cy-1))
	c.Count("observations", n)
	c.Eval(core.HashBytes([]byte(fmt.Sprint(n, k))))
}
