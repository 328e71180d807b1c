package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/stats"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/perturb"
)

func checkIndependence(r *core.Run) {
	r.Rule = "several machines, each of which works on objects of its own (hashes, buckets, filters, counters, summaries, maps, locks, parsed queries, stores, servers) and reports what it sees, run one after another, then, on new objects, with their steps interleaved at random, again side by side in goroutines, and again with one stopped before some statement of its code while another makes steps (steer/*): each must see the same every time. " +
		"All memory handed over in a call (items, rows, queries, buffers, data to read) is compared with a copy after the call and then overwritten, and so are results once they were looked at. Non-trivial if each machine has made ten steps. Digest: what the machines saw."
	for _, m := range machines {
		r.Each(r.N(m.quick, 15*m.quick), "same/"+m.name, func(kind machineKind) func(c *core.Case, i int) {
			return func(c *core.Case, i int) {
				independent(c, i, func(int) machineKind { return kind })
			}
		}(m))
	}
	for _, m := range machines {
		r.Seq(r.N(m.quick, 10*m.quick), "steer/"+m.name, func(kind machineKind) func(c *core.Case, i int) {
			return func(c *core.Case, i int) {
				meddled(c, i, func(k int) machineKind {
					if k > 0 && i%4 == 3 && kind.name != "servers" {
						return machines[c.Rng.Intn(len(machines)-1)]
					}
					return kind
				})
			}
		}(m))
	}
	r.Each(r.N(300, 4000), "mixed", func(c *core.Case, i int) {
		independent(c, i, func(int) machineKind { return machines[c.Rng.Intn(len(machines)-1)] }) // no servers
	})
}

// A machine makes steps and tells what it sees.
type machine struct {
	step func() string
	end  func()
}

type machineKind struct {
	name  string
	quick int // cases
	steps int
	make  func(c *core.Case, rng *core.Rand) machine
}

var machines = []machineKind{
	{"hashes", 300, 60, hashMachine},
	{"bit buckets", 300, 80, bitsMachine},
	{"bloom filters", 300, 80, bloomMachine},
	{"unique counters", 200, 60, hllMachine},
	{"summaries", 300, 80, statMachine},
	{"buffer maps", 300, 100, bufmapMachine},
	{"counter maps", 300, 100, incmapMachine},
	{"sequence locks", 200, 40, seqlockMachine},
	{"queries", 300, 40, queryMachine},
	{"stores", 300, 60, storeMachine},
	{"servers", 60, 40, serverMachine},
}

func independent(c *core.Case, i int, kind func(int) machineKind) {
	rng := c.Rng
	n := rng.PickInt(2, 2, 3, 5)
	seed := rng.Uint64()
	kinds := make([]machineKind, n)
	seeds := make([]uint64, n)
	for k := range kinds {
		kinds[k] = kind(k)
		seeds[k] = seed + uint64(k)
		if k > 0 && rng.P(0.2) {
			// the same work on different objects
			kinds[k], seeds[k] = kinds[k-1], seeds[k-1]
		}
	}
	build := func(k int) machine {
		return kinds[k].make(c, core.NewRand(seeds[k], kinds[k].name))
	}
	alone := make([][]string, n)
	digest := uint64(0)
	for k := range kinds {
		m := build(k)
		for s := 0; s < kinds[k].steps; s++ {
			saw := m.step()
			alone[k] = append(alone[k], saw)
			digest = core.Mix(digest, core.HashBytes([]byte(saw)))
		}
		m.end()
		c.Count("steps of "+kinds[k].name, kinds[k].steps)
	}
	compare := func(k, s int, saw, how string) {
		c.Check(saw == alone[k][s], "step %d of machine %d (%s) %s of %d others sees\n%s\nand alone it sees\n%s", s, k, kinds[k].name, how, n-1, clipText(saw), clipText(alone[k][s]))
	}
	// interleaved
	ms := make([]machine, n)
	at := make([]int, n)
	for k := range ms {
		ms[k] = build(k)
	}
	for left := n; left > 0; {
		k := rng.Intn(n)
		for burst := rng.PickInt(1, 1, 1, 3, 10); burst > 0 && at[k] < kinds[k].steps; burst-- {
			compare(k, at[k], ms[k].step(), "between steps")
			at[k]++
			if at[k] == kinds[k].steps {
				left--
				ms[k].end()
			}
		}
	}
	// side by side
	if i%2 == 0 {
		for k := range ms {
			ms[k] = build(k)
		}
		for k := range ms {
			k := k
			c.Go(func() {
				for s := 0; s < kinds[k].steps && !c.Stop(); s++ {
					compare(k, s, ms[k].step(), "beside")
				}
				ms[k].end()
			})
		}
		c.Wait()
	}
	c.Eval(digest)
	if i < 1 {
		c.Sample(kinds[0].name, clipText(strings.Join(alone[0][len(alone[0])-3:], "; ")))
	}
}

// meddled stops the steps of a machine before some statement of the code while another
// machine makes some steps.
func meddled(c *core.Case, i int, kind func(int) machineKind) {
	rng := c.Rng
	perturb.Off()
	seed := rng.Uint64()
	kinds := []machineKind{kind(0), kind(1)}
	same := rng.P(0.2)
	build := func(k int) machine {
		if same && kinds[0].name == kinds[1].name {
			return kinds[k].make(c, core.NewRand(seed, kinds[k].name))
		}
		return kinds[k].make(c, core.NewRand(seed+uint64(k), kinds[k].name))
	}
	steps := 30
	alone := make([][]string, 2)
	digest := uint64(0)
	for k := range kinds {
		m := build(k)
		for s := 0; s < steps; s++ {
			saw := m.step()
			alone[k] = append(alone[k], saw)
			digest = core.Mix(digest, core.HashBytes([]byte(saw)))
		}
		m.end()
	}
	ms := []machine{build(0), build(1)}
	at := []int{0, 0}
	run := func(k, n int, how string) {
		for ; n > 0 && at[k] < steps; n-- {
			saw := ms[k].step()
			c.Check(saw == alone[k][at[k]], "step %d of machine %d (%s), %s, sees\n%s\nand alone it sees\n%s", at[k], k, kinds[k].name, how, clipText(saw), clipText(alone[k][at[k]]))
			at[k]++
		}
	}
	for a := 0; at[0] < steps && at[1] < steps; a = rng.Intn(2) {
		b, n := 1-a, rng.PickInt(1, 1, 2)
		perturb.Steered(c, []int{1 + rng.Intn(rng.PickInt(3, 10, 40, 200, 1000))}, 5*time.Millisecond, []func(){
			func() { run(a, 1, "stopped somewhere while a step of machine "+kinds[b].name+" was made") },
			func() { run(b, n, "made while a step of machine "+kinds[a].name+" was stopped somewhere") },
		})
	}
	for k := range ms {
		run(k, steps, "at the end")
		ms[k].end()
	}
	c.Eval(digest)
}

func clipText(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// lend gives a call memory that is surrounded by guards, checks that the call has not
// changed it, and overwrites it afterwards.
func lend(c *core.Case, what string, b []byte, call func(b []byte)) {
	const guard = 9
	buf := make([]byte, guard+len(b)+guard)
	for i := range buf {
		buf[i] = 0xa7
	}
	copy(buf[guard:], b)
	arg := buf[guard : guard+len(b)] // with room behind it, which is not the callee's
	call(arg)
	c.Check(bytes.Equal(arg, b), "%s has changed %q, which it was given, to %q", what, clipText(string(b)), clipText(string(arg)))
	for i := 0; i < guard; i++ {
		c.Check(buf[i] == 0xa7 && buf[guard+len(b)+i] == 0xa7, "%s has written next to the %d bytes it was given", what, len(b))
	}
	for i := range buf {
		buf[i] = ^buf[i]
	}
}

func someItem(rng *core.Rand) []byte {
	switch rng.Intn(4) {
	case 0:
		return []byte(fmt.Sprint(rng.Intn(30)))
	case 1:
		return rng.Bytes(rng.Intn(40))
	case 2:
		return []byte(textValue(rng))
	}
	return []byte(rng.Text(rng.Intn(12), "ab"))
}

func hashMachine(c *core.Case, rng *core.Rand) machine {
	h, ha := fnv.New64(), fnv.New64a()
	return machine{func() string {
		v := someItem(rng)
		switch rng.Intn(6) {
		case 0:
			lend(c, "Write", v, func(b []byte) { h.Write(b) })
			lend(c, "Write", v, func(b []byte) { ha.Write(b) })
		case 1:
			h.WriteString(string(v))
			ha.WriteString(string(v))
		case 2:
			h.WriteUint64(uint64(len(v)))
			ha.WriteUint64(uint64(len(v)))
		case 3:
			var s, sa uint64
			lend(c, "Sum64", v, func(b []byte) { s = fnv.Sum64(b) })
			lend(c, "Sum64a", v, func(b []byte) { sa = fnv.Sum64a(b) })
			return fmt.Sprint(s, sa, fnv.String64(string(v)), fnv.String64a(string(v)))
		case 4:
			if rng.P(0.2) {
				h.Reset()
				ha.Reset()
			}
		case 5:
			out := h.Sum(nil)
			outa := ha.Sum(v)
			s := fmt.Sprintf("%x %x", out, outa)
			for i := range out {
				out[i] = 0
			}
			for i := range outa {
				outa[i] = 0
			}
			return s
		}
		return fmt.Sprint(h.Sum64(), ha.Sum64())
	}, func() {}}
}

func bitsMachine(c *core.Case, rng *core.Rand) machine {
	n, w := rng.Range(1, 60), rng.Range(1, 8)
	b := bitbucket.New(n, uint8(w))
	return machine{func() string {
		switch rng.Intn(7) {
		case 0, 1:
			b.Set(rng.Intn(n), byte(rng.Uint64()))
		case 2, 3:
			b.IncN(rng.Intn(n), byte(rng.Uint64()))
		case 4:
			if rng.P(0.1) {
				b.Reset()
			}
			return fmt.Sprint(b.CountN(byte(rng.Intn(4))), b.Max(), b.Len())
		default:
			var out bytes.Buffer
			b.WriteTo(&out)
			saw := fmt.Sprintf("%x", out.Bytes())
			restore(c, rng, out.Bytes(), func(buf []byte) (err error) { b, err = bitbucket.WithBytes(buf); return },
				func(buf []byte) (err error) { _, err = b.ReadFrom(bytes.NewReader(buf)); return })
			return saw
		}
		return fmt.Sprint(b.Get(rng.Intn(n)))
	}, func() {}}
}

// restore restores an object from its stored form, or not.
func restore(c *core.Case, rng *core.Rand, stored []byte, adopt, read func([]byte) error) {
	switch rng.Intn(4) {
	case 0:
		c.Check(adopt(append([]byte(nil), stored...)) == nil, "a stored form is not adopted")
	case 1:
		lend(c, "ReadFrom", stored, func(b []byte) {
			c.Check(read(b) == nil, "a stored form is not read")
		})
	case 2:
		// what was written is the caller's
		for i := range stored {
			stored[i] = 0x55
		}
	}
}

func bloomMachine(c *core.Case, rng *core.Rand) machine {
	var b bloom.Bloom
	if rng.Bool() {
		b = bloom.New(rng.Range(1, 100), 0.01+0.3*rng.Float64())
	} else {
		b = bloom.NewBits(rng.Range(1, 600), uint8(rng.Range(1, 12)))
	}
	return machine{func() string {
		switch rng.Intn(8) {
		case 0, 1, 2:
			lend(c, "Add", someItem(rng), func(v []byte) { b.Add(v) })
		case 3:
			var out bytes.Buffer
			b.WriteTo(&out)
			saw := fmt.Sprintf("%x", out.Bytes())
			restore(c, rng, out.Bytes(), func(buf []byte) (err error) { b, err = bloom.WithBytes(buf); return },
				func(buf []byte) (err error) { _, err = b.ReadFrom(bytes.NewReader(buf)); return })
			return saw
		case 4:
			if rng.P(0.1) {
				b.Reset()
			}
			return fmt.Sprint(b.Count(), b.ErrorRate(), b.Len())
		}
		has := false
		lend(c, "Has", someItem(rng), func(v []byte) { has = b.Has(v) })
		return fmt.Sprint(has)
	}, func() {}}
}

func hllMachine(c *core.Case, rng *core.Rand) machine {
	p := rng.Range(4, 10)
	h := hll.New(uint8(p))
	return machine{func() string {
		switch rng.Intn(6) {
		case 0, 1, 2:
			for k := rng.PickInt(1, 1, 5, 30, 200); k > 0; k-- {
				lend(c, "Add", someItem(rng), func(v []byte) { h.Add(v) })
			}
		case 3:
			var out bytes.Buffer
			h.WriteTo(&out)
			saw := fmt.Sprintf("%x", out.Bytes())
			restore(c, rng, out.Bytes(), func(buf []byte) (err error) { h, err = hll.WithBytes(buf); return },
				func(buf []byte) (err error) { _, err = h.ReadFrom(bytes.NewReader(buf)); return })
			return saw
		case 4:
			if rng.P(0.1) {
				h.Reset()
			}
		}
		return fmt.Sprint(h.Count())
	}, func() {}}
}

func statMachine(c *core.Case, rng *core.Rand) machine {
	s := stat64.New()
	if rng.Bool() {
		buf := make([]byte, stat64.Len())
		stat64.Reset(buf)
		s = stat64.WithBytes(buf)
	}
	var all []float64
	same := func(what string, vs, was []float64) {
		for i := range vs {
			c.Check(vs[i] == was[i], "%s has changed value %d of those it was given from %v to %v", what, i, was[i], vs[i])
			vs[i] = -1e300
		}
	}
	return machine{func() string {
		switch rng.Intn(5) {
		case 0, 1:
			v := rng.Norm() * math.Exp(3*rng.Norm())
			s.Update(v)
			all = append(all, v)
		case 2:
			vs := make([]float64, rng.Intn(12))
			for i := range vs {
				vs[i] = rng.Norm()
			}
			was := append([]float64(nil), vs...)
			s.UpdateMulti(vs)
			same("UpdateMulti", vs, was)
			all = append(all, was...)
		case 3:
			vs := append([]float64(nil), all...)
			m, v := stats.Meanvar(vs)
			same("Meanvar", vs, all)
			vs = append([]float64(nil), all...)
			t := stats.Sum(vs)
			same("Sum", vs, all)
			return fmt.Sprint(m, v, t)
		case 4:
			if rng.P(0.1) {
				s.Reset()
			}
		}
		return fmt.Sprint(s.Count(), s.Mean(), s.Variance(), s.Sum())
	}, func() {}}
}

func bufmapMachine(c *core.Case, rng *core.Rand) machine {
	l, size := rng.PickInt(1, 2, 5, 20), rng.PickInt(0, 1, 7, 8, 16, 33)
	m := bufmap.New(l, size)
	return machine{func() string {
		k := uint64(rng.Intn(2*l + 3))
		if rng.P(0.1) {
			k += 1 << 40
		}
		if rng.P(0.6) {
			fail := rng.P(0.2)
			fill := byte(rng.Uint64())
			lastInit := false
			var last []byte
			err := m.Update(k, func(data []byte, init bool) error {
				lastInit = init
				last = append([]byte(nil), data...)
				if init {
					// what it holds is left open
					for i := range data {
						data[i] = 0
					}
					last = nil
				}
				if len(data) > 0 {
					data[0] += fill
					data[len(data)-1] ^= fill
				}
				if fail {
					return errRefused
				}
				return nil
			})
			return fmt.Sprintf("update %d: %v %v %x", k, err, lastInit, last)
		}
		buf := make([]byte, size+8)
		for i := range buf {
			buf[i] = 0xc3
		}
		ok := m.Get(k, buf[4:4+size])
		saw := fmt.Sprintf("get %d: %v", k, ok)
		if ok {
			saw += fmt.Sprintf(" %x", buf)
		}
		for i := range buf {
			buf[i] = 0x3c
		}
		return saw
	}, func() {}}
}

var errRefused = fmt.Errorf("refused")

func incmapMachine(c *core.Case, rng *core.Rand) machine {
	l := rng.PickInt(1, 2, 5, 20)
	m := incmap.New(l)
	return machine{func() string {
		k := uint64(rng.Intn(2*l + 3))
		if rng.Bool() {
			return fmt.Sprint("inc ", k, m.Inc(k, rng.Uint64()>>uint(rng.Intn(64))))
		}
		v, ok := m.Get(k)
		return fmt.Sprint("get ", k, v, ok)
	}, func() {}}
}

func seqlockMachine(c *core.Case, rng *core.Rand) machine {
	s := seqlock.New()
	return machine{func() string {
		switch rng.Intn(3) {
		case 0:
			var v [1024]byte
			copy(v[:], rng.Bytes(1024))
			s.Put(v)
		case 1:
			at, d := rng.Intn(1024), byte(rng.Uint64())
			fail := rng.P(0.2)
			err := s.Update(func(data []byte) error {
				data[at] += d
				if fail {
					return errRefused
				}
				return nil
			})
			if err != nil {
				return err.Error()
			}
		}
		v := s.Get()
		saw := fmt.Sprint(core.HashBytes(v[:]))
		v[0]++
		return saw
	}, func() {}}
}

func queryMachine(c *core.Case, rng *core.Rand) machine {
	names := []string{"a", "b", "x"}
	return machine{func() string {
		var ms []string
		for k := rng.Range(1, 4); k > 0; k-- {
			ms = append(ms, rng.Pick("sum", "count")+"("+rng.Pick(names...)+")")
		}
		crit := []kv{{rng.Pick(names...), fmt.Sprint(rng.Intn(3))}}
		if rng.Bool() {
			crit = append(crit, kv{"y", fmt.Sprint(rng.Intn(2))})
		}
		text := queryText(ms, crit)
		if rng.P(0.1) {
			text = text[:rng.Intn(len(text))]
		}
		q, err := query.RoughParse(text)
		saw := fmt.Sprintf("%s: %v %q %q", text, err != nil, q.FieldMeasures, q.Criteria)
		// the query is the caller's
		scribble := func(b []byte) {
			b = b[:cap(b)]
			for i := range b {
				b[i] = 'Z'
			}
		}
		for _, fm := range q.FieldMeasures {
			scribble(fm.F)
			for _, m := range fm.M {
				scribble(m)
			}
		}
		for _, cr := range q.Criteria {
			scribble(cr.F)
			scribble(cr.V)
		}
		if rng.Bool() {
			q.Reset()
		}
		return saw
	}, func() {}}
}

// stepData prepares what the machines for stores and servers do.
type stepData struct {
	c    *core.Case
	rng  *core.Rand
	m    *model
	feed *feed
}

func newStepData(c *core.Case, rng *core.Rand) *stepData {
	s := randomSchema(rng, "c", 2)
	for i := range s.fields {
		for k, m := range s.fields[i].ms {
			if isUnique(m) {
				s.fields[i].ms[k] = fmt.Sprint("uniquecount:", rng.Range(4, 8))
			}
		}
	}
	m := newModel(s)
	return &stepData{c, rng, m, newFeed(rng, m, 2, 40)}
}

func (d *stepData) query() ([]string, []kv) {
	rng := d.rng
	all := d.m.s.measures()
	rng.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
	all = append(all, "nosuch(x)")
	var crit []kv
	for _, k := range d.m.s.keys {
		crit = append(crit, kv{k, d.feed.keys[k][rng.Intn(len(d.feed.keys[k]))]})
	}
	if len(crit) == 0 {
		crit = append(crit, kv{"z", "1"})
	}
	return all[:rng.Range(1, len(all))], crit
}

func storeMachine(c *core.Case, rng *core.Rand) machine {
	d := newStepData(c, rng)
	src := d.m.s.source()
	coll, err := src.Compile()
	c.Check(err == nil, "Compile: %v", err)
	c.Check(reflect.DeepEqual(src, d.m.s.source()), "compiling %v has changed it to %v", d.m.s, src)
	if rng.Bool() {
		// compiling a schema leaves it as it was
		again, err := src.Compile()
		c.Check(err == nil && again.Size() == coll.Size() && again.Name() == coll.Name(), "compiling %v again gives %q, %d bytes, %v", d.m.s, again.Name(), again.Size(), err)
		if rng.Bool() {
			coll = again
		}
	}
	// the schema is the caller's
	for i := range src.Keys {
		src.Keys[i].Field.Pattern = "other"
	}
	for i := range src.Measures {
		src.Measures[i].Field.Pattern = "other"
		for k := range src.Measures[i].Measures {
			src.Measures[i].Measures[k] = collation.Sum{}
		}
	}
	src.Name, src.Keys, src.Measures, src.RecordMeasures = "other", nil, nil, nil
	st := storage.Store{Backend: bufmap.New(20, coll.Size()), Collator: coll}
	bg := context.Background()
	return machine{func() string {
		if rng.P(0.6) {
			o := d.feed.next()
			if rng.P(0.1) {
				for i := range o {
					if d.m.s.numeric(o[i].f) {
						o[i].v = "bad"
					}
				}
			}
			var err error
			lendRow(c, o, func(r collation.Row) { err = st.Write(bg, r) })
			return fmt.Sprintf("write %q: %v", o, err)
		}
		ms, crit := d.query()
		q := buildQuery(ms, crit)
		was := fmt.Sprintf("%q %q", q.FieldMeasures, q.Criteria)
		res, err := st.Read(bg, q)
		var saw []string
		for _, v := range res.FieldMeasureValues {
			saw = append(saw, v.String())
		}
		is := fmt.Sprintf("%q %q", q.FieldMeasures, q.Criteria)
		c.Check(is == was, "Read has changed the query %s to %s", was, is)
		for _, fm := range q.FieldMeasures {
			flip(fm.F)
			for _, m := range fm.M {
				flip(m)
			}
		}
		for _, cr := range q.Criteria {
			flip(cr.F)
			flip(cr.V)
		}
		return fmt.Sprintf("read %q %q: %v %q", ms, crit, err, saw)
	}, func() {}}
}

func flip(b []byte) {
	for i := range b {
		b[i] = ^b[i]
	}
}

// lendRow gives a call a row that lies in one buffer, as the server does.
func lendRow(c *core.Case, o obs, call func(r collation.Row)) {
	var buf []byte
	var at []int
	for _, p := range o {
		at = append(at, len(buf))
		buf = append(buf, p.f+"="+p.v+"\t"...)
	}
	was := append([]byte(nil), buf...)
	r := collation.Row{}
	for i, p := range o {
		f := buf[at[i] : at[i]+len(p.f)]
		r.Data = append(r.Data, collation.FV{F: f, V: buf[at[i]+len(p.f)+1 : at[i]+len(p.f)+1+len(p.v)]})
	}
	call(r)
	c.Check(bytes.Equal(buf, was), "Write has changed the observation %q to %q", was, buf)
	c.Check(len(r.Data) == len(o), "Write has changed the number of fields")
	for i, p := range o {
		c.Check(string(r.Data[i].F) == p.f && string(r.Data[i].V) == p.v, "Write has changed field %d from %q to %q=%q", i, p, r.Data[i].F, r.Data[i].V)
		r.Data[i] = collation.FV{}
	}
	flip(buf)
}

func serverMachine(c *core.Case, rng *core.Rand) machine {
	d := newStepData(c, rng)
	srv := serve(c, d.m.s.store(c, 30))
	return machine{func() string {
		if rng.P(0.6) {
			var lines []string
			for k := rng.Range(1, 4); k > 0; k-- {
				lines = append(lines, d.feed.next().line("1", '\x01'))
			}
			for _, l := range lines {
				if strings.ContainsAny(strings.Replace(l, "\x01", "", -1), "\n\r\x01") {
					return "not sent"
				}
			}
			rep := srv.post(c, strings.Join(lines, "\n"))
			return fmt.Sprintf("post %q: %d %q", lines, rep.code, rep.body)
		}
		ms, crit := d.query()
		q := queryText(ms, crit)
		if rng.P(0.1) {
			q = badQueries[rng.Intn(len(badQueries))]
		}
		rep := srv.query(c, rng.Pick("c", "c", "c", "d"), q, rng.Bool())
		var hs []string
		for h := range rep.hdr {
			hs = append(hs, h)
		}
		sort.Strings(hs)
		return fmt.Sprintf("query %q: %d %q %q", q, rep.code, rep.body, hs)
	}, func() { srv.close() }}
}
