package main

import (
	"bytes"
	"fmt"

	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkMeasures(r *core.Run) {
	r.Rule = "alone/*: the same observations go to a collation with random measures (several per field, fields listed more than once, fields that are also keys, in any order) and to collations with one measure each; the values reported must be the same. " +
		"memory/*: a collator updates a record that lies between canary bytes in memory full of garbage and in zeroed memory; the canaries must stay, both records must read the same, reading must change nothing. large/*: the same with records of up to some hundred kilobytes (unique counts of high precision between other measures, up to 300 fields). precision/*: all schemas with an invalid unique count precision are refused. " +
		"Non-trivial if a field with several measures, or at least two fields, received two values. Digest: schema and observations."
	r.Each(r.N(5000, 50000), "alone", measAlone)
	r.Each(r.N(6000, 80000), "memory", measMemory)
	r.Each(r.N(150, 3000), "large", measLarge)
	r.Each(r.N(600, 4000), "precision", measPrecision)
}

// denseSchema has many measures, perhaps of the same field in several entries.
func denseSchema(rng *core.Rand) *schema {
	s := &schema{name: "c"}
	names := pickNames(rng, 6)
	nk := rng.Range(0, 2)
	s.keys = append(s.keys, names[:nk]...)
	s.rec = rng.PickInt(0, 1, 1, 1, 2, 3)
	prec := map[string]string{}
	n := rng.Range(1, 6)
	for i := 0; i < n; i++ {
		f := fieldSpec{name: names[rng.Intn(len(names))]}
		if len(s.fields) > 0 && rng.P(0.3) {
			f.name = s.fields[rng.Intn(len(s.fields))].name
		}
		f.ms = randomMeasures(rng)
		if rng.P(0.2) {
			f.ms = append(f.ms, f.ms[rng.Intn(len(f.ms))])
		}
		if rng.P(0.5) {
			// one precision per field
			if prec[f.name] == "" {
				prec[f.name] = unique(rng)
			}
			at := rng.Range(0, len(f.ms))
			f.ms = append(f.ms[:at:at], append([]string{prec[f.name]}, f.ms[at:]...)...)
			if rng.P(0.2) {
				f.ms = []string{prec[f.name]}
			}
		}
		s.fields = append(s.fields, f)
	}
	return s
}

func nontrivialMeasures(m *model) bool {
	fields, multi := 0, false
	for _, in := range m.insts {
		fields = 0
		for _, f := range m.s.fields {
			if len(in.vals[f.name]) >= 2 || len(in.items[f.name]) >= 2 {
				fields++
				multi = multi || len(f.ms) > 1
			}
		}
	}
	return fields > 1 || multi
}

// feedAll makes observations whose values are numbers wherever another schema may need it.
func measFeed(rng *core.Rand, m *model, n int) []obs {
	f := newFeed(rng, m, rng.Range(1, 3), n)
	var os []obs
	for j := 0; j < n; j++ {
		o := f.next()
		os = append(os, o)
	}
	return os
}

func measAlone(c *core.Case, i int) {
	rng := c.Rng
	s := denseSchema(rng)
	m := newModel(s)
	n := rng.Range(1, 40)
	os := measFeed(rng, m, n)
	t := &direct{s.store(c, 64)}
	for _, o := range os {
		c.Check(t.write(c, o), "%v: observation %q is rejected", s, o)
		m.add(o)
	}
	v := m.verifyAll(c, t, "combined")
	compared := 0
	compare := func(t2 *direct, s2 *schema, mfs []string) {
		for _, k := range m.order {
			crit := m.insts[k].crit
			a, b := t.read(c, "c", mfs, crit), t2.read(c, "c", mfs, crit)
			c.Check(fmt.Sprint(a) == fmt.Sprint(b), "%v reports %v and %v reports %v for the same observations of %q", s, a, s2, b, crit)
			c.Check(len(a) > 0, "%v reports nothing for %q", s, mfs)
			compared += len(a)
		}
	}
	for _, f := range s.fields {
		for _, ms := range f.ms {
			// a collation of a single measure; a unique count alone takes any text
			s2 := &schema{name: "c", keys: s.keys, fields: []fieldSpec{{f.name, []string{ms}}}}
			t2 := &direct{s2.store(c, 64)}
			for _, o := range os {
				c.Check(t2.write(c, o), "%v: observation %q is rejected", s2, o)
			}
			compare(t2, s2, s2.measures())
		}
	}
	if s.rec > 0 {
		s2 := &schema{name: "c", keys: s.keys, rec: 1}
		t2 := &direct{s2.store(c, 64)}
		for _, o := range os {
			c.Check(t2.write(c, o), "%v: observation %q is rejected", s2, o)
		}
		compare(t2, s2, s2.measures())
	}
	// the same schema in another order
	s3 := &schema{name: "c", keys: append([]string(nil), s.keys...), rec: s.rec}
	for _, x := range rng.Perm(len(s.fields)) {
		f := fieldSpec{name: s.fields[x].name}
		for _, y := range rng.Perm(len(s.fields[x].ms)) {
			f.ms = append(f.ms, s.fields[x].ms[y])
		}
		s3.fields = append(s3.fields, f)
	}
	t3 := &direct{s3.store(c, 64)}
	for _, o := range os {
		c.Check(t3.write(c, o), "%v: observation %q is rejected", s3, o)
	}
	if len(s.measures()) > 0 {
		compare(t3, s3, s.measures())
	}
	c.Count("values compared with another collation", compared)
	c.Count("values compared with the model", v)
	if nontrivialMeasures(m) {
		c.Eval(m.digest())
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("alone", s.String())
	}
}

func measMemory(c *core.Case, i int) {
	measRecord(c, i, denseSchema(c.Rng))
}

func measLarge(c *core.Case, i int) {
	measRecord(c, i, largeSchema(c.Rng, "c", 0))
}

func measRecord(c *core.Case, i int, s *schema) {
	rng := c.Rng
	s.keys = nil
	m := newModel(s)
	coll := s.compile(c)
	src := s.source()
	again, err := src.Compile()
	c.Check(err == nil && again.Size() == coll.Size(), "%v: compiled twice the sizes are %d and %d (%v)", s, coll.Size(), again.Size(), err)
	size := coll.Size()
	const margin = 64
	garbage := func() ([]byte, []byte) {
		mem := make([]byte, margin+size+margin)
		fill := byte(rng.Intn(256))
		random := rng.Bool()
		for j := range mem {
			mem[j] = fill
			if random {
				mem[j] = byte(rng.Uint64())
			}
		}
		return mem, append([]byte(nil), mem...)
	}
	mem1, orig1 := garbage()
	mem2, orig2 := make([]byte, margin+size+margin), make([]byte, margin+size+margin)
	rec1, rec2 := mem1[margin:margin+size], mem2[margin:margin+size]
	if rng.Bool() {
		rec1 = mem1[margin : margin+size : margin+size]
	}
	intact := func(mem, orig []byte, what string) {
		c.Check(bytes.Equal(mem[:margin], orig[:margin]), "%v: %s changes the memory before the record", s, what)
		c.Check(bytes.Equal(mem[margin+size:], orig[margin+size:]), "%v: %s changes the memory after the record (size %d)", s, what, size)
	}
	q := buildQuery(s.measures(), nil)
	read := func(cl collation.Collator, rec []byte) string {
		before := append([]byte(nil), rec...)
		res, err := cl.Read(q.FieldMeasures, rec)
		c.Check(err == nil, "%v: Read: %v", s, err)
		c.Check(bytes.Equal(before, rec), "%v: reading changes the record", s)
		out := ""
		for _, v := range res.FieldMeasureValues {
			out += v.String() + "\n"
		}
		return out
	}
	n := rng.Range(1, 12)
	os := measFeed(rng, m, n)
	for j, o := range os {
		row := o.row()
		var copies []string
		for _, fv := range row.Data {
			copies = append(copies, string(fv.F)+"="+string(fv.V))
		}
		err := coll.Update(row, rec1, j == 0)
		c.Check(err == nil, "%v: observation %q: %v", s, o, err)
		intact(mem1, orig1, "an observation")
		err = again.Update(o.row(), rec2, j == 0)
		c.Check(err == nil, "%v: observation %q: %v", s, o, err)
		intact(mem2, orig2, "an observation")
		for x, fv := range row.Data {
			c.Check(string(fv.F)+"="+string(fv.V) == copies[x], "%v: collating changes the observation %q", s, copies[x])
		}
		// nothing of the observation may be kept
		for _, fv := range row.Data {
			for x := range fv.F {
				fv.F[x] = '#'
			}
			for x := range fv.V {
				fv.V[x] = '#'
			}
		}
		m.add(o)
		r1, r2 := read(coll, rec1), read(again, rec2)
		c.Check(r1 == r2, "%v: after %d observations the record in garbage reads\n%s and the one in zeroed memory\n%s", s, j+1, r1, r2)
		intact(mem1, orig1, "a query")
	}
	t := collTarget{coll, rec1}
	v := m.verifyAll(c, t, "record in garbage")
	// another record of the same collator does not disturb it
	before := read(coll, rec1)
	mem3, _ := garbage()
	c.Check(coll.Update(os[0].row(), mem3[margin:margin+size], true) == nil, "%v: observation %q is rejected", s, os[0])
	c.Check(before == read(coll, rec1), "%v: a new record changes the values of another one", s)
	// a copy of a record continues like the record
	c.Count("values compared with the model", v)
	c.Count("updates between canaries", 2*n)
	if nontrivialMeasures(m) {
		c.Eval(m.digest())
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("memory", fmt.Sprintf("%v record of %d bytes", s, size))
	}
}

type collTarget struct {
	coll collation.Collator
	rec  []byte
}

func (t collTarget) write(c *core.Case, o obs) bool {
	return t.coll.Update(o.row(), t.rec, false) == nil
}

func (t collTarget) read(c *core.Case, name string, ms []string, crit []kv) answer {
	res, err := t.coll.Read(buildQuery(ms, nil).FieldMeasures, t.rec)
	c.Check(err == nil, "Read: %v", err)
	var a answer
	for _, v := range res.FieldMeasureValues {
		l := v.String()
		j := len(l) - 1
		for l[j] != '=' {
			j--
		}
		a = append(a, kv{l[:j], l[j+1:]})
	}
	return a
}

func measPrecision(c *core.Case, i int) {
	rng := c.Rng
	var p int
	switch {
	case i < 300:
		p = i - 20
	case i < 330:
		p = 4 + 256*(i-315)
	default:
		p = int(int32(rng.Uint64()))
		if rng.Bool() {
			p = 256*rng.Range(-300, 300) + rng.Range(0, 30)
		}
	}
	s := denseSchema(rng)
	for x := range s.fields {
		// no other unique counts
		var ms []string
		for _, m := range s.fields[x].ms {
			if !isUnique(m) {
				ms = append(ms, m)
			}
		}
		s.fields[x].ms = ms
	}
	x := rng.Intn(len(s.fields))
	at := rng.Range(0, len(s.fields[x].ms))
	um := fmt.Sprintf("uniquecount:%d", p)
	s.fields[x].ms = append(s.fields[x].ms[:at:at], append([]string{um}, s.fields[x].ms[at:]...)...)
	if rng.P(0.3) {
		s.fields[x].ms = []string{um}
	}
	src := s.source()
	coll, err := src.Compile()
	if p >= 4 && p <= 18 {
		c.Check(err == nil, "%v is refused: %v", s, err)
		c.Check(coll.Size() > 0, "%v has size %d", s, coll.Size())
	} else {
		c.Check(err != nil, "%v is accepted", s)
	}
	c.Count("schemas with a given precision", 1)
	c.Eval(core.Mix(uint64(p), core.HashBytes([]byte(s.String()))))
}
