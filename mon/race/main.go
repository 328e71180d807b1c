// Command race runs concurrent workloads under the race detector. Any report of the
// detector is a violation; the supervisor in package core counts them.
//
// Nothing here may synchronise the goroutines of a workload with each other beyond what
// the code under test does, since that would hide races.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/incmap"
	"github.com/iand/starbow/internal/query"
	"github.com/iand/starbow/internal/seqlock"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/stats"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/verifmon/auto"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/craft"
	"github.com/iand/starbow/internal/yield"
)

func main() {
	core.Main(map[string]func(r *core.Run){"C05": checkRaces})
}

// disturb changes the speed of goroutines without synchronising them: the random
// numbers come from the runtime and nothing is shared.
func disturb(p yield.Point) {
	x := rand.Uint32()
	rare := p == yield.BufmapReadWord || p == yield.BufmapStoreWord || p == yield.SeqlockReadWord || p == yield.SeqlockStoreWord
	if rare && x&0x3ff != 0 || x&7 != 0 {
		return
	}
	switch (x >> 10) & 7 {
	case 0, 1, 2:
		runtime.Gosched()
	case 3:
		if p != yield.BufmapStored && p != yield.SeqlockStored {
			time.Sleep(time.Duration((x>>13)&15) * time.Microsecond)
		}
	default:
		for i := uint32(0); i < (x>>13)&255; i++ {
			spin(i)
		}
	}
}

//go:noinline
func spin(i uint32) uint32 { return i * 31 }

func checkRaces(r *core.Run) {
	r.Rule = "several goroutines, released together and synchronised by nothing but the code under test, run mixed operations on one shared bufmap.Map, incmap.Map, seqlock.Seqlock, storage.Store, Collator, or server, or each on their own hashes, filters, counters, summaries and collations with shared read-only input; the whole process is built with -race, and every report is a violation. " +
		"same/*: several clients send requests of one kind at a time, for each of some fifty kinds, accepted or refused. Random delays are injected at the yield points of the shared structures and, rarely, before any of their statements. An evaluation is one round of a workload; all are non-trivial, since all goroutines use the same object or package. Digest: parameters of the round."
	r.Assum = []string{"the race detector sees the accesses of the schedules that occur", "one store has one collator, as in the server"}
	yield.Fn = disturb
	auto.Fn = func() {
		if rand.Uint32()&0x7fff == 0 {
			runtime.Gosched()
		}
	}
	n := r.N(4, 40)
	r.Seq(150*n, "bufmap", raceBufmap)
	r.Seq(150*n, "incmap", raceIncmap)
	r.Seq(60*n, "seqlock", raceSeqlock)
	r.Seq(100*n, "store", raceStore)
	r.Seq(60*n, "independent", raceIndependent)
	r.Seq(40*n, "collator", raceCollator)
	r.Seq(40*n, "query", raceQuery)
	r.Seq(25*n, "server", raceServer)
	r.Seq(50*n, "same", raceSame)
}

// together runs fn in n goroutines that start at about the same time.
func together(c *core.Case, n int, fn func(g int, rng *core.Rand)) {
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		g, rng := g, c.Rng.Fork()
		c.Go(func() {
			<-start
			fn(g, rng)
		})
	}
	close(start)
	c.Wait()
}

var errFail = errors.New("update fails")

func raceBufmap(c *core.Case, i int) {
	rng := c.Rng
	l := rng.PickInt(1, 2, 3, 8, 16, 64)
	s := rng.PickInt(1, 7, 8, 9, 24, 64, 333)
	g := rng.Range(2, 8)
	keys := uint64(rng.Range(1, 14))
	stride := uint64(rng.PickInt(1, l))
	ops := rng.Range(10, 80)
	m := bufmap.New(l, s)
	together(c, g, func(_ int, rng *core.Rand) {
		own := make([]byte, s+3)
		for n := 0; n < ops; n++ {
			k := 1 + stride*(rng.Uint64()%keys)
			if rng.P(0.05) {
				k = 0
			}
			switch rng.Intn(6) {
			case 0, 1:
				buf := own[:rng.Range(0, len(own))]
				m.Get(k, buf)
				for j := range buf {
					buf[j]++ // the caller's own copy
				}
			case 2:
				m.Update(k, func(data []byte, init bool) error {
					data[0]++
					return errFail
				})
			case 3:
				func() {
					defer func() { recover() }()
					m.Update(k, func(data []byte, init bool) error {
						data[len(data)-1]++
						panic("update panics")
					})
				}()
			default:
				m.Update(k, func(data []byte, init bool) error {
					for j := range data {
						data[j] += byte(j)
					}
					return nil
				})
			}
		}
	})
	c.Count("buffer map operations", g*ops)
	c.Eval(core.Mix(1, uint64(l), uint64(s), uint64(g), keys, stride, uint64(ops), uint64(i)))
	if i == 0 {
		c.Sample("bufmap", fmt.Sprintf("%d goroutines, %d operations each, %d keys, %d slots of %d bytes", g, ops, keys, l, s))
	}
}

func raceIncmap(c *core.Case, i int) {
	rng := c.Rng
	l := rng.PickInt(1, 2, 3, 8, 16, 64)
	g := rng.Range(2, 8)
	keys := uint64(rng.Range(1, 14))
	stride := uint64(rng.PickInt(1, l))
	ops := rng.Range(10, 200)
	m := incmap.New(l)
	together(c, g, func(_ int, rng *core.Rand) {
		for n := 0; n < ops; n++ {
			k := stride * (rng.Uint64() % keys)
			if rng.Bool() {
				m.Get(k)
			} else {
				m.Inc(k, rng.Uint64()%5)
			}
		}
	})
	c.Count("counter map operations", g*ops)
	c.Eval(core.Mix(2, uint64(l), uint64(g), keys, stride, uint64(ops), uint64(i)))
}

func raceSeqlock(c *core.Case, i int) {
	rng := c.Rng
	g := rng.Range(2, 8)
	ops := rng.Range(10, 60)
	s := seqlock.New()
	together(c, g, func(_ int, rng *core.Rand) {
		for n := 0; n < ops; n++ {
			switch rng.Intn(5) {
			case 0, 1:
				v := s.Get()
				v[rng.Intn(len(v))]++
			case 2:
				var v [1024]byte
				v[rng.Intn(len(v))] = 1
				s.Put(v)
			case 3:
				s.Update(func(data []byte) error {
					data[rng.Intn(len(data))]++
					return errFail
				})
			default:
				s.Update(func(data []byte) error {
					data[rng.Intn(len(data))]++
					return nil
				})
			}
		}
	})
	c.Count("sequence lock operations", g*ops)
	c.Eval(core.Mix(3, uint64(g), uint64(ops), uint64(i)))
}

func spec(field string, ms ...collation.Measure) collation.MeasureSpec {
	return collation.MeasureSpec{Field: collation.FieldSpec{Pattern: field}, Measures: ms}
}

func schema(rng *core.Rand, name string, keys ...string) collation.Schema {
	s := collation.Schema{Name: name, RecordMeasures: []collation.RowMeasure{collation.Count{}}}
	for _, k := range keys {
		s.Keys = append(s.Keys, collation.KeySpec{Field: collation.FieldSpec{Pattern: k}})
	}
	s.Measures = append(s.Measures,
		spec("x", collation.Count{}, collation.Sum{}, collation.Mean{}, collation.Variance{}, collation.Max{}, collation.Min{}),
		spec("u", collation.Cardinality{Precision: rng.PickInt(4, 8, 10)}))
	return s
}

func store(c *core.Case, sch collation.Schema, slots int) storage.Store {
	coll, err := sch.Compile()
	c.Check(err == nil, "Compile: %v", err)
	return storage.Store{Backend: bufmap.New(slots, coll.Size()), Collator: coll}
}

func bs(s string) []byte { return []byte(s) }

func row(rng *core.Rand, keys int) collation.Row {
	r := collation.Row{ReceiveTime: time.Now(), DataTime: time.Unix(1480000000, 0)}
	r.Data = append(r.Data, collation.FV{F: bs("k"), V: bs(strconv.Itoa(rng.Intn(keys)))})
	x := strconv.Itoa(rng.Range(-1000, 1000))
	if rng.P(0.1) {
		x = "bad"
	}
	r.Data = append(r.Data, collation.FV{F: bs("x"), V: bs(x)}, collation.FV{F: bs("u"), V: bs(strconv.Itoa(rng.Intn(50)))})
	if rng.P(0.3) {
		r.Data = append(r.Data, collation.FV{F: bs("l"), V: bs("z")})
	}
	return r
}

func aQuery(rng *core.Rand, keys int) collation.Query {
	var q collation.Query
	for _, f := range []string{"*", "x", "u", "nosuch"} {
		if rng.Bool() {
			fm := collation.FM{F: bs(f)}
			for _, m := range []string{"count", "sum", "mean", "var", "max", "min", "uniquecount", "nosuch"} {
				if rng.Bool() {
					fm.M = append(fm.M, bs(m))
				}
			}
			q.FieldMeasures = append(q.FieldMeasures, fm)
		}
	}
	q.Criteria = []collation.FV{{F: bs("k"), V: bs(strconv.Itoa(rng.Intn(keys)))}}
	return q
}

func raceStore(c *core.Case, i int) {
	rng := c.Rng
	keys := rng.Range(1, 14)
	slots := rng.PickInt(1, 3, 12, 64)
	g := rng.Range(2, 8)
	ops := rng.Range(5, 60)
	st := store(c, schema(rng, "c", "k"), slots)
	together(c, g, func(_ int, rng *core.Rand) {
		mine := st // the server copies stores too
		for n := 0; n < ops; n++ {
			if rng.Bool() {
				mine.Write(context.Background(), row(rng, keys))
				continue
			}
			res, err := st.Read(context.Background(), aQuery(rng, keys+1))
			if err == nil {
				for _, v := range res.FieldMeasureValues {
					if len(v.String()) == 0 {
						c.Failf("empty result")
					}
				}
			}
		}
	})
	c.Count("store operations", g*ops)
	c.Eval(core.Mix(4, uint64(keys), uint64(slots), uint64(g), uint64(ops), uint64(i)))
}

// raceIndependent uses separate objects with the same parameters in each goroutine. Their
// input is shared and read only.
func raceIndependent(c *core.Case, i int) {
	rng := c.Rng
	g := rng.Range(2, 8)
	var items [][]byte
	for n := 0; n < 30; n++ {
		items = append(items, rng.Bytes(rng.Range(0, 40)))
	}
	var vals []float64
	for n := 0; n < 30; n++ {
		vals = append(vals, rng.Norm())
	}
	prec := uint8(rng.Range(4, 18))
	width := uint8(rng.Range(1, 8))
	nb := rng.Range(100, 400)
	var h0 = hll.New(prec)
	var b0 = bloom.New(nb, 0.03)
	var bb0 = bitbucket.New(nb, width)
	var hs, bls, bbs bytes.Buffer
	h0.WriteTo(&hs)
	b0.WriteTo(&bls)
	bb0.WriteTo(&bbs)
	kind := i % 8
	together(c, g, func(_ int, rng *core.Rand) {
		for n := 0; n < 4; n++ {
			switch (kind + n) % 8 {
			case 0:
				h, ha := fnv.New64(), fnv.New64a()
				for _, it := range items {
					h.Write(it)
					ha.Write(it)
					h.WriteString("x")
					ha.WriteString("x")
					h.WriteByte('y')
					ha.WriteByte('y')
					h.WriteUint64(5)
					ha.WriteUint64(5)
					h.Sum(nil)
					ha.Sum(nil)
					fnv.Sum64(it)
					fnv.Sum64a(it)
				}
				fnv.String64("abc")
				fnv.String64a("abc")
				h.Sum64()
				ha.Sum64()
				h.Size()
				h.BlockSize()
				ha.Size()
				ha.BlockSize()
				h.Reset()
				ha.Reset()
			case 1:
				h := hll.New(prec)
				for _, it := range items {
					h.Add(it)
				}
				h.Count()
				h.LinearCount()
				h.HarmonicCount()
				h.PoissonCount()
				var w bytes.Buffer
				h.WriteTo(&w)
				h2, err := hll.WithBytes(w.Bytes())
				c.Check(err == nil, "hll: %v", err)
				h2.Add(items[0])
				h2.Count()
				var h3 hll.Counter
				h3.ReadFrom(bytes.NewReader(hs.Bytes()))
				h3.Add(items[1])
				h3.Count()
				h3.Reset()
				hll.Len(prec)
			case 2:
				b := bloom.New(nb, 0.03)
				for _, it := range items {
					b.Add(it)
					b.Has(it)
				}
				b.Count()
				b.ErrorRate()
				var w bytes.Buffer
				b.WriteTo(&w)
				b2, err := bloom.WithBytes(w.Bytes())
				c.Check(err == nil, "bloom: %v", err)
				b2.Add(items[0])
				var b3 bloom.Bloom
				b3.ReadFrom(bytes.NewReader(bls.Bytes()))
				b3.Add(items[1])
				b3.Has(items[2])
				b3.Reset()
				b4 := bloom.NewBits(nb, 3)
				b4.Add(items[3])
				b4.Len()
				bloom.Len(nb, 0.03)
			case 3:
				b := bitbucket.New(nb, width)
				b.Width()
				b.Len()
				bitbucket.Len(nb, width)
				for j := 0; j < nb; j++ {
					b.Set(j, uint8(j))
					b.IncN(j, 1)
					b.IncN(j, 200)
					b.Get(j)
				}
				b.CountN(1)
				b.Count()
				b.Max()
				var w bytes.Buffer
				b.WriteTo(&w)
				b2, err := bitbucket.WithBytes(w.Bytes())
				c.Check(err == nil, "bitbucket: %v", err)
				b2.Set(0, 1)
				var b3 bitbucket.BitBucket
				b3.ReadFrom(io.MultiReader(bytes.NewReader(bbs.Bytes())))
				b3.Set(nb-1, 1)
				b3.Reset()
			case 4:
				s := stat64.New()
				for _, v := range vals {
					s.Update(v)
				}
				s.UpdateMulti(vals)
				s.Sum()
				s.Mean()
				s.Variance()
				s.Count()
				s.Reset()
				buf := make([]byte, stat64.Len())
				s2 := stat64.WithBytes(buf)
				s2.Update(1)
				stat64.Reset(buf)
				stats.Meanvar(vals)
				stats.Sum(vals)
				stats.See(vals, 1)
				stats.See(nil, 1)
				stats.Meanvar(nil)
				stats.Meanvar(vals[:1])
				s2.Len()
			case 6:
				damage(rng, [3][]byte{bbs.Bytes(), bls.Bytes(), hs.Bytes()})
			case 7:
				refusals(c, rng)
			case 5:
				sch := schema(rng, "c", "k", "l")
				coll, err := sch.Compile()
				c.Check(err == nil, "Compile: %v", err)
				buf := make([]byte, coll.Size())
				for j := 0; j < 5; j++ {
					coll.Update(row(rng, 3), buf, j == 0)
				}
				q := aQuery(rng, 3)
				res, _ := coll.Read(q.FieldMeasures, buf)
				for _, v := range res.FieldMeasureValues {
					_ = v.String()
				}
			}
		}
	})
	c.Count("objects used independently", g*4)
	c.Eval(core.Mix(5, uint64(kind), uint64(g), uint64(prec), uint64(width), uint64(nb), uint64(i)))
}

type limited struct{ n int }

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.n {
		n := l.n
		l.n = 0
		return n, errFail
	}
	l.n -= len(p)
	return len(p), nil
}

// damage reads, adopts and writes where that fails, and uses what does not.
func damage(rng *core.Rand, stored [3][]byte) {
	for n := 0; n < 30; n++ {
		kind := rng.Intn(3)
		data := append([]byte(nil), stored[kind]...)
		switch rng.Intn(5) {
		case 0:
			data = data[:rng.Intn(len(data))]
		case 1:
			data = data[:rng.Intn(17)]
		case 2:
			data = append(data, 0)
		case 3:
			for x := rng.Range(1, 3); x > 0; x-- {
				data[rng.Intn(14)] = byte(rng.PickInt(0, 1, 4, 7, 9, 255, rng.Intn(256)))
			}
		}
		var r io.Reader = bytes.NewReader(data)
		if rng.P(0.4) {
			n := rng.Intn(len(data) + 1)
			if rng.Bool() && n > 16 {
				n = rng.Intn(17)
			}
			r = io.MultiReader(bytes.NewReader(data[:n]), failing{})
		}
		w := &limited{rng.Intn(16)}
		if rng.Bool() {
			w.n = rng.Intn(len(stored[kind]) + 1)
		}
		switch kind {
		case 0:
			var b bitbucket.BitBucket
			if _, err := b.ReadFrom(r); err == nil {
				b.WriteTo(w)
				b.CountN(1)
			}
			if b, err := bitbucket.WithBytes(data); err == nil {
				b.WriteTo(w)
				b.Max()
			}
		case 1:
			var b bloom.Bloom
			if _, err := b.ReadFrom(r); err == nil {
				b.WriteTo(w)
				b.Add(data[:1])
				b.Count()
				b.ErrorRate()
			}
			if b, err := bloom.WithBytes(data); err == nil {
				b.WriteTo(w)
				b.Has(data[:1])
			}
			full := bloom.NewBits(8, 3)
			for x := byte(0); x < 30; x++ {
				full.Add([]byte{x})
			}
			full.Count()
			full.ErrorRate()
		case 2:
			var h hll.Counter
			if _, err := h.ReadFrom(r); err == nil {
				h.WriteTo(w)
				h.Add(data[:1])
				h.Len()
				h.Count()
			}
			if h, err := hll.WithBytes(data); err == nil {
				h.WriteTo(w)
				h.Count()
			}
			func() {
				defer func() { recover() }()
				hll.New(uint8(rng.PickInt(3, 19)))
			}()
		}
	}
}

type failing struct{}

func (failing) Read(p []byte) (int, error) { return 0, errFail }

var zero [][]byte // values whose key is hashed to zero

func init() {
	for _, pre := range []string{"kr", "kzz", "k"} {
		if v, ok := craft.Suffix([]byte(pre), 0); ok {
			zero = append(zero, append([]byte(pre[1:]), v...))
		}
	}
}

// refusals uses collations in ways that they refuse or that give nothing.
func refusals(c *core.Case, rng *core.Rand) {
	for n := 0; n < 4; n++ {
		sch := schema(rng, "c", "k", "l")
		switch rng.Intn(4) {
		case 0:
			sch.Measures = append(sch.Measures, spec("v", collation.Cardinality{Precision: rng.PickInt(-1, 3, 19, 260)}))
		case 1:
			sch.Measures = []collation.MeasureSpec{spec("x", collation.Mean{}, collation.Sum{}), spec("y", collation.Count{}), spec("z", collation.Variance{}, collation.Max{})}
		case 2:
			sch.Measures = []collation.MeasureSpec{spec("x", collation.Sum{}), spec("y", collation.Max{}), spec("z", collation.Min{}), spec("x", collation.Mean{}), spec("w", collation.Variance{})}
		}
		coll, err := sch.Compile()
		if err != nil {
			continue
		}
		st := storage.Store{Backend: bufmap.New(3, coll.Size()), Collator: coll}
		ctx, cancel := context.WithCancel(context.Background())
		for x := 0; x < 6; x++ {
			r := row(rng, 3)
			if rng.P(0.7) {
				r.Data = append(r.Data, collation.FV{F: bs("l"), V: bs("z")}, collation.FV{F: bs("y"), V: bs("1")}, collation.FV{F: bs("z"), V: bs("2")})
			}
			if x == 4 {
				cancel()
			}
			st.Write(ctx, r)
			q := aQuery(rng, 4)
			q.Criteria = append(q.Criteria, collation.FV{F: bs("l"), V: bs("z")})
			if rng.P(0.2) {
				q.Criteria = q.Criteria[1:]
			}
			st.Read(ctx, q)
			r.Reset()
			q.Reset()
		}
		cancel()
		if len(zero) > 0 {
			fv := collation.FVList{{F: bs("k"), V: zero[rng.Intn(len(zero))]}}
			k, ok := fv.KeyValue([][]byte{bs("k")})
			c.Check(ok && k != 0, "an observation has the key %d (%v)", k, ok)
		}
		for p := 4; p <= 18; p += rng.Range(1, 8) {
			hll.Len(uint8(p))
		}
	}
}

// raceCollator shares one collator, as the request handlers of the server do, and one row.
func raceCollator(c *core.Case, i int) {
	rng := c.Rng
	sch := schema(rng, "c", "k")
	coll, err := sch.Compile()
	c.Check(err == nil, "Compile: %v", err)
	shared := collation.Row{Data: []collation.FV{{F: bs("l"), V: bs("1")}, {F: bs("x"), V: bs("12.5")}, {F: bs("k"), V: bs("b")}, {F: bs("u"), V: bs("abc")}}}
	sharedq := collation.Query{FieldMeasures: []collation.FM{{F: bs("x"), M: [][]byte{bs("sum"), bs("count")}}, {F: bs("u"), M: [][]byte{bs("uniquecount")}}}, Criteria: shared.Data}
	keys := coll.Keys()
	g := rng.Range(2, 8)
	together(c, g, func(_ int, rng *core.Rand) {
		buf := make([]byte, coll.Size())
		coll.Update(shared, buf, true)
		for n := 0; n < 20; n++ {
			shared.KeyValue(keys)
			sharedq.KeyValue(coll.Keys())
			coll.Update(shared, buf, false)
			coll.Update(row(rng, 2), buf, false)
			res, err := coll.Read(sharedq.FieldMeasures, buf)
			c.Check(err == nil && len(res.FieldMeasureValues) == 3, "Read: %v %v", res, err)
			for _, v := range res.FieldMeasureValues {
				_ = v.String()
			}
			_ = coll.Name()
		}
	})
	c.Count("collator operations", g*60)
	c.Eval(core.Mix(6, uint64(g), uint64(i)))
}

func raceQuery(c *core.Case, i int) {
	texts := []string{"select count(*) where k='1'", "SELECT sum(x), mean(x),max(y) WHERE a='b' and c='d e'", "select x", "", "select uniquecount(u) , count(u) where u=''"}
	g := c.Rng.Range(2, 8)
	together(c, g, func(_ int, rng *core.Rand) {
		for n := 0; n < 20; n++ {
			q, err := query.RoughParse(texts[rng.Intn(len(texts))])
			if err == nil {
				for k := range q.Criteria {
					q.Criteria[k].V = append(q.Criteria[k].V, 'x')
				}
				for k := range q.FieldMeasures {
					q.FieldMeasures[k].F[0]++ // results are the caller's
				}
			}
		}
	})
	c.Count("queries parsed", g*20)
	c.Eval(core.Mix(7, uint64(g), uint64(i)))
}

type quiet struct{}

func (quiet) Printf(string, ...interface{}) {}

var servers int

// listen serves the stores and returns the path of the socket.
func listen(c *core.Case, stores []storage.Store) string {
	servers++
	sock := filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprintf("s%d", servers))
	s := &server.Server{Net: "unix", Addr: sock, Logger: quiet{}, Stores: stores}
	go s.Serve()
	for n := 0; ; n++ {
		conn, err := net.Dial("unix", sock)
		if err == nil {
			conn.Close()
			break
		}
		c.Check(n < 2000, "the server does not listen: %v", err)
		time.Sleep(time.Millisecond)
	}
	return sock
}

type request struct{ method, target, ct, body string }

func esc(q string) string { return url.QueryEscape(q) }

// requests holds one of every kind of request: accepted, refused for every reason, unknown.
func requests() []request {
	const line = "1480000000000000\tk=1\tx=3\tu=4\tl=q"
	ok := "select count(*), sum(x), var(x), max(x), uniquecount(u) where k='1'"
	rs := []request{
		{"POST", "/collation/c0", "application/x-www-form-urlencoded", "q=" + esc(ok)},
		{"POST", "/collation/c0", "application/x-www-form-urlencoded", ""},
		{"PUT", "/collation/c0", "", ""},
		{"DELETE", "/obs", "", ""},
		{"GET", "/obs", "", ""},
		{"GET", "/nosuch", "", ""},
		{"GET", "/", "", ""},
		{"GET", "/collation", "", ""},
		{"GET", "/collation/", "", ""},
		{"GET", "/collation/c0/x", "", ""},
		{"GET", "/collation/nosuch", "", ""},
		{"GET", "/collation/nosuch?q=" + esc(ok), "", ""},
		{"POST", "/obs", "application/x-www-form-urlencoded", "data=" + esc(line)},
		{"POST", "/obs", "application/x-www-form-urlencoded", ""},
		{"POST", "/obs", "application/x-www-form-urlencoded", "%"},
	}
	for _, ct := range []string{"", "text/plain", "text/plain; charset=utf-8", "application/octet-stream", "image/png", ";", "text/", "text/plain; charset"} {
		rs = append(rs, request{"POST", "/obs", ct, line + "\n" + line + "\n"})
	}
	for _, l := range []string{"", "\n", "x\tk=1", "x", "99999999999999999999\tk=1", "1480000000000000", "1480000000000000\tk\tx=1", "1480000000000000|k=1|x=1",
		"1\tx=1", "1\tk=1\tx=bad", "1\tk=1", "1\tk=", "1\tk=" + strings.Repeat("a", 70000)} {
		rs = append(rs, request{"POST", "/obs", "text/plain", l})
	}
	for _, q := range []string{ok, "", "x", "select", "select count(*)", "select count(*) where", "select count(*) where k=1", "select count(*) where k='1' and", "select count(*) where z='1'",
		"select nosuch(x) where k='1'", "select count(nosuch) where k='1'", "select count(*) where k='nosuch'", "select count(*) where k='1' and l='q'", "select count(*), count(*) where k='1'"} {
		rs = append(rs, request{"GET", "/collation/c0?q=" + esc(q), "", ""})
	}
	return rs
}

// raceSame makes several clients send requests of one kind at a time, so that each line of code that handles
// the kind is run by several goroutines at once.
func raceSame(c *core.Case, i int) {
	rs := requests()
	rq := rs[i%len(rs)]
	st := schema(c.Rng, "c0", "k")
	sock := listen(c, []storage.Store{store(c, st, c.Rng.PickInt(1, 64))})
	g := c.Rng.Range(3, 8)
	n := c.Rng.Range(2, 6)
	together(c, g, func(_ int, rng *core.Rand) {
		for j := 0; j < n; j++ {
			conn, err := net.Dial("unix", sock)
			c.Check(err == nil, "no connection: %v", err)
			ct := ""
			if rq.ct != "" {
				ct = "Content-Type: " + rq.ct + "\r\n"
			}
			go fmt.Fprintf(conn, "%s %s HTTP/1.1\r\nHost: x\r\nConnection: close\r\n%sContent-Length: %d\r\n\r\n%s", rq.method, rq.target, ct, len(rq.body), rq.body)
			got, _ := io.ReadAll(conn)
			conn.Close()
			c.Check(len(got) > 12 || len(rq.body) > 4096, "%.200q gets no response", rq)
		}
	})
	c.Count("requests of one kind at a time", g*n)
	c.Eval(core.Mix(21, uint64(i%len(rs)), uint64(g), uint64(n)))
}

func raceServer(c *core.Case, i int) {
	rng := c.Rng
	keys := rng.Range(1, 14)
	slots := rng.PickInt(1, 3, 64)
	stores := []storage.Store{store(c, schema(rng, "c0", "k"), slots)}
	if rng.P(0.6) {
		stores = append(stores, store(c, schema(rng, "c1"), 1), store(c, schema(rng, "c2", "k", "l"), 32))
	}
	sock := listen(c, stores)
	g := rng.Range(3, 8)
	ops := rng.Range(5, 30)
	var mu sync.Mutex
	codes := map[int]int{}
	together(c, g, func(_ int, rng *core.Rand) {
		// one client and connection each, so that clients do not synchronise
		tr := &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
			return (&net.Dialer{}).DialContext(ctx, "unix", sock)
		}, DisableKeepAlives: rng.P(0.3)}
		cl := &http.Client{Transport: tr}
		defer tr.CloseIdleConnections()
		mine := map[int]int{}
		send := func(method, target, ct, body string) {
			req, err := http.NewRequest(method, "http://starbow"+target, strings.NewReader(body))
			if err != nil {
				panic(err)
			}
			if ct != "" {
				req.Header.Set("Content-Type", ct)
			}
			res, err := cl.Do(req)
			if err != nil && len(body) > 4096 {
				mine[1]++ // refused before all of it was sent
				return
			}
			c.Check(err == nil, "%s %s gets no response: %v", method, target, err)
			io.Copy(io.Discard, res.Body)
			res.Body.Close()
			mine[res.StatusCode]++
		}
		for n := 0; n < ops; n++ {
			k := strconv.Itoa(rng.Intn(keys + 1))
			var b strings.Builder
			for j := rng.Range(1, 5); j > 0; j-- {
				x := strconv.Itoa(rng.Range(-1000, 1000))
				if rng.P(0.05) {
					x = "bad"
				}
				fmt.Fprintf(&b, "1480000000000000\tk=%s\tx=%s\tu=%d\tl=q\n", k, x, rng.Intn(100))
			}
			switch rng.Intn(11) {
			case 8:
				b.WriteString(rng.Pick("", "\n", "x\tk=1\n", "99999999999999999999\tk=1\n", "1480000000000000\n", "1480000000000000\tk\tx=1\n", "1480000000000000|k=1|x=1", "1\tx=1\n1\tk=2", "1\tk="+strings.Repeat("a", 70000)+"\n"))
				send("POST", "/obs", rng.Pick("", "text/plain", "application/octet-stream"), b.String())
			case 9:
				switch rng.Intn(4) {
				case 0:
					send("POST", "/obs", rng.Pick("image/png", "text/", ";", "text/plain; charset", "application/json"), b.String())
				case 1:
					send("POST", "/obs", "application/x-www-form-urlencoded", rng.Pick("", "x=1", "data=", "%", "data=x"))
				case 2:
					send(rng.Pick("GET", "POST", "PUT", "DELETE"), rng.Pick("/collation/", "/collation", "/collation/c0/x", "/collation/c0?q=x", "/collation/c0?q=%", "/collation/nosuch?q="+url.QueryEscape("select a(b) where c='d'"), "/collation/c0?q="+url.QueryEscape("select count(*), nosuch(x) where z='1'")), "", "")
				case 3:
					q := url.QueryEscape(fmt.Sprintf("select count(*) where k='%s'", k))
					send("GET", "/collation/c0?q="+q, "", "")
				}
			case 10:
				// an upload that is cut off
				conn, err := net.Dial("unix", sock)
				c.Check(err == nil, "no connection: %v", err)
				body := b.String()
				head := fmt.Sprintf("POST /obs HTTP/1.1\r\nHost: x\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n", len(body)+rng.Intn(3))
				io.WriteString(conn, head+body[:rng.Intn(len(body)+1)])
				if u, ok := conn.(*net.UnixConn); ok && rng.Bool() {
					u.CloseWrite()
					io.Copy(io.Discard, conn)
				}
				conn.Close()
				mine[0]++
			case 0, 1:
				send("POST", "/obs", "text/plain", b.String())
			case 2:
				send("POST", "/obs", "application/x-www-form-urlencoded", "data="+url.QueryEscape(b.String()))
			case 3:
				send("POST", "/obs", "application/octet-stream", b.String())
			case 4:
				send(rng.Pick("GET", "PUT"), rng.Pick("/obs", "/nosuch", "/collation/nosuch", "/collation/c0", "/"), "", "")
			default:
				q := fmt.Sprintf("select count(*), sum(x), var(x), max(x), uniquecount(u), count(nosuch) where k='%s' and l='q'", k)
				name := fmt.Sprintf("c%d", rng.Intn(3))
				if rng.Bool() {
					send("GET", "/collation/"+name+"?q="+url.QueryEscape(q), "", "")
				} else {
					send("POST", "/collation/"+name, "application/x-www-form-urlencoded", "q="+url.QueryEscape(q))
				}
			}
		}
		mu.Lock()
		for k, v := range mine {
			codes[k] += v
		}
		mu.Unlock()
	})
	c.Count("uploads cut off", codes[0])
	c.Count("uploads refused before their end", codes[1])
	delete(codes, 0)
	delete(codes, 1)
	for k, v := range codes {
		c.Count(fmt.Sprintf("responses with status %d", k), v)
	}
	c.Eval(core.Mix(8, uint64(keys), uint64(slots), uint64(len(stores)), uint64(g), uint64(ops), uint64(i)))
	if i == 0 {
		c.Sample("server", fmt.Sprintf("%d clients, %d requests each, %d keys, %d collations", g, ops, keys, len(stores)))
	}
}
