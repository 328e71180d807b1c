package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/verifmon/core"
)

// An object is a bit bucket, a bloom filter or a unique counter.
type object struct {
	kind  int
	bb    bitbucket.BitBucket
	bl    bloom.Bloom
	h     hll.Counter
	desc  string
	items population
	adv   int // advertised length for the parameters
}

var kindNames = []string{"bit bucket", "bloom filter", "unique counter"}

func (o *object) WriteTo(w io.Writer) (int64, error) {
	switch o.kind {
	case 0:
		return o.bb.WriteTo(w)
	case 1:
		return o.bl.WriteTo(w)
	}
	return o.h.WriteTo(w)
}

func (o *object) ReadFrom(r io.Reader) (int64, error) {
	switch o.kind {
	case 0:
		return o.bb.ReadFrom(r)
	case 1:
		return o.bl.ReadFrom(r)
	}
	return o.h.ReadFrom(r)
}

func (o *object) Len() int {
	switch o.kind {
	case 0:
		return o.bb.Len()
	case 1:
		return o.bl.Len()
	}
	return o.h.Len()
}

// adopt replaces the object by one that uses buf.
func (o *object) adopt(buf []byte) (err error) {
	switch o.kind {
	case 0:
		o.bb, err = bitbucket.WithBytes(buf)
	case 1:
		o.bl, err = bloom.WithBytes(buf)
	default:
		o.h, err = hll.WithBytes(buf)
	}
	return
}

// op applies one operation chosen by rng and returns what it observed.
func (o *object) op(rng *core.Rand) uint64 {
	k := rng.Intn(12)
	x, y := rng.Uint64(), rng.Uint64()
	if k == 11 {
		if x%5 != 0 {
			k = 0
		} else {
			switch o.kind {
			case 0:
				o.bb.Reset()
			case 1:
				o.bl.Reset()
			default:
				o.h.Reset()
			}
			return 1
		}
	}
	item := o.items.item(int(y % 5000))
	switch o.kind {
	case 0:
		n := o.bb.Count()
		r := core.Mix(uint64(n), uint64(o.bb.Width()), uint64(o.bb.Max()), uint64(o.bb.Len()))
		if n == 0 {
			return r
		}
		j := int(x % uint64(n))
		switch {
		case k < 4:
			o.bb.Set(j, uint8(y))
		case k < 8:
			o.bb.IncN(j, uint8(y))
		case k < 10 || n > 5000:
			return core.Mix(r, uint64(o.bb.Get(j)))
		default:
			return core.Mix(r, uint64(o.bb.CountN(uint8(y)&o.bb.Max())))
		}
		return core.Mix(r, uint64(o.bb.Get(j)))
	case 1:
		switch {
		case k < 6:
			o.bl.Add(item)
			return 2
		case k < 9:
			if o.bl.Has(item) {
				return 3
			}
			return 4
		default:
			return core.Mix(uint64(o.bl.Count()), math.Float64bits(o.bl.ErrorRate()), uint64(o.bl.Len()))
		}
	}
	if k < 9 {
		if y%8 == 0 {
			// an item that sets a register to a large value
			p := 4 + int(x%15)
			item = deepItem(rng, p, x>>uint(64-p), rng.Range(1, 65-p))
		}
		o.h.Add(item)
		return 5
	}
	return core.Mix(uint64(o.h.Count()), uint64(o.h.Len()))
}

func makeObject(rng *core.Rand, kind int, small bool) *object {
	o := &object{kind: kind}
	o.reset(rng, small)
	return o
}

// reset gives the object random parameters and contents.
func (o *object) reset(rng *core.Rand, small bool) {
	o.items = makePopulation(rng, rng.Intn(numPopulations))
	switch o.kind {
	case 0:
		n, w := rng.Range(0, 60), uint8(rng.Range(1, 8))
		if !small {
			switch rng.Intn(5) {
			case 0:
				n = rng.Range(0, 3000)
			case 1:
				n = rng.PickInt(500, 511, 512, 513, 1024, 4096, 40000, 100000)
			}
		}
		o.bb = bitbucket.New(n, w)
		o.adv = bitbucket.Len(n, w)
		o.desc = fmt.Sprintf("%d buckets of %d bits", n, w)
	case 1:
		if rng.Bool() {
			m, k := rng.Range(1, 300), rng.Range(0, 12)
			if !small && rng.P(0.3) {
				m, k = rng.Range(1, 200000), rng.Range(0, 255)
			}
			o.bl = bloom.NewBits(m, uint8(k))
			o.adv = 2 + bitbucket.Len(m, 1)
			o.desc = fmt.Sprintf("filter of %d bits, %d hash functions", m, k)
		} else {
			n, p := rng.Range(1, 40), math.Pow(10, -0.05-3*rng.Float64())
			if !small && rng.P(0.5) {
				n = rng.Range(1, 5000)
			}
			o.bl = bloom.New(n, p)
			o.adv = bloom.Len(n, p)
			o.desc = fmt.Sprintf("filter for %d items at rate %g", n, p)
		}
	default:
		p := rng.Range(4, 12)
		if small {
			p = rng.Range(4, 7)
		} else if rng.P(0.1) {
			p = rng.Range(13, 18)
		}
		o.h = hll.New(uint8(p))
		o.adv = hll.Len(uint8(p))
		o.desc = fmt.Sprintf("counter of precision %d", p)
	}
	n := rng.Range(0, 100)
	if !small && rng.P(0.3) {
		n = rng.Range(0, 3000)
	}
	for ; n > 0; n-- {
		o.op(rng)
	}
}

func (o *object) bytes(c *core.Case) []byte {
	var buf bytes.Buffer
	n, err := o.WriteTo(&buf)
	c.Check(err == nil && int(n) == buf.Len(), "%s: WriteTo returned %d, %v after writing %d bytes", o.desc, n, err, buf.Len())
	return buf.Bytes()
}

// chunks is a reader that returns data in chunks of various sizes.
type chunks struct {
	data    []byte
	pos     int
	rng     *core.Rand
	max     int   // largest chunk
	zeros   bool  // sometimes returns 0, nil
	withEOF bool  // returns the error together with the last data
	failAt  int   // offset at which err is returned
	err     error // error at the end or at failAt
	garbage bool  // uses the rest of the caller's buffer as scratch space, as io.Reader allows
}

func (r *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= r.failAt {
		return 0, r.err
	}
	if r.zeros && r.rng.P(0.2) {
		return 0, nil
	}
	n := r.rng.Range(1, r.max)
	if n > len(p) {
		n = len(p)
	}
	if n > r.failAt-r.pos {
		n = r.failAt - r.pos
	}
	copy(p, r.data[r.pos:r.pos+n])
	if r.garbage {
		for i := n; i < len(p); i++ {
			p[i] = 0xee
		}
	}
	r.pos += n
	if r.withEOF && r.pos >= r.failAt {
		return n, r.err
	}
	return n, nil
}

func reader(rng *core.Rand, data []byte, failAt int, err error) *chunks {
	r := &chunks{data: data, rng: rng.Fork(), failAt: failAt, err: err}
	r.max = rng.PickInt(1, 2, 7, 64, 511, 512, 513, 1<<20)
	if len(data) > 20000 && r.max < 64 {
		r.max = 512
	}
	r.zeros = rng.P(0.3)
	r.withEOF = rng.P(0.4)
	r.garbage = rng.P(0.4)
	return r
}

// limited is a writer that accepts a number of bytes and then fails.
type limited struct {
	got   []byte
	room  int
	err   error
	calls int
}

func (w *limited) Write(p []byte) (int, error) {
	w.calls++
	if len(p) > w.room-len(w.got) {
		n := w.room - len(w.got)
		w.got = append(w.got, p[:n]...)
		return n, w.err
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

func checkRoundTrip(r *core.Run) {
	r.Rule = "objects of random kind, parameters and contents are written, read back through readers that split the data in many ways, into fresh and used objects, and adopted from the middle of a larger buffer; original and copy then get the same random operations and must always observe and serialize the same. " +
		"Non-trivial if the object was not empty. Digest: kind, parameters, bytes."
	r.Each(r.N(4000, 60000), "trip", roundTrip)
}

func roundTrip(c *core.Case, i int) {
	rng := c.Rng
	o := makeObject(rng, i%3, false)
	data := o.bytes(c)
	c.Check(len(data) == o.Len(), "%s: wrote %d bytes, Len() is %d", o.desc, len(data), o.Len())
	c.Check(len(data) == o.adv, "%s: wrote %d bytes, the length for its parameters is %d", o.desc, len(data), o.adv)
	saved := append([]byte(nil), data...)

	// restored from a stream
	cp := makeObject(rng, o.kind, true)
	cp.items = o.items
	if rng.Bool() {
		*cp = object{kind: o.kind, items: o.items}
	}
	rd := reader(rng, data, len(data), io.EOF)
	n, err := cp.ReadFrom(rd)
	c.Check(err == nil && int(n) == len(data), "%s: ReadFrom returned %d, %v for %d bytes (chunks of up to %d, error with data %v, empty reads %v)", o.desc, n, err, len(data), rd.max, rd.withEOF, rd.zeros)
	for j := range data {
		data[j] = 0 // the copy must not depend on it
	}

	// adopted from the middle of a larger buffer
	lo := rng.Range(0, 17)
	outer := append(bytes.Repeat([]byte{0xc3}, lo), saved...)
	extra := 0
	if rng.P(0.3) {
		extra = rng.Range(1, 9) // the buffer may be longer than needed
	}
	outer = append(outer, bytes.Repeat([]byte{0xc3}, extra+rng.Range(0, 17))...)
	ad := &object{kind: o.kind, items: o.items, desc: o.desc}
	err = ad.adopt(outer[lo : lo+len(saved)+extra])
	c.Check(err == nil, "%s: adopting its serialized bytes failed: %v", o.desc, err)

	digest := core.Mix(uint64(o.kind), core.HashBytes(saved))
	base := rng.Uint64()
	ops := rng.Range(5, 80)
	for j := 0; j < ops; j++ {
		s := fmt.Sprint(j)
		a := o.op(core.NewRand(base, s))
		b := cp.op(core.NewRand(base, s))
		d := ad.op(core.NewRand(base, s))
		c.Check(a == b, "%s: operation %d gives a different result after storing and restoring", o.desc, j)
		c.Check(a == d, "%s: operation %d gives a different result after adopting the stored bytes", o.desc, j)
		digest = core.Mix(digest, a)
		if rng.P(0.1) || j == ops-1 {
			x, y := o.bytes(c), cp.bytes(c)
			c.Check(bytes.Equal(x, y), "%s: original and restored copy differ after %d operations", o.desc, j+1)
			c.Check(bytes.Equal(x, ad.bytes(c)), "%s: original and adopted copy differ after %d operations", o.desc, j+1)
			c.Check(bytes.Equal(x, outer[lo:lo+len(saved)]), "%s: the adopted buffer does not hold the state after %d operations", o.desc, j+1)
			c.Check(len(x) == len(saved), "%s: the serialized length changed from %d to %d", o.desc, len(saved), len(x))
			c.Check(o.Len() == len(x) && cp.Len() == len(x) && ad.Len() == len(x), "%s: Len() is %d, %d (restored), %d (adopted), want %d", o.desc, o.Len(), cp.Len(), ad.Len(), len(x))
		}
	}
	for j, x := range outer {
		if j < lo || j >= lo+len(saved) {
			c.Check(x == 0xc3, "%s: a byte outside the adopted buffer was changed", o.desc)
		}
	}
	c.Count(kindNames[o.kind]+" round trips", 1)
	c.Count("operations compared", 3*ops)
	zero := true
	for _, x := range saved[10:] {
		zero = zero && x == 0
	}
	if !zero {
		c.Eval(digest)
	} else {
		c.Eval(0)
	}
	if i < 6 {
		c.Sample("trip", fmt.Sprintf("%s, %d bytes, read in chunks of up to %d", o.desc, len(saved), rd.max))
	}
}

func checkDamage(r *core.Run) {
	r.Level = "fault_enumeration"
	r.Rule = "cut/*: for small objects, the serialized bytes cut at every offset (stream and buffer), the reader failing at every offset and the writer failing at every offset; trailing bytes; every version byte. " +
		"corrupt/*: random corruption, crafted headers and arbitrary bytes; objects that are accepted are then used; an object whose read failed must hold what it held before or what was to be read, and behave like an object that adopts what it writes. alloc/*: crafted headers, measuring allocation. Non-trivial unless the damage left the bytes unchanged. Digest: kind, damaged bytes, outcome."
	r.Each(r.N(1000, 10000), "cut", damageCut)
	r.Each(r.N(60000, 1500000), "corrupt", damageRandom)
	r.Seq(r.N(600, 6000), "alloc", damageAlloc)
}

// try runs fn and turns a panic into a violation that shows the input.
func try(c *core.Case, what string, input []byte, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			c.Logf("input: %x", input)
			c.Failf("%s panics: %v; input %x", what, e, last2(input))
		}
	}()
	fn()
}

func last2(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

// failed judges an object after a read into it that failed: before is what it held, input what there was to read.
// It must hold either of the two and work.
func (o *object) failed(c *core.Case, rng *core.Rand, before, input []byte, what string) {
	now := o.bytes(c)
	c.Check(bytes.Equal(now, before) || len(now) <= len(input) && bytes.Equal(now, input[:len(now)]),
		"%s: after the read failed the object holds neither what it held (%x) nor what was to be read (%x): %x", what, last2(before), last2(input), last2(now))
	s := &object{kind: o.kind, items: o.items}
	err := s.adopt(append([]byte(nil), now...))
	c.Check(err == nil, "%s: the object that is left writes %x, which is refused: %v", what, last2(now), err)
	r1 := rng.Fork()
	r2 := *r1
	for k := 0; k < 20; k++ {
		x, y := o.op(r1), s.op(&r2)
		c.Check(x == y, "%s: the object that is left behaves unlike one that is made from what it writes, %x", what, last2(now))
	}
	c.Count("objects used after a failed read", 1)
}

var errStream = errors.New("stream failed on purpose")

func damageCut(c *core.Case, i int) {
	rng := c.Rng
	o := makeObject(rng, i%3, true)
	data := o.bytes(c)
	name := kindNames[o.kind]
	for cut := 0; cut < len(data); cut++ {
		part := append([]byte(nil), data[:cut]...)
		// truncated stream
		t := makeObject(rng, o.kind, true)
		before := t.bytes(c)
		rd := reader(rng, part, cut, io.EOF)
		try(c, name+" ReadFrom", part, func() {
			n, err := t.ReadFrom(rd)
			c.Check(err != nil, "%s cut to %d of %d bytes was read without an error", o.desc, cut, len(data))
			c.Check(int(n) == rd.pos, "%s cut to %d bytes: ReadFrom reports %d bytes read, the reader gave %d", o.desc, cut, n, rd.pos)
			t.failed(c, rng, before, part, fmt.Sprintf("%s cut to %d of %d bytes", o.desc, cut, len(data)))
		})
		// truncated buffer
		t = &object{kind: o.kind, items: o.items}
		try(c, name+" WithBytes", part, func() {
			err := t.adopt(part[:cut:cut])
			c.Check(err != nil, "%s cut to %d of %d bytes was adopted without an error", o.desc, cut, len(data))
		})
		// the reader fails
		t = makeObject(rng, o.kind, true)
		before = t.bytes(c)
		rd = reader(rng, data, cut, errStream)
		try(c, name+" ReadFrom of a failing reader", part, func() {
			n, err := t.ReadFrom(rd)
			c.Check(errors.Is(err, errStream), "%s: the reader failed after %d of %d bytes, ReadFrom returned %v", o.desc, cut, len(data), err)
			c.Check(int(n) == rd.pos, "%s: the reader failed after %d bytes, ReadFrom reports %d, the reader gave %d", o.desc, cut, n, rd.pos)
			t.failed(c, rng, before, data[:cut], fmt.Sprintf("%s, the reader failed after %d of %d bytes", o.desc, cut, len(data)))
		})
		// the writer fails
		w := &limited{room: cut, err: errStream}
		n, err := o.WriteTo(w)
		c.Check(errors.Is(err, errStream), "%s: the writer failed after %d of %d bytes, WriteTo returned %v", o.desc, cut, len(data), err)
		c.Check(int(n) == len(w.got), "%s: the writer failed after %d bytes, WriteTo reports %d", o.desc, len(w.got), n)
		c.Check(bytes.Equal(w.got, data[:len(w.got)]), "%s: the bytes written before the failure differ", o.desc)
		c.Count("cut points", 4)
		c.Eval(core.Mix(uint64(o.kind), uint64(cut), core.HashBytes(data)))
	}
	// the reader fails after the last byte
	t := makeObject(rng, o.kind, true)
	before := t.bytes(c)
	rd := reader(rng, data, len(data), errStream)
	n, err := t.ReadFrom(rd)
	t.failed(c, rng, before, data, fmt.Sprintf("%s, the reader failed after the last byte", o.desc))
	c.Check(errors.Is(err, errStream) && int(n) == len(data), "%s: the reader failed after the last byte, ReadFrom returned %d, %v", o.desc, n, err)
	// a writer with exactly enough room
	w := &limited{room: len(data), err: errStream}
	n, err = o.WriteTo(w)
	c.Check(err == nil && int(n) == len(data), "%s: WriteTo returned %d, %v for %d bytes", o.desc, n, err, len(data))
	// trailing bytes
	for k := 1; k < 25; k++ {
		ext := append(append([]byte(nil), data...), rng.Bytes(k)...)
		t := makeObject(rng, o.kind, true)
		before := t.bytes(c)
		rd := reader(rng, ext, len(ext), io.EOF)
		n, err := t.ReadFrom(rd)
		t.failed(c, rng, before, ext, fmt.Sprintf("%s with %d trailing bytes", o.desc, k))
		c.Check(err != nil, "%s: %d trailing bytes were not noticed (chunks of up to %d, error with data %v, empty reads %v)", o.desc, k, rd.max, rd.withEOF, rd.zeros)
		c.Check(int(n) == rd.pos, "%s with trailing bytes: ReadFrom reports %d bytes read, the reader gave %d", o.desc, n, rd.pos)
		c.Eval(core.Mix(uint64(o.kind), core.HashBytes(ext)))
	}
	// versions
	offs := []int{0}
	if o.kind != 0 {
		offs = append(offs, 2)
	}
	for _, off := range offs {
		for v := 0; v < 256; v++ {
			if v == 1 {
				continue
			}
			d := append([]byte(nil), data...)
			d[off] = byte(v)
			t := makeObject(rng, o.kind, true)
			before := t.bytes(c)
			_, err := t.ReadFrom(reader(rng, d, len(d), io.EOF))
			t.failed(c, rng, before, d, fmt.Sprintf("%s with version %d at byte %d", o.desc, v, off))
			c.Check(err != nil, "%s with version %d (at byte %d) was read", o.desc, v, off)
			c.Check(t.adopt(d) != nil, "%s with version %d (at byte %d) was adopted", o.desc, v, off)
			c.Eval(core.Mix(uint64(o.kind), uint64(off), uint64(v)))
		}
	}
	c.Count("unknown versions", 2*255*len(offs))
	if i < 3 {
		c.Sample("cut", fmt.Sprintf("%s, %d bytes, every offset", o.desc, len(data)))
	}
}

var nastyCounts = []uint64{0, 1, 1 << 20, 1 << 31, 1 << 32, 1<<32 - 1, 1 << 40, 1 << 52, 1 << 58, 1 << 59, 1 << 60, 1<<60 - 1, 1<<60 + 1, 1 << 61, 1 << 62, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 7, ^uint64(0) / 8, ^uint64(0)/8 + 1, ^uint64(0) / 6, (1<<63 - 1) / 8, (1<<63-1-7)/8 + 1, (1<<63 - 1 - 7) / 8}

// damage returns damaged or arbitrary bytes for a kind of object.
func damage(c *core.Case, rng *core.Rand, kind int) ([]byte, string) {
	o := makeObject(rng, kind, true)
	d := o.bytes(c)
	hdr := 0
	if kind != 0 {
		hdr = 2
	}
	switch rng.Intn(9) {
	case 6, 7: // buckets of another kind, complete
		p := rng.Range(4, 7)
		if kind == 2 && rng.P(0.2) {
			p = rng.Range(0, 10)
		}
		n := 1 << uint(p)
		switch rng.Intn(5) {
		case 0:
			n += rng.Range(-3, 3)
		case 1:
			n += rng.Range(1, n)
		case 2:
			n = 1 << uint(rng.Range(0, 8))
		}
		if n < 0 {
			n = 0
		}
		w := rng.PickInt(rng.Range(1, 8), 5, 6, 7, 8, 1)
		body := rng.Bytes((n*w + 7) / 8)
		switch rng.Intn(4) {
		case 0:
			body = make([]byte, len(body))
		case 1:
			body = bytes.Repeat([]byte{0xff}, len(body))
		}
		d = append(d[:hdr:hdr], 1, byte(w), 0, 0, 0, 0, 0, 0, 0, 0)
		binary.LittleEndian.PutUint64(d[hdr+2:], uint64(n))
		d = append(d, body...)
		if kind == 2 {
			d[1] = byte(p)
		}
		return d, fmt.Sprintf("%d buckets of %d bits in %s", n, w, o.desc)
	case 0:
		return rng.Bytes(rng.Range(0, 60)), "arbitrary bytes"
	case 1: // arbitrary bytes with a valid version
		d = rng.Bytes(rng.Range(0, 200))
		if len(d) > 0 {
			d[0] = 1
		}
		if len(d) > 2 && kind != 0 {
			d[2] = 1
		}
		return d, "arbitrary bytes after the version"
	case 2:
		for n := rng.Range(1, 5); n > 0; n-- {
			d[rng.Intn(len(d))] ^= 1 << uint(rng.Intn(8))
		}
		return d, "flipped bits in " + o.desc
	case 3:
		for n := rng.Range(1, 3); n > 0; n-- {
			j := rng.Intn(hdr + 10)
			d[j] = byte(rng.Uint64())
		}
		return d, "changed header of " + o.desc
	case 4:
		d[hdr+1] = byte(rng.PickInt(0, 0, 1, 6, 7, 8, 9, 255, rng.Intn(256)))
		binary.LittleEndian.PutUint64(d[hdr+2:], nastyCounts[rng.Intn(len(nastyCounts))])
		if kind != 0 && rng.Bool() {
			d[1] = byte(rng.Intn(256))
		}
		return d, "crafted header on " + o.desc
	case 5: // consistent count but other parameters
		n := rng.Range(0, 40)
		binary.LittleEndian.PutUint64(d[hdr+2:], uint64(n))
		if kind != 0 {
			d[1] = byte(rng.Intn(30))
		}
		return d, "smaller count in " + o.desc
	}
	// registers of any content
	for j := hdr + 10; j < len(d); j++ {
		d[j] = byte(rng.Uint64())
	}
	return d, "arbitrary content in " + o.desc
}

func damageRandom(c *core.Case, i int) {
	rng := c.Rng
	kind := i % 3
	d, what := damage(c, rng, kind)
	name := kindNames[kind]
	orig := append([]byte(nil), d...)
	accepted := uint64(0)
	use := func(o *object) {
		for k := 0; k < 30; k++ {
			o.op(rng)
		}
		var buf bytes.Buffer
		n, err := o.WriteTo(&buf)
		c.Check(err == nil && int(n) == o.Len() && buf.Len() == o.Len(), "%s accepted from %s: WriteTo returned %d, %v, wrote %d bytes, Len() is %d", name, what, n, err, buf.Len(), o.Len())
		c.Check(o.Len() <= len(d), "%s accepted from %s: %d bytes were read but Len() is %d", name, what, len(d), o.Len())
		// cleared, it works like any other
		item := o.items.item(rng.Intn(1000))
		switch kind {
		case 0:
			o.bb.Reset()
			if n := o.bb.Count(); n > 0 {
				at := rng.Intn(n)
				o.bb.Set(at, o.bb.Max())
				c.Check(o.bb.Get(at) == o.bb.Max(), "%s accepted from %s: bucket %d holds %d after it was set to %d", name, what, at, o.bb.Get(at), o.bb.Max())
				if n < 10000 && o.bb.Max() != 0 {
					c.Check(o.bb.CountN(0) == n-1, "%s accepted from %s: %d of %d buckets are empty after all but one were cleared", name, what, o.bb.CountN(0), n)
				}
			}
		case 1:
			o.bl.Reset()
			c.Check(orig[1] == 0 || o.bl.ErrorRate() == 0 && o.bl.Count() == 0 && !o.bl.Has(item), "%s accepted from %s: error rate %v when empty", name, what, o.bl.ErrorRate())
			o.bl.Add(item)
			c.Check(o.bl.Has(item), "%s accepted from %s: an item that was added is reported absent", name, what)
		default:
			o.h.Reset()
			c.Check(o.h.Count() == 0, "%s accepted from %s: reports %d when empty", name, what, o.h.Count())
			o.h.Add(item)
			c.Check(o.h.Count() == 1, "%s accepted from %s: reports %d for one item", name, what, o.h.Count())
		}
	}
	t := makeObject(rng, kind, true)
	before := t.bytes(c)
	rd := reader(rng, d, len(d), io.EOF)
	try(c, name+" ReadFrom ("+what+")", orig, func() {
		n, err := t.ReadFrom(rd)
		c.Check(int(n) == rd.pos, "%s: ReadFrom (%s) reports %d bytes read, the reader gave %d", name, what, n, rd.pos)
		if err == nil {
			accepted |= 1
			c.Check(rd.pos == len(d), "%s: ReadFrom (%s) succeeded but read only %d of %d bytes", name, what, rd.pos, len(d))
			use(t)
		} else {
			t.failed(c, rng, before, d, name+", "+what)
		}
	})
	t = &object{kind: kind, items: makePopulation(rng, rng.Intn(numPopulations))}
	try(c, name+" WithBytes ("+what+")", orig, func() {
		if t.adopt(d[:len(d):len(d)]) == nil {
			accepted |= 2
			use(t)
		}
	})
	if accepted != 0 {
		c.Count("damaged inputs accepted and used", 1)
	} else {
		c.Count("damaged inputs refused", 1)
	}
	c.Eval(core.Mix(uint64(kind), core.HashBytes(orig), accepted))
	if i < 4 {
		c.Sample("corrupt", fmt.Sprintf("%s: %s: %x", name, what, last2(orig)))
	}
}

func damageAlloc(c *core.Case, i int) {
	rng := c.Rng
	kind := i % 3
	var d []byte
	for {
		d, _ = damage(c, rng, kind)
		hdr := 0
		if kind != 0 {
			hdr = 2
		}
		if len(d) >= hdr+10 {
			d[0], d[hdr] = 1, 1
			d[hdr+1] = []byte{byte(rng.Range(1, 8)), 1, 6}[kind]
			if kind == 2 {
				d[1] = byte(rng.Range(4, 18))
			}
			binary.LittleEndian.PutUint64(d[hdr+2:], nastyCounts[rng.Intn(len(nastyCounts))])
			if rng.Bool() {
				binary.LittleEndian.PutUint64(d[hdr+2:], uint64(1)<<uint(rng.Range(16, 60)))
			}
			break
		}
	}
	var before, after runtime.MemStats
	t := &object{kind: kind}
	rd := bytes.NewReader(d)
	runtime.ReadMemStats(&before)
	try(c, kindNames[kind]+" ReadFrom", d, func() { t.ReadFrom(rd) })
	try(c, kindNames[kind]+" WithBytes", d, func() { t.adopt(d) })
	runtime.ReadMemStats(&after)
	used := after.TotalAlloc - before.TotalAlloc
	c.Check(used <= uint64(1<<18+64*len(d)), "%s: reading %d bytes allocated %d bytes; input %x", kindNames[kind], len(d), used, last2(d))
	c.Max("bytes allocated for a crafted header", float64(used))
	c.Count("allocations measured", 1)
	c.Eval(core.Mix(uint64(kind), core.HashBytes(d)))
}
