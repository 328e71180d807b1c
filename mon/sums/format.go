package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"io"
	"math/bits"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/summary/bloom"
	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/verifmon/core"
)

// This file has an implementation of version 1 of the stored forms of its own, with which
// the bytes written and the objects read are compared.

func checkFormat(r *core.Run) {
	r.Rule = "random bit buckets, bloom filters and unique counters are compared with an implementation of the stored form (version 1) of the monitor's own: the bytes written after random operations must be those it predicts, and what it writes, read or adopted, must have the contents it was made of and go on like it. " +
		"Non-trivial if at least one item or value was stored. Digest: bytes stored."
	r.Assum = []string{"version 1 of the stored form is the one of the pinned commit with its repairs"}
	r.Each(r.N(4000, 60000), "bits", formatBits)
	r.Each(r.N(3000, 40000), "bloom", formatBloom)
	r.Each(r.N(400, 4000), "hll", formatHll)
}

// refBits is the stored form of a bit bucket: version, width, number of buckets, and the
// buckets one after another from the highest bit of the first byte on.
type refBits struct {
	n, w int
	v    []byte
}

func newRefBits(n, w int) *refBits { return &refBits{n, w, make([]byte, n)} }

func (b *refBits) bytes() []byte {
	out := make([]byte, 10+(b.n*b.w+7)/8)
	out[0], out[1] = 1, byte(b.w)
	binary.LittleEndian.PutUint64(out[2:], uint64(b.n))
	for i, v := range b.v {
		for k := 0; k < b.w; k++ {
			if v>>(b.w-1-k)&1 == 1 {
				at := i*b.w + k
				out[10+at/8] |= 0x80 >> (at % 8)
			}
		}
	}
	return out
}

func scramble(h uint64) uint64 {
	for _, m := range [2]uint64{0xff51afd7ed558ccd, 0xc4ceb9fe1a85ec53} {
		h = (h ^ h>>33) * m
	}
	return h ^ h>>33
}

func hash1(v []byte) uint64 {
	h := fnv.New64()
	h.Write(v)
	return h.Sum64()
}

func hash1a(v []byte) uint64 {
	h := fnv.New64a()
	h.Write(v)
	return h.Sum64()
}

type refBloom struct {
	*refBits
	k int
}

func (b *refBloom) probes(v []byte) (ps []int) {
	x, d := scramble(hash1(v)), scramble(hash1a(v))
	for i := 0; i < b.k; i++ {
		ps = append(ps, int(scramble(x+uint64(i)*d)%uint64(b.n)))
	}
	return
}

func (b *refBloom) add(v []byte) {
	for _, p := range b.probes(v) {
		b.v[p] = 1
	}
}

func (b *refBloom) has(v []byte) bool {
	for _, p := range b.probes(v) {
		if b.v[p] == 0 {
			return false
		}
	}
	return true
}

func (b *refBloom) bytes() []byte { return append([]byte{1, byte(b.k)}, b.refBits.bytes()...) }

type refHll struct {
	*refBits
	p int
}

func (b *refHll) add(v []byte) {
	h := scramble(hash1(v))
	i := int(h >> (64 - b.p))
	rho := bits.LeadingZeros64(h<<b.p) + 1
	if rho > 65-b.p {
		rho = 65 - b.p
	}
	if byte(rho) > b.v[i] {
		b.v[i] = byte(rho)
	}
}

func (b *refHll) bytes() []byte { return append([]byte{1, byte(b.p)}, b.refBits.bytes()...) }

func written(c *core.Case, o io.WriterTo) []byte {
	var b bytes.Buffer
	_, err := o.WriteTo(&b)
	c.Check(err == nil, "WriteTo: %v", err)
	return b.Bytes()
}

func compareStored(c *core.Case, got, want []byte, what string) {
	if bytes.Equal(got, want) {
		return
	}
	at := 0
	for at < len(got) && at < len(want) && got[at] == want[at] {
		at++
	}
	end := func(b []byte) []byte {
		if at > len(b) {
			return nil
		}
		b = b[at:]
		if len(b) > 16 {
			b = b[:16]
		}
		return b
	}
	c.Failf("%s: the stored form has %d bytes, %d are expected; from byte %d on it is %x, %x is expected", what, len(got), len(want), at, end(got), end(want))
}

func formatBits(c *core.Case, i int) {
	rng := c.Rng
	w, n := rng.Range(1, 8), rng.PickInt(0, 1, 2, 3, 7, 8, 9, rng.Intn(300), rng.Intn(5000))
	ref := newRefBits(n, w)
	max := byte(1<<w - 1)
	b := bitbucket.New(n, uint8(w))
	what := fmt.Sprintf("bit bucket of %d of %d bits", n, w)
	ops := 0
	work := func() {
		for k := rng.Intn(3*n + 1); k > 0 && n > 0; k-- {
			at, v := rng.Intn(n), byte(rng.Uint64())
			if rng.Bool() {
				v &= max
			}
			if rng.P(0.6) {
				b.Set(at, v)
				ref.v[at] = v
			} else {
				b.IncN(at, v)
				if s := int(ref.v[at]) + int(v); s < 256 {
					ref.v[at] = byte(s)
				} else {
					ref.v[at] = 255
				}
			}
			if ref.v[at] > max {
				ref.v[at] = max
			}
			ops++
		}
		if rng.P(0.05) {
			b.Reset()
			ref.v = make([]byte, n)
		}
	}
	for round := 0; round < rng.Range(1, 4); round++ {
		work()
		want := ref.bytes()
		compareStored(c, written(c, &b), want, what)
		switch rng.Intn(3) {
		case 0:
			var err error
			b, err = bitbucket.WithBytes(want)
			c.Check(err == nil, "%s: its stored form is not adopted: %v", what, err)
		case 1:
			b = bitbucket.BitBucket{}
			_, err := b.ReadFrom(bytes.NewReader(want))
			c.Check(err == nil, "%s: its stored form is not read: %v", what, err)
		}
		c.Check(b.Count() == n && int(b.Width()) == w && b.Len() == len(want), "%s: restored with %d of %d bits, length %d", what, b.Count(), b.Width(), b.Len())
		for k, v := range ref.v {
			c.Check(b.Get(k) == v, "%s: bucket %d is %d after restoring, %d was stored", what, k, b.Get(k), v)
		}
	}
	c.Count("values stored in bit buckets", ops)
	if ops > 0 {
		c.Eval(core.HashBytes(ref.bytes()))
	}
	if i < 3 {
		c.Sample("bits", fmt.Sprintf("%s: %x", what, clipBytes(ref.bytes(), 24)))
	}
}

func clipBytes(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func formatBloom(c *core.Case, i int) {
	rng := c.Rng
	m, k := rng.PickInt(1, 2, 3, 8, 63, 64, 65, rng.Range(1, 3000), rng.Range(1, 20000)), rng.PickInt(1, 2, 3, 7, rng.Intn(30), 255)
	ref := &refBloom{newRefBits(m, 1), k}
	b := bloom.NewBits(m, uint8(k))
	pop := makePopulation(rng, i)
	what := fmt.Sprintf("bloom filter of %d bits and %d hash functions", m, k)
	at, end := 0, rng.PickInt(1, 5, 40, 200)
	for round := 0; round < rng.Range(1, 4); round++ {
		for k := 0; k < end; k++ {
			v := oddItem(rng, pop.item(at))
			at++
			b.Add(v)
			ref.add(v)
		}
		want := ref.bytes()
		compareStored(c, written(c, &b), want, fmt.Sprintf("%s after %d items (%s)", what, at, pop.name))
		switch rng.Intn(3) {
		case 0:
			var err error
			b, err = bloom.WithBytes(want)
			c.Check(err == nil, "%s: its stored form is not adopted: %v", what, err)
		case 1:
			b = bloom.Bloom{}
			_, err := b.ReadFrom(bytes.NewReader(want))
			c.Check(err == nil, "%s: its stored form is not read: %v", what, err)
		}
		for k := 0; k < 2*at+20; k++ {
			v := oddItem(rng, pop.item(k))
			c.Check(b.Has(v) == ref.has(v), "%s: item %q is reported present: %v, but the stored bits say %v", what, v, b.Has(v), ref.has(v))
		}
		c.Count("items looked up", 2*at+20)
	}
	c.Count("items stored in bloom filters", at)
	c.Eval(core.HashBytes(ref.bytes()))
}

// oddItem is v or, seldom, something short that is like nothing.
func oddItem(rng *core.Rand, v []byte) []byte {
	if rng.P(0.03) {
		return [][]byte{nil, {}, {0}, {0, 0}, {' '}, {0xff}}[rng.Intn(6)]
	}
	return v
}

func formatHll(c *core.Case, i int) {
	rng := c.Rng
	p := 4 + i%15
	ref := &refHll{newRefBits(1<<p, 6), p}
	h := hll.New(uint8(p))
	pop := makePopulation(rng, i)
	n := rng.PickInt(0, 1, 2, 20, 1<<p, 3<<p)
	if n > 100000 {
		n = 100000
	}
	if i%numPopulations == longPopulation && n > 2000 {
		n = 2000
	}
	what := fmt.Sprintf("unique counter of precision %d", p)
	at := 0
	for round := 0; round < 2; round++ {
		for k := 0; k < n; k++ {
			v := oddItem(rng, pop.item(at))
			at++
			h.Add(v)
			ref.add(v)
		}
		for k := rng.Intn(20); k > 0; k-- {
			d := deepItem(rng, p, uint64(rng.Intn(1<<p)), rng.Range(1, 65-p))
			h.Add(d)
			ref.add(d)
			c.Count("items with deep hashes", 1)
		}
		want := ref.bytes()
		compareStored(c, written(c, &h), want, fmt.Sprintf("%s after %d items (%s)", what, at, pop.name))
		count := h.Count()
		switch rng.Intn(3) {
		case 0:
			var err error
			h, err = hll.WithBytes(want)
			c.Check(err == nil, "%s: its stored form is not adopted: %v", what, err)
		case 1:
			h = hll.Counter{}
			_, err := h.ReadFrom(bytes.NewReader(want))
			c.Check(err == nil, "%s: its stored form is not read: %v", what, err)
		}
		c.Check(h.Count() == count, "%s: the count is %d after restoring and was %d", what, h.Count(), count)
		compareStored(c, written(c, &h), want, what+" after restoring")
	}
	c.Count("items stored in unique counters", at)
	if at > 0 {
		c.Eval(core.HashBytes(ref.bytes()))
	}
}
