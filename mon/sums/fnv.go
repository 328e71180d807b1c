package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"hash"
	stdfnv "hash/fnv"

	"github.com/iand/starbow/internal/hash/fnv"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkFnv(r *core.Run) {
	r.Rule = "oneshot/*: Sum64, Sum64a, String64, String64a of random data; stream/*: random mixes of Write, WriteByte, WriteString and WriteUint64 with sums taken in between, resets, several hashes interleaved; all compared with hash/fnv of the standard library. " +
		"Non-trivial if at least two different write operations were used. Digest: data."
	r.Each(r.N(100000, 2000000), "oneshot", fnvOne)
	r.Each(r.N(60000, 1000000), "stream", fnvStream)
}

func someBytes(rng *core.Rand) []byte {
	n := rng.Range(0, 40)
	switch rng.Intn(8) {
	case 0:
		n = rng.Range(0, 3)
	case 1:
		n = rng.Range(40, 2000)
	case 2:
		if rng.P(0.05) {
			n = rng.Range(10000, 200000)
		}
	}
	switch rng.Intn(4) {
	case 0:
		return bytes.Repeat([]byte{byte(rng.PickInt(0, 1, 0x7f, 0x80, 0xff))}, n)
	case 1:
		return []byte(rng.Text(n, "abcdefghijklmnopqrstuvwxyz é\x80\xff\x00"))
	}
	return rng.Bytes(n)
}

func std(data []byte) (uint64, uint64) {
	a, b := stdfnv.New64(), stdfnv.New64a()
	a.Write(data)
	b.Write(data)
	return a.Sum64(), b.Sum64()
}

func fnvOne(c *core.Case, i int) {
	d := someBytes(c.Rng)
	if i < 256 {
		d = []byte{byte(i)}
	}
	orig := append([]byte(nil), d...)
	w1, w1a := std(d)
	c.Check(fnv.Sum64(d) == w1, "Sum64(%q) = %x, want %x", d, fnv.Sum64(d), w1)
	c.Check(fnv.Sum64a(d) == w1a, "Sum64a(%q) = %x, want %x", d, fnv.Sum64a(d), w1a)
	c.Check(fnv.String64(string(d)) == w1, "String64(%q) = %x, want %x", d, fnv.String64(string(d)), w1)
	c.Check(fnv.String64a(string(d)) == w1a, "String64a(%q) = %x, want %x", d, fnv.String64a(string(d)), w1a)
	c.Check(bytes.Equal(d, orig), "hashing changed the data")
	if len(d) > 0 {
		c.Eval(core.HashBytes(d))
	} else {
		c.Eval(0)
	}
}

type streamer interface {
	hash.Hash64
	WriteByte(b byte) error
	WriteString(s string) (int, error)
	WriteUint64(n uint64)
}

func fnvStream(c *core.Case, i int) {
	rng := c.Rng
	type pair struct {
		name string
		h    streamer
		ref  hash.Hash64
		data []byte
	}
	var ps []*pair
	for n := rng.Range(1, 3); n > 0; n-- {
		ps = append(ps, &pair{name: "FNV-1", h: fnv.New64(), ref: stdfnv.New64()}, &pair{name: "FNV-1a", h: fnv.New64a(), ref: stdfnv.New64a()})
	}
	kinds := map[int]bool{}
	digest := uint64(0)
	check := func(p *pair) {
		w := p.ref.Sum64()
		c.Check(p.h.Sum64() == w, "%s of %d bytes: Sum64 %x, want %x (last bytes %x)", p.name, len(p.data), p.h.Sum64(), w, last(p.data))
		buf := rng.Bytes(rng.Range(0, 20))
		pre := append([]byte(nil), buf...)
		if rng.Bool() {
			buf = append(make([]byte, 0, 64), buf...)
		}
		got := p.h.Sum(buf)
		var be [8]byte
		binary.BigEndian.PutUint64(be[:], w)
		c.Check(bytes.Equal(got, append(pre, be[:]...)), "%s: Sum(%x) = %x, want %x appended", p.name, pre, got, be)
		c.Check(p.h.Sum64() == w, "%s: taking a sum changed the state", p.name)
		c.Check(p.h.Size() == 8 && p.h.BlockSize() == 1, "%s: size %d, block size %d", p.name, p.h.Size(), p.h.BlockSize())
	}
	for op := rng.Range(1, 40); op > 0; op-- {
		p := ps[rng.Intn(len(ps))]
		var d []byte
		k := rng.Intn(6)
		kinds[k] = true
		switch k {
		case 0:
			d = someBytes(rng)
			n, err := p.h.Write(d)
			c.Check(n == len(d) && err == nil, "%s: Write of %d bytes returned %d, %v", p.name, len(d), n, err)
		case 1:
			d = []byte{byte(rng.Uint64())}
			c.Check(p.h.WriteByte(d[0]) == nil, "%s: WriteByte failed", p.name)
		case 2:
			d = someBytes(rng)
			n, err := p.h.WriteString(string(d))
			c.Check(n == len(d) && err == nil, "%s: WriteString of %d bytes returned %d, %v", p.name, len(d), n, err)
		case 3:
			v := rng.Uint64()
			switch rng.Intn(4) {
			case 0:
				v >>= uint(rng.Intn(64))
			case 1:
				v <<= uint(rng.Intn(64))
			case 2:
				v = 0xff << uint(8*rng.Intn(8))
			}
			d = make([]byte, 8)
			binary.BigEndian.PutUint64(d, v)
			p.h.WriteUint64(v)
		case 4:
			check(p)
		case 5:
			if rng.P(0.15) {
				p.h.Reset()
				p.ref.Reset()
				p.data = nil
			}
		}
		p.ref.Write(d)
		p.data = append(p.data, d...)
		digest = core.Mix(digest, core.HashBytes(d), uint64(k))
	}
	for _, p := range ps {
		check(p)
	}
	c.Count("streams compared", len(ps))
	if len(kinds) > 1 {
		c.Eval(digest)
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("stream", fmt.Sprintf("%s after %d bytes: %x", ps[0].name, len(ps[0].data), ps[0].h.Sum64()))
	}
}

func last(b []byte) []byte {
	if len(b) > 24 {
		return b[len(b)-24:]
	}
	return b
}
