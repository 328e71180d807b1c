package main

import (
	"bytes"
	"fmt"
	"runtime/debug"

	"github.com/iand/starbow/internal/bitbucket"
	"github.com/iand/starbow/internal/verifmon/core"
)

func checkBitbucket(r *core.Run) {
	r.Rule = "grid/*: for each width and small number of buckets, every bucket is set and incremented over a range of values between random neighbours; model/*: random sequences of set, increment, reset and reads on buckets of up to 70000 entries, newly made, adopted or restored; large/*: more than 2^31 and 2^32 bits, at positions that could be confused; " +
		"every bucket is compared with an array after each operation or at the end. Non-trivial if a value was capped or a bucket straddled two bytes. Digest: parameters and operations."
	r.Each(8*24, "grid", bbGrid)
	r.Each(6, "large", bbLarge)
	r.Each(r.N(25000, 500000), "model", bbModel)
}

func maxOf(w int) int { return 1<<uint(w) - 1 }

func bbVerify(c *core.Case, b *bitbucket.BitBucket, w int, model []uint8, after string) {
	for j, want := range model {
		if got := b.Get(j); got != want {
			c.Failf("w=%d n=%d: bucket %d holds %d, want %d, after %s", w, len(model), j, got, want, after)
		}
	}
}

func bbSizes(c *core.Case, b *bitbucket.BitBucket, w int, model []uint8) {
	n := len(model)
	c.Check(b.Count() == n, "w=%d n=%d: Count()=%d", w, n, b.Count())
	c.Check(int(b.Width()) == w, "w=%d n=%d: Width()=%d", w, n, b.Width())
	c.Check(int(b.Max()) == maxOf(w), "w=%d n=%d: Max()=%d", w, n, b.Max())
	want := 10 + (n*w+7)/8
	c.Check(b.Len() == want && bitbucket.Len(n, uint8(w)) == want, "w=%d n=%d: Len()=%d, Len(n,w)=%d, want %d", w, n, b.Len(), bitbucket.Len(n, uint8(w)), want)
	var hist [256]int
	for _, v := range model {
		hist[v]++
	}
	for v := 0; v < 256; v++ {
		if v > maxOf(w)+2 && v%37 != 0 && v != 255 || n > 3000 && v > 4 && v != maxOf(w) {
			continue
		}
		if got := b.CountN(uint8(v)); got != hist[v] {
			c.Failf("w=%d n=%d: CountN(%d)=%d, want %d", w, n, v, got, hist[v])
		}
	}
}

func bbGrid(c *core.Case, i int) {
	rng := c.Rng
	w, n := 1+i%8, 1+i/8
	for j := 0; j < n; j++ {
		b := bitbucket.New(n, uint8(w))
		model := make([]uint8, n)
		for k := range model {
			model[k] = uint8(rng.Intn(maxOf(w) + 1))
			b.Set(k, model[k])
		}
		bbVerify(c, &b, w, model, "filling")
		vals := []int{0, 1, maxOf(w) - 1, maxOf(w), maxOf(w) + 1, 127, 128, 254, 255}
		for k := 0; k < 12; k++ {
			vals = append(vals, rng.Intn(256))
		}
		for _, v := range vals {
			v &= 255
			b.Set(j, uint8(v))
			model[j] = uint8(v)
			if v > maxOf(w) {
				model[j] = uint8(maxOf(w))
			}
			bbVerify(c, &b, w, model, fmt.Sprintf("Set(%d,%d)", j, v))
			for _, d := range vals {
				d &= 255
				old := int(model[j])
				b.IncN(j, uint8(d))
				if old+d > maxOf(w) {
					model[j] = uint8(maxOf(w))
				} else {
					model[j] = uint8(old + d)
				}
				bbVerify(c, &b, w, model, fmt.Sprintf("IncN(%d,%d) of %d", j, d, old))
				b.Set(j, uint8(v))
				model[j] = uint8(v)
				if v > maxOf(w) {
					model[j] = uint8(maxOf(w))
				}
			}
			c.Eval(core.Mix(uint64(w), uint64(n), uint64(j), uint64(v)))
		}
		c.Count("set and increment operations", len(vals)*(2*len(vals)+1))
	}
}

func bbModel(c *core.Case, i int) {
	rng := c.Rng
	w := 1 + i%8
	n := rng.Range(0, 40)
	switch rng.Intn(8) {
	case 0:
		n = rng.Range(1, 1000)
	case 1:
		n = rng.PickInt(7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1023, 1024)
	case 2:
		if rng.P(0.15) {
			n = rng.PickInt(1<<13, 1<<16, 65535, 70000)
		}
	}
	b := bitbucket.New(n, uint8(w))
	model := make([]uint8, n)
	if rng.Bool() {
		// what is adopted or restored has something in it
		for k := rng.Range(1, 30); k > 0 && n > 0; k-- {
			j := rng.Intn(n)
			model[j] = uint8(rng.Intn(maxOf(w) + 1))
			b.Set(j, model[j])
		}
	}
	outer := []byte(nil)
	lo := 0
	switch rng.Intn(3) {
	case 1: // adopted from the middle of a larger buffer
		var buf bytes.Buffer
		_, err := b.WriteTo(&buf)
		c.Check(err == nil, "WriteTo: %v", err)
		lo = rng.Range(0, 9)
		outer = append(append(bytes.Repeat([]byte{0x5a}, lo), buf.Bytes()...), bytes.Repeat([]byte{0x5a}, rng.Range(0, 9))...)
		b, err = bitbucket.WithBytes(outer[lo : lo+buf.Len()])
		c.Check(err == nil, "WithBytes: %v", err)
	case 2: // restored
		var buf bytes.Buffer
		b.WriteTo(&buf)
		nb := bitbucket.New(rng.Range(0, 50), uint8(rng.Range(1, 8)))
		for k := 0; k < nb.Count(); k += 2 {
			nb.IncN(k, 77)
		}
		if rng.Bool() {
			nb.Reset()
		}
		_, err := nb.ReadFrom(&buf)
		c.Check(err == nil, "ReadFrom: %v", err)
		b = nb
	}
	digest := core.Mix(uint64(w), uint64(n))
	ops := rng.Range(10, 150)
	if rng.P(0.1) {
		ops = 0
	}
	capped := 0
	for op := 0; op < ops && n > 0; op++ {
		j := rng.Intn(n)
		if rng.P(0.1) {
			j = n - 1
		}
		v := rng.Intn(256)
		if rng.P(0.6) {
			v = rng.Intn(maxOf(w) + 1)
		}
		what := ""
		switch rng.Intn(10) {
		case 0, 1, 2, 3:
			b.Set(j, uint8(v))
			if v > maxOf(w) {
				v = maxOf(w)
				capped++
			}
			model[j] = uint8(v)
			what = fmt.Sprintf("Set(%d,%d)", j, v)
		case 4, 5, 6, 7:
			b.IncN(j, uint8(v))
			s := int(model[j]) + v
			if s > maxOf(w) {
				s = maxOf(w)
				capped++
			}
			model[j] = uint8(s)
			what = fmt.Sprintf("IncN(%d,%d)", j, v)
		case 8:
			c.Check(b.Get(j) == model[j], "w=%d n=%d: Get(%d)=%d, want %d", w, n, j, b.Get(j), model[j])
		case 9:
			if rng.P(0.1) {
				b.Reset()
				for k := range model {
					model[k] = 0
				}
				what = "Reset"
			}
		}
		digest = core.Mix(digest, uint64(j), uint64(v))
		if what != "" && n <= 300 {
			bbVerify(c, &b, w, model, what)
		}
	}
	bbVerify(c, &b, w, model, "all operations")
	bbSizes(c, &b, w, model)
	if outer != nil {
		for k, x := range outer {
			if k < lo || k >= lo+b.Len() {
				c.Check(x == 0x5a, "w=%d n=%d: a byte outside the adopted buffer was changed", w, n)
			}
		}
	}
	b.Reset()
	for k := range model {
		model[k] = 0
	}
	bbVerify(c, &b, w, model, "Reset")
	bbSizes(c, &b, w, model)
	c.Count("model operations", ops)
	if capped > 0 || w != 1 && w != 2 && w != 4 && w != 8 {
		c.Eval(digest)
	} else {
		c.Eval(0)
	}
	if i < 3 {
		c.Sample("model", fmt.Sprintf("w=%d n=%d ops=%d capped=%d adopted=%v", w, n, ops, capped, outer != nil))
	}
}

// bbLarge has so many buckets that the position of a bit does not fit in 32 bits.
func bbLarge(c *core.Case, i int) {
	rng := c.Rng
	w := []int{8, 5, 1, 7, 3, 6}[i%6]
	bits := 1 << 31
	if i >= 3 {
		bits = 1 << 32
	}
	n := bits/w + rng.Range(1000, 100000)
	if w == 1 && i < 3 {
		n = bits + 1000
	}
	b := bitbucket.New(n, uint8(w))
	c.Check(b.Count() == n && b.Len() == 10+(n*w+7)/8, "w=%d n=%d: Count()=%d Len()=%d", w, n, b.Count(), b.Len())
	// positions which are a power of two of bits (or bytes) apart
	var pos []int
	seen := map[int]bool{}
	put := func(j int) {
		if j >= 0 && j < n && !seen[j] {
			seen[j] = true
			pos = append(pos, j)
		}
	}
	for k := 0; k < 40; k++ {
		j := rng.Intn(n)
		if k < 3 {
			j = k
		} else if k < 6 {
			j = n - k + 2
		}
		put(j)
		for e := uint(24); e < 33; e++ {
			for d := -1; d <= 1; d++ {
				put(j + 1<<e/w + d)
				put(j - 1<<e/w + d)
			}
			put(j + 1<<e)
			put(j - 1<<e)
		}
	}
	model := map[int]int{}
	check := func(what string) {
		for _, j := range pos {
			if got := int(b.Get(j)); got != model[j] {
				c.Failf("w=%d n=%d: bucket %d holds %d, want %d, %s", w, n, j, got, model[j], what)
			}
		}
	}
	for k := 0; k < 300; k++ {
		j := pos[rng.Intn(len(pos))]
		v := rng.Intn(maxOf(w) + 1)
		if rng.Bool() {
			b.Set(j, uint8(v))
			model[j] = v
		} else {
			b.IncN(j, uint8(v))
			model[j] += v
			if model[j] > maxOf(w) {
				model[j] = maxOf(w)
			}
		}
		if k%30 == 0 {
			check(fmt.Sprintf("after operations up to one on bucket %d", j))
			c.Tick()
		}
	}
	check("after all operations")
	c.Count("buckets compared in large objects", len(pos))
	c.Eval(core.Mix(uint64(w), uint64(n), uint64(len(pos))))
	b = bitbucket.BitBucket{}
	debug.FreeOSMemory()
}
