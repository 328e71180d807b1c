package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/iand/starbow/internal/stats"
	"github.com/iand/starbow/internal/summary/stat64"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/exact"
)

func checkNumerics(r *core.Run) {
	r.Rule = "seq/*: random sequences of values of many shapes (offsets up to 1e15 times the spread, tiny, huge, alternating, constant) fed to a summary singly and in groups, checked at random points against exact arithmetic; several summaries side by side in one buffer; reset and reuse; batch functions. long/*: up to 2^25, and twice more than 2^32, values. " +
		"Non-trivial if there are at least three values that are not all equal. Digest: count and results."
	r.Assum = []string{"tolerance: 8 n eps times the condition-scaled magnitude (sum of absolute values for sums and means; S + |x| sqrt(S) for the sum of squared differences S), plus second order terms"}
	r.Each(r.N(8000, 150000), "seq", numSeq)
	r.Each(8, "long", numLong)
}

func checkSummary(c *core.Case, s stat64.Summary, vals []float64, what string) {
	e := exact.Of(vals)
	c.Check(s.Count() == uint64(len(vals)), "%s: count %d, want %d", what, s.Count(), len(vals))
	c.Check(e.SumOK(s.Sum()), "%s of %d values: sum %v, want %v", what, len(vals), s.Sum(), e.Sum())
	if len(vals) > 0 {
		c.Check(e.MeanOK(s.Mean()), "%s of %d values: mean %v, want %v", what, len(vals), s.Mean(), e.Mean())
	}
	v := s.Variance()
	if len(vals) < 2 {
		c.Check(math.IsNaN(v), "%s: variance of %d values is %v, want not a number", what, len(vals), v)
	} else {
		c.Check(v >= 0, "%s of %d values: variance %v", what, len(vals), v)
		c.Check(e.VarOK(v), "%s of %d values: variance %v, want %v (tolerance %v)", what, len(vals), v, e.Var(), e.VarTol())
	}
}

func numSeq(c *core.Case, i int) {
	rng := c.Rng
	n := rng.Range(0, 60)
	switch rng.Intn(6) {
	case 0:
		n = rng.Range(0, 3)
	case 1:
		n = rng.Range(60, 1500)
	}
	shape, vals := exact.Values(rng, n)
	// three summaries side by side; the outer two must not change
	l := stat64.Len()
	pad := rng.Range(0, 5)
	buf := make([]byte, 3*l+2*pad)
	for j := range buf {
		buf[j] = 0xa7
	}
	mid := buf[l+pad : l+pad+l+pad]
	stat64.Reset(mid)
	s := stat64.WithBytes(mid)
	own := stat64.New()
	c.Check(own.Len() == l, "Len() differs: %d and %d", own.Len(), l)
	pos := 0
	digest := uint64(n)
	groups := 0
	for pos < n {
		k := rng.Range(1, 8)
		if rng.P(0.2) {
			k = rng.Range(0, 200)
		}
		if pos+k > n {
			k = n - pos
		}
		part := append([]float64(nil), vals[pos:pos+k]...)
		switch rng.Intn(3) {
		case 0:
			for _, v := range part {
				s.Update(v)
			}
		default:
			s.UpdateMulti(part)
			groups++
			for j := range part {
				c.Check(part[j] == vals[pos+j], "UpdateMulti changed its argument")
			}
		}
		for _, v := range part {
			own.Update(v)
		}
		pos += k
		if rng.P(0.1) {
			checkSummary(c, s, vals[:pos], "summary ("+shape+")")
			// state lives in the buffer: another summary over it goes on
			s = stat64.WithBytes(mid)
		}
		if rng.P(0.05) {
			moved := append([]byte(nil), mid...)
			s = stat64.WithBytes(mid)
			checkSummary(c, stat64.WithBytes(moved), vals[:pos], "copied summary ("+shape+")")
		}
	}
	checkSummary(c, s, vals, "grouped summary ("+shape+")")
	checkSummary(c, own, vals, "summary ("+shape+")")
	for j, b := range buf {
		if j < l+pad || j >= l+pad+l {
			if j >= l+pad && j < l+pad+l+pad {
				continue
			}
			c.Check(b == 0xa7, "a byte outside the summary's buffer was changed")
		}
	}
	// batch functions
	mean, variance := stats.Meanvar(vals)
	sum := stats.Sum(vals)
	e := exact.Of(vals)
	c.Check(e.SumOK(sum), "Sum of %d values (%s) is %v, want %v", n, shape, sum, e.Sum())
	switch {
	case n == 0:
		c.Check(math.IsNaN(mean) && math.IsNaN(variance), "Meanvar of no values: %v, %v", mean, variance)
	case n == 1:
		c.Check(mean == vals[0] && math.IsNaN(variance), "Meanvar of %v: %v, %v", vals, mean, variance)
	default:
		c.Check(e.MeanOK(mean), "Meanvar of %d values (%s): mean %v, want %v", n, shape, mean, e.Mean())
		c.Check(e.VarOK(variance) && variance >= 0, "Meanvar of %d values (%s): variance %v, want %v", n, shape, variance, e.Var())
	}
	// a reset summary behaves as new
	if rng.Bool() {
		c.Check(own.Reset() == nil, "Reset failed")
	} else {
		c.Check(stat64.Reset(own) == nil, "Reset failed")
	}
	checkSummary(c, own, nil, "reset summary")
	_, more := exact.Values(rng, rng.Range(1, 30))
	fresh := stat64.New()
	for _, v := range more {
		own.Update(v)
		fresh.Update(v)
	}
	checkSummary(c, own, more, "reused summary")
	c.Check(own.Sum() == fresh.Sum() && own.Mean() == fresh.Mean() && own.Count() == fresh.Count(), "reset summary differs from a new one")
	c.Count("values", n)
	c.Count("groups", groups)
	if n > 2 && e.Var() != 0 {
		c.Eval(core.Mix(digest, math.Float64bits(s.Sum()), math.Float64bits(s.Variance())))
	} else {
		c.Eval(0)
	}
	if i < 4 {
		c.Sample("seq", fmt.Sprintf("%s n=%d sum=%v mean=%v var=%v (exact %v)", shape, n, s.Sum(), s.Mean(), s.Variance(), e.Var()))
	}
}

// numLong feeds a periodic sequence whose statistics are known in closed form.
func numLong(c *core.Case, i int) {
	rng := c.Rng
	total := uint64(1)<<24 + uint64(rng.Intn(1<<24))
	if i >= 6 { // more than 32 bits can count
		total = uint64(1)<<32 + uint64(rng.Intn(1<<20))
	}
	period := 64
	off := []float64{0, 1, 1e6, -1e9, 0.1, 1e12, 3}[i%7]
	block := make([]float64, period)
	for j := range block {
		block[j] = off + float64(rng.Range(-1000, 1000))/8
	}
	size := rng.PickInt(1<<10, 1<<16, 1<<17+64, 1<<20) // a multiple of the period
	chunk := make([]float64, 0, size+64)
	for len(chunk) < size {
		chunk = append(chunk, block...)
	}
	s := stat64.New()
	var n uint64
	single := rng.Bool() && total < 1<<26
	for n < total {
		k := uint64(len(chunk))
		if n+k > total {
			k = total - n
		}
		// the last of more than 2^32 are given singly in one case, in groups in the other
		if single || i == 7 && n > 1<<32-1<<20 {
			for _, v := range chunk[:k] {
				s.Update(v)
			}
		} else {
			s.UpdateMulti(chunk[:k])
		}
		if n>>22 != (n+k)>>22 {

			c.Tick()
		}
		n += k
	}
	c.Check(s.Count() == total, "count %d, want %d", s.Count(), total)
	// exact results: q whole periods and r more values
	q, r := total/uint64(period), total%uint64(period)
	prec := uint(400)
	sum, sq := new(big.Float).SetPrec(prec), new(big.Float).SetPrec(prec)
	add := func(v float64, times uint64) {
		b := new(big.Float).SetPrec(prec).SetFloat64(v)
		t := new(big.Float).SetPrec(prec).SetUint64(times)
		sum.Add(sum, new(big.Float).SetPrec(prec).Mul(b, t))
		b2 := new(big.Float).SetPrec(prec).Mul(b, b)
		sq.Add(sq, b2.Mul(b2, t))
	}
	for j, v := range block {
		t := q
		if uint64(j) < r {
			t++
		}
		add(v, t)
	}
	nf := new(big.Float).SetPrec(prec).SetUint64(total)
	mean := new(big.Float).SetPrec(prec).Quo(sum, nf)
	m2 := new(big.Float).SetPrec(prec).Mul(mean, sum)
	ss := new(big.Float).SetPrec(prec).Sub(sq, m2)
	va := new(big.Float).SetPrec(prec).Quo(ss, new(big.Float).SetPrec(prec).SetUint64(total-1))
	wsum, _ := sum.Float64()
	wmean, _ := mean.Float64()
	wvar, _ := va.Float64()
	scale := math.Abs(off) + 130
	c.Check(math.Abs(s.Sum()-wsum) <= 1e-16*float64(total)*float64(total)*scale*4 && math.Abs(s.Sum()-wsum) <= 1e-6*float64(total)*scale, "%d values near %v: sum %v, want %v", total, off, s.Sum(), wsum)
	c.Check(math.Abs(s.Mean()-wmean) <= 1e-7*scale, "%d values near %v: mean %v, want %v", total, off, s.Mean(), wmean)
	vt := 1e-5 * wvar
	if scale > 1e7 {
		vt = wvar * 2e-2 * scale / 1e12
		if vt < 1e-4*wvar {
			vt = 1e-4 * wvar
		}
	}
	c.Check(math.Abs(s.Variance()-wvar) <= vt, "%d values near %v: variance %v, want %v", total, off, s.Variance(), wvar)
	c.Max("relative variance error of a long sequence", math.Abs(s.Variance()-wvar)/wvar)
	c.Count("values in long sequences", int(total))
	c.Eval(core.Mix(total, math.Float64bits(s.Sum())))
	c.Sample("long", fmt.Sprintf("%d values near %v: mean %v (exact %v), variance %v (exact %v)", total, off, s.Mean(), wmean, s.Variance(), wvar))
}
