package main

import (
	"math"
	"sync"

	"github.com/iand/starbow/internal/summary/hll"
	"github.com/iand/starbow/internal/verifmon/core"
	"github.com/iand/starbow/internal/verifmon/craft"
)

// unmix inverts the 64-bit finalizer of MurmurHash3.
func unmix(h uint64) uint64 {
	h ^= h >> 33
	h *= 0x9cb4b2f8129337db // inverse of 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	h *= 0x4f74430c22a54005 // inverse of 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

// deepItem is an item that gives register idx of a counter of precision p the value
// rho, if the counter hashes the way it does at present.
func deepItem(rng *core.Rand, p int, idx uint64, rho int) []byte {
	h := idx << uint(64-p)
	if low := 64 - p - rho; low >= 0 {
		h |= 1<<uint(low) | rng.Uint64()&(1<<uint(low)-1)
	}
	for {
		pre := rng.Bytes(rng.Range(0, 6))
		if suf, ok := craft.Suffix(pre, unmix(h)); ok {
			return append(pre, suf...)
		}
	}
}

var deepOnce sync.Once
var deepWorks bool

// deepUsable reports whether crafted items arrive in the registers they are made for.
// Items for one register with the same small value must be counted as one.
func deepUsable(c *core.Case) bool {
	deepOnce.Do(func() {
		rng := core.NewRand(1, "deep")
		deepWorks = true
		for _, p := range []int{4, 9, 14, 18} {
			ct := hll.New(uint8(p))
			for i := 0; i < 40; i++ {
				ct.Add(deepItem(rng, p, 5, 3))
			}
			deepWorks = deepWorks && ct.Count() == 1
		}
	})
	if !deepWorks {
		c.Count("deep cases skipped since crafted items are hashed differently", 1)
	}
	return deepWorks
}

// deepRegister samples the value of a register of a counter that has seen so many
// items per register.
func deepRegister(rng *core.Rand, p int, load float64) int {
	u := rng.Float64()
	for u == 0 {
		u = rng.Float64()
	}
	// the largest of load geometric variables: P(rho <= k) = (1 - 2^-k)^load
	for k := 0; k <= 64-p; k++ {
		if math.Exp(load*math.Log1p(-math.Exp2(-float64(k)))) >= u && k > 0 {
			return k
		}
	}
	return 65 - p
}

// hllDeep gives a counter items that leave it as a much larger number of random items
// would, and checks the estimate of that number.
func hllDeep(c *core.Case, i int) {
	if !deepUsable(c) {
		return
	}
	rng := c.Rng
	p := 4 + i%15
	m := 1 << uint(p)
	lg := 8 + rng.Float64()*float64(58-p-8) // log2 of items per register
	runs := 1
	if m <= 4096 {
		runs = 16384 / m
		if runs > 200 {
			runs = 200
		}
	}
	n := math.Exp2(lg) * float64(m)
	var sum, sq float64
	for t := 0; t < runs; t++ {
		ct := hll.New(uint8(p))
		for _, x := range rng.Perm(m) {
			rho := deepRegister(rng, p, math.Exp2(lg))
			if rng.P(0.1) {
				ct.Add(deepItem(rng, p, uint64(x), rng.Range(1, rho)))
			}
			ct.Add(deepItem(rng, p, uint64(x), rho))
		}
		e := (float64(ct.Count()) - n) / n / sigma(p)
		sum += e
		sq += e * e
		c.Check(math.Abs(e) < 5.5 || p <= 7 && e > 0 && e < 10, "p=%d: registers of %.4g items give the estimate %d, off by %.1f standard errors", p, n, ct.Count(), e)
		c.Tick()
	}
	if runs >= 4 {
		lim := 1.3
		if p < 6 {
			lim = 1.55
		}
		c.Check(math.Abs(sum/float64(runs)) <= 0.35+4.5/math.Sqrt(float64(runs)), "p=%d: registers of %.4g items give estimates off by %.2f standard errors on average", p, n, sum/float64(runs))
		c.Check(math.Sqrt(sq/float64(runs)) <= lim*(1+3/math.Sqrt(2*float64(runs))), "p=%d: registers of %.4g items give estimates with a root mean square error of %.2f standard errors", p, n, math.Sqrt(sq/float64(runs)))
	}
	c.Count("deep estimates checked", runs)
	c.Max("log2 of the largest number of items emulated", math.Log2(n))
	c.Eval(core.Mix(uint64(p), math.Float64bits(lg), math.Float64bits(sum)))
	if i < 3 {
		c.Sample("deep", map[string]interface{}{"precision": p, "items": n, "runs": runs, "mean error in standard errors": sum / float64(runs)})
	}
}
