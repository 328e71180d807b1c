// Package exact computes statistics with arbitrary precision and decides whether
// floating point results are equal to them up to rounding.
package exact

import (
	"math"
	"math/big"
	"sort"

	"github.com/iand/starbow/internal/verifmon/core"
)

const prec = 640

// Stats are the exact statistics of a list of finite values.
type Stats struct {
	N        int
	Min, Max float64
	sum      *big.Float
	abs      float64 // sum of absolute values
	norm     float64 // Euclidean norm
	maxAbs   float64
	mean     *big.Float
	ss       *big.Float // sum of squared differences from the mean
}

func nf() *big.Float { return new(big.Float).SetPrec(prec) }

// Of computes the statistics of vals.
func Of(vals []float64) *Stats {
	s := &Stats{N: len(vals), sum: nf(), mean: nf(), ss: nf(), Min: math.NaN(), Max: math.NaN()}
	if len(vals) == 0 {
		return s
	}
	// add small values first so that nothing is lost at 640 bits
	sorted := append([]float64(nil), vals...)
	sort.Slice(sorted, func(i, j int) bool { return math.Abs(sorted[i]) < math.Abs(sorted[j]) })
	s.Min, s.Max = vals[0], vals[0]
	for _, v := range vals {
		s.Min = math.Min(s.Min, v)
		s.Max = math.Max(s.Max, v)
	}
	s.maxAbs = math.Abs(sorted[len(sorted)-1])
	q := 0.0
	for _, v := range sorted {
		s.sum.Add(s.sum, nf().SetFloat64(v))
		s.abs += math.Abs(v)
		if s.maxAbs > 0 {
			q += (v / s.maxAbs) * (v / s.maxAbs)
		}
	}
	s.norm = s.maxAbs * math.Sqrt(q)
	s.mean.Quo(s.sum, nf().SetInt64(int64(len(vals))))
	for _, v := range sorted {
		d := nf().Sub(nf().SetFloat64(v), s.mean)
		s.ss.Add(s.ss, d.Mul(d, d))
	}
	return s
}

const eps = 2.3e-16
const tiny = 1e-300

func (s *Stats) f(b *big.Float) float64 { v, _ := b.Float64(); return v }

// Sum is the exact sum, rounded.
func (s *Stats) Sum() float64 { return s.f(s.sum) }

// Mean is the exact mean, rounded.
func (s *Stats) Mean() float64 { return s.f(s.mean) }

// Var is the exact sample variance, rounded.
func (s *Stats) Var() float64 {
	if s.N < 2 {
		return math.NaN()
	}
	return s.f(nf().Quo(s.ss, nf().SetInt64(int64(s.N-1))))
}

func diff(got float64, want *big.Float) float64 {
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return math.Inf(1)
	}
	d, _ := nf().Sub(nf().SetFloat64(got), want).Float64()
	return math.Abs(d)
}

// SumOK reports whether got is the sum up to rounding.
func (s *Stats) SumOK(got float64) bool {
	if s.N == 0 {
		return got == 0
	}
	return diff(got, s.sum) <= (4+float64(s.N))*eps*s.abs+tiny
}

// MeanOK reports whether got is the mean up to rounding.
func (s *Stats) MeanOK(got float64) bool {
	// A running mean has an error of at most a few eps times the largest value per step,
	// damped by the count.
	n := float64(s.N)
	return diff(got, s.mean) <= eps*(8*math.Sqrt(n)+8+2*math.Log(n+1))*s.maxAbs+(4+n)*eps*s.abs/n+tiny
}

// VarTol is the largest acceptable error of the variance.
func (s *Stats) VarTol() float64 {
	n := float64(s.N)
	S := s.f(s.ss)
	t := 8 * n * eps * (S + s.norm*math.Sqrt(S))
	second := 4 * eps * s.maxAbs * math.Sqrt(n)
	t += n * second * second * 16
	return (t+tiny)/(n-1) + tiny
}

// VarOK reports whether got is the sample variance up to rounding.
func (s *Stats) VarOK(got float64) bool {
	if s.N < 2 {
		return math.IsNaN(got)
	}
	return diff(got, nf().Quo(s.ss, nf().SetInt64(int64(s.N-1)))) <= s.VarTol()
}

// Values makes n values of a random shape.
func Values(rng *core.Rand, n int) (string, []float64) {
	v := make([]float64, n)
	fill := func(f func(i int) float64) {
		for i := range v {
			v[i] = f(i)
		}
	}
	switch rng.Intn(16) {
	case 0:
		fill(func(int) float64 { return float64(rng.Range(-50, 50)) })
		return "small integers", v
	case 1:
		fill(func(int) float64 { return -1 - 1000*rng.Float64() })
		return "negative", v
	case 2:
		fill(func(int) float64 { return rng.Norm() })
		return "normal", v
	case 3:
		o := math.Pow(10, float64(rng.Range(3, 13)))
		fill(func(int) float64 { return o + rng.Norm() })
		return "large offset", v
	case 4:
		o := -math.Pow(10, float64(rng.Range(3, 15)))
		fill(func(int) float64 { return o + float64(rng.Range(0, 9)) })
		return "large negative offset", v
	case 5:
		s := math.Pow(10, -float64(rng.Range(5, 120)))
		fill(func(int) float64 { return rng.Norm() * s })
		return "tiny", v
	case 6:
		s := math.Pow(10, float64(rng.Range(20, 140)))
		fill(func(int) float64 { return rng.Norm() * s })
		return "huge", v
	case 7:
		fill(func(int) float64 { return math.Pow(10, float64(rng.Range(-30, 30))) * (rng.Float64() - 0.5) })
		return "mixed magnitudes", v
	case 8:
		x := rng.Norm() * math.Pow(10, float64(rng.Range(-10, 10)))
		fill(func(int) float64 { return x })
		return "constant", v
	case 9:
		a, b := rng.Norm()*1000, rng.Norm()*1000
		fill(func(i int) float64 {
			if i%2 == 0 {
				return a
			}
			return b
		})
		return "alternating", v
	case 10:
		x := rng.Norm() * 1e6
		fill(func(i int) float64 { return x + float64(i)/7 })
		return "rising", v
	case 11:
		x := rng.Norm() * 1e6
		fill(func(i int) float64 { return x - float64(i)*1.3 })
		return "falling", v
	case 12:
		fill(func(i int) float64 {
			if rng.P(0.1) {
				return 1e9 * rng.Norm()
			}
			return rng.Float64()
		})
		return "outliers", v
	case 13:
		o := math.Pow(10, float64(rng.Range(3, 12)))
		fill(func(int) float64 { return rng.Norm() })
		if n > 0 {
			v[rng.PickInt(0, 0, n-1, rng.Intn(n))] += o
		}
		return "one distant value", v
	case 14:
		d := rng.Range(15, 22)
		fill(func(int) float64 { return math.Trunc(math.Pow(10, float64(d)) * (0.1 + 0.9*rng.Float64())) })
		return "large whole numbers", v
	}
	fill(func(int) float64 {
		return []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e-9, -1e9, 0.1}[rng.Intn(8)]
	})
	return "zeros and special values", v
}
