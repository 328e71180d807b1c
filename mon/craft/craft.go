// Package craft makes byte strings with a chosen FNV-1 hash.
package craft

import "math"

const (
	prime  = 0x100000001b3
	offset = 0xcbf29ce484222325
	tail   = 20
)

// basis is a reduced basis of the vectors d with sum d[i]*prime^(tail-1-i) = 0 mod 2^64.
var basis = [tail][tail]int64{
	{1, -1, 2, 2, 0, -1, 0, 5, -4, 2, 2, 3, -1, 1, -2, 0, 1, 0, -1, -5},
	{4, -3, -1, -1, 4, 1, -5, 0, 6, -1, -3, 1, 1, 1, -3, 2, -4, -1, 1, 1},
	{-3, 1, -4, 2, -2, -4, 1, 3, -1, 4, 3, -4, -5, 1, -1, 1, 3, -3, 1, -1},
	{-2, 1, 2, 1, -5, -1, 3, 1, 2, 0, -2, -4, -4, 1, 3, 5, 4, 2, -2, -3},
	{4, -4, 0, -3, 4, 2, -2, -1, 3, -7, 0, -5, 2, -1, -3, 4, 3, 4, -2, 0},
	{0, 2, 0, 1, 3, -2, 0, -1, -6, -5, -1, -3, 5, 1, 2, -6, 4, 5, 2, 5},
	{3, -1, -2, 5, -1, 4, 1, -2, -1, -2, -2, -7, 0, -2, 2, -2, 4, 4, 2, 1},
	{-3, 5, 1, -4, -7, 0, 1, 1, -4, 2, 2, 1, -4, 2, 2, 4, -6, 0, -4, -1},
	{3, -1, 3, 2, -5, 3, -2, 3, 0, -2, 1, 4, 0, 2, 1, 5, -2, 5, 1, 3},
	{2, -3, 1, -6, 2, 4, -4, -5, 0, 3, 0, -1, 3, 1, -7, -3, -1, 3, -4, -1},
	{5, -1, 3, -1, 1, -2, -3, -2, 2, 6, -9, 3, 6, 0, 1, -2, 0, -1, -2, 4},
	{-3, 0, -1, 2, -3, 1, 5, -1, -1, -1, 1, 3, 2, 0, -2, 3, -8, -5, 4, 0},
	{3, 1, 5, -1, -2, -6, 6, -2, -2, 2, -3, -3, -1, 2, 4, 1, -5, 1, -1, 1},
	{3, 0, -1, 2, -3, 2, 6, 0, 0, 3, 3, -1, 2, 1, 6, 3, -7, -2, -4, 1},
	{-4, -2, 3, -2, 3, 2, -2, 1, -4, 3, -1, -2, -7, 1, 0, -3, 2, 3, 2, -1},
	{-5, -1, -1, -2, 1, -1, 0, 3, -4, -3, 2, -4, 0, 7, -3, -6, 3, -2, -4, 2},
	{-3, -4, 7, 0, -3, 2, 0, -1, -1, 4, 7, 1, -2, 6, 3, -2, 1, -2, 1, -2},
	{1, -1, -1, 8, -1, -3, 4, -6, 4, 0, -3, 0, -5, -3, -1, 0, -2, -5, -1, 1},
	{-3, 1, 3, 1, -2, -3, -9, 2, -1, 0, 1, 1, -2, -1, -1, 0, -6, -2, 1, 2},
	{-1, -5, 0, -3, 3, -4, 1, 2, -3, -5, 0, 2, 1, 0, 2, 0, -3, 3, 0, -6},
}

var inverse [tail][tail]float64

func init() {
	var a [tail][2 * tail]float64
	for i := range basis {
		for j := range basis[i] {
			a[i][j] = float64(basis[i][j])
		}
		a[i][tail+i] = 1
	}
	for i := 0; i < tail; i++ {
		p := i
		for r := i; r < tail; r++ {
			if math.Abs(a[r][i]) > math.Abs(a[p][i]) {
				p = r
			}
		}
		a[i], a[p] = a[p], a[i]
		f := a[i][i]
		for j := range a[i] {
			a[i][j] /= f
		}
		for r := 0; r < tail; r++ {
			if r != i && a[r][i] != 0 {
				f := a[r][i]
				for j := range a[r] {
					a[r][j] -= f * a[i][j]
				}
			}
		}
	}
	for i := range inverse {
		copy(inverse[i][:], a[i][tail:])
	}
}

// Hash is the FNV-1 hash of b.
func Hash(b []byte) uint64 { return extend(offset, b) }

func extend(h uint64, b []byte) uint64 {
	for _, c := range b {
		h = h*prime ^ uint64(c)
	}
	return h
}

// Suffix returns bytes that, appended to prefix, make a string with the FNV-1 hash
// want. It fails for some prefixes.
func Suffix(prefix []byte, want uint64) ([]byte, bool) {
	h := extend(offset, prefix)
	end := h
	for i := 0; i < tail; i++ {
		end *= prime
	}
	// Each step multiplies by the prime and then replaces the low byte, which adds a
	// small number d[i]. Look for small numbers whose sum, each multiplied by its
	// power of the prime, is the difference to the wanted hash.
	var d [tail]int64
	d[tail-1] = int64(want - end)
	for round := 0; round < 3; round++ {
		var coef [tail]int64
		for j := range coef {
			s := 0.0
			for i := range d {
				s += float64(d[i]) * inverse[i][j]
			}
			coef[j] = int64(math.Round(s))
		}
		for j, k := range coef {
			if k != 0 {
				for i := range d {
					d[i] -= k * basis[j][i]
				}
			}
		}
	}
	out := make([]byte, tail)
	for i := range d {
		x := h * prime
		low := int64(x&0xff) + d[i]
		if low < 0 || low > 255 {
			return nil, false
		}
		out[i] = byte(x) ^ byte(low)
		h = x ^ uint64(out[i])
	}
	return out, h == want
}
