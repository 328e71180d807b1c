package core

import "math"

// Rand is a small deterministic generator (splitmix64). It is not safe for
// concurrent use; derive one per goroutine with Fork.
type Rand struct{ s uint64 }

// NewRand returns a generator determined by seed and the labels.
func NewRand(seed uint64, labels ...string) *Rand {
	h := seed*0x9e3779b97f4a7c15 + 0x1234567
	for _, l := range labels {
		for i := 0; i < len(l); i++ {
			h = mix64(h ^ uint64(l[i]))
		}
		h = mix64(h + 0x51ed)
	}
	return &Rand{s: h}
}

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix hashes its arguments.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x1bd11bdaa9fc1a22)
	for _, v := range vs {
		h = mix64(h ^ v)
	}
	return h
}

// HashBytes hashes b; it is independent of the hashes under test.
func HashBytes(b []byte) uint64 {
	h := uint64(len(b)) * 0x9e3779b97f4a7c15
	for _, c := range b {
		h = mix64(h ^ uint64(c))
	}
	return h
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Fork derives an independent generator.
func (r *Rand) Fork() *Rand { return &Rand{s: mix64(r.Uint64())} }

func (r *Rand) Intn(n int) int {
	if n <= 0 {
		panic("Intn")
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

func (r *Rand) Bool() bool { return r.Uint64()&1 == 1 }

// P is true with probability p.
func (r *Rand) P(p float64) bool { return r.Float64() < p }

func (r *Rand) Float64() float64 { return float64(r.Uint64()>>11) / (1 << 53) }

// Norm returns a normally distributed number.
func (r *Rand) Norm() float64 {
	u := r.Float64()
	for u == 0 {
		u = r.Float64()
	}
	return math.Sqrt(-2*math.Log(u)) * math.Cos(2*math.Pi*r.Float64())
}

func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint64())
	}
	return b
}

// Text returns n bytes of the alphabet.
func (r *Rand) Text(n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[r.Intn(len(alphabet))]
	}
	return string(b)
}

func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *Rand) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}

// Pick returns one of the strings.
func (r *Rand) Pick(ss ...string) string { return ss[r.Intn(len(ss))] }

// PickInt returns one of the numbers.
func (r *Rand) PickInt(ss ...int) int { return ss[r.Intn(len(ss))] }

// Split cuts n into random positive parts.
func (r *Rand) Split(n, maxPart int) []int {
	var parts []int
	for n > 0 {
		k := r.Range(1, maxPart)
		if k > n {
			k = n
		}
		parts = append(parts, k)
		n -= k
	}
	return parts
}
