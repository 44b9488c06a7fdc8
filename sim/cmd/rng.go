package main

// Rng is the only source of choices: splitmix64.
type Rng struct{ s uint64 }

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	x ^= x >> 31
	return x
}

func NewRng(parts ...uint64) *Rng {
	s := uint64(0x9e3779b97f4a7c15)
	for _, p := range parts {
		s = mix(s ^ p + 0x9e3779b97f4a7c15)
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

// N returns a value in [0, n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// R returns a value in [a, b].
func (r *Rng) R(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability a/b.
func (r *Rng) P(a, b int) bool { return r.N(b) < a }

func pick[T any](r *Rng, l ...T) T { return l[r.N(len(l))] }

// Small returns a value in [lo, hi], mostly near lo.
func (r *Rng) Small(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	n := hi - lo
	k := r.R(1, bits(n)+1)
	m := 1<<k - 1
	if m > n {
		m = n
	}
	return lo + r.N(m+1)
}

func bits(n int) int {
	b := 0
	for n > 0 {
		b++
		n >>= 1
	}
	return b
}
