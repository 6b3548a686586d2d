package main

// Rng is splitmix64: every choice of a run comes from one of these, seeded from VERIF_SEED and the
// run's number.
type Rng struct{ s uint64 }

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// NewRng derives an independent stream from the given numbers.
func NewRng(parts ...uint64) *Rng {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = mix(s ^ mix(p))
	}
	return &Rng{s}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// N is uniform in [0, n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In is uniform in [a, b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// F is uniform in [0, 1).
func (r *Rng) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Fin is uniform in [a, b).
func (r *Rng) Fin(a, b float64) float64 { return a + (b-a)*r.F() }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.F() < p }

// Sign is -1 or 1.
func (r *Rng) Sign() float64 {
	if r.U64()&1 == 0 {
		return -1
	}
	return 1
}

// Perm is a random permutation.
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func pick[T any](r *Rng, l ...T) T { return l[r.N(len(l))] }

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
