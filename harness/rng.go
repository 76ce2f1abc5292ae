package main

// Rng is splitmix64: small, fast and the same everywhere.
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s = r.s*0xbf58476d1ce4e5b9 + p
		r.U64()
	}
	return r
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability p.
func (r *Rng) P(p float64) bool { return float64(r.U64()>>11)/(1<<53) < p }

func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

func pick[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

func shuffle[T any](r *Rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
