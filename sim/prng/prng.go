// Package prng is the only source of randomness in the simulator: a
// xoshiro256** generator seeded through splitmix64, stable across Go versions.
package prng

type R struct{ s [4]uint64 }

func splitmix(x *uint64) uint64 {
	*x += 0x9E3779B97F4A7C15
	z := *x
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix hashes any number of integers into one seed.
func Mix(v ...uint64) uint64 {
	var h uint64 = 0x243F6A8885A308D3
	for _, x := range v {
		h ^= x
		h = splitmix(&h)
	}
	return h
}

// HashString is FNV-1a, for deriving seeds from names.
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func New(seed uint64) *R {
	r := &R{}
	for i := range r.s {
		r.s[i] = splitmix(&seed)
	}
	return r
}

func rotl(x uint64, k uint) uint64 { return (x << k) | (x >> (64 - k)) }

func (r *R) Uint64() uint64 {
	s := &r.s
	res := rotl(s[1]*5, 7) * 9
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = rotl(s[3], 45)
	return res
}

// Intn returns a value in [0,n); n must be positive.
func (r *R) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *R) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// P is true with probability num/den.
func (r *R) P(num, den int) bool { return r.Intn(den) < num }

// Geom returns a value >= 1, geometric-ish with the given mean.
func (r *R) Geom(mean int) int {
	n := 1
	for n < mean*8 && !r.P(1, mean) {
		n++
	}
	return n
}

func Pick[T any](r *R, xs []T) T { return xs[r.Intn(len(xs))] }

// Weighted picks an index with the given weights.
func (r *R) Weighted(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func (r *R) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
