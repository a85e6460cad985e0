// Package prng is the only source of randomness in the simulator.
package prng

// R is a splitmix64 generator.
type R struct{ s uint64 }

// New seeds a generator.
func New(seed uint64) *R { return &R{seed} }

// Mix combines values into one seed.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x51ed270b9f3c4d21)
	for _, v := range vs {
		h = fin(h ^ v*0x9e3779b97f4a7c15)
	}
	return h
}

// MixS folds a string into a seed.
func MixS(seed uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		seed = fin(seed ^ uint64(s[i])*0x9e3779b97f4a7c15)
	}
	return seed
}

func fin(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// U64 returns 64 random bits.
func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo,hi].
func (r *R) In(lo, hi int) int { return lo + r.N(hi-lo+1) }

// P is true with probability num/den.
func (r *R) P(num, den int) bool { return r.N(den) < num }

// Log returns a number in [0,n) with roughly log-uniform magnitude.
func (r *R) Log(n int) int {
	if n <= 1 {
		return 0
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	v := r.N(1 << r.In(0, bits))
	if v >= n {
		v = r.N(n)
	}
	return v
}

// U16 returns 16 random bits, biased to corner values.
func (r *R) U16() uint16 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return 0xffff
	case 2:
		return 0x8000
	case 3:
		return uint16(r.N(4))
	}
	return uint16(r.U64())
}

// Bytes returns n random bytes.
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 13)
	}
	return b
}

// Pick returns a random element.
func Pick[T any](r *R, xs ...T) T { return xs[r.N(len(xs))] }

// Shuffle permutes xs.
func Shuffle[T any](r *R, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
