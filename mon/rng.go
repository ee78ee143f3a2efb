package main

// A small deterministic PRNG (splitmix64) so that case lists depend only on
// VERIF_SEED and the property id, never on the Go release's math/rand.

type Rng struct{ s uint64 }

func NewRng(seed int64, label string) *Rng {
	h := uint64(1469598103934665603)
	for i := 0; i < len(label); i++ {
		h ^= uint64(label[i])
		h *= 1099511628211
	}
	r := &Rng{s: h ^ (uint64(seed) * 0x9E3779B97F4A7C15)}
	r.Next()
	return r
}

func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n)
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Range returns a value in [a,b]
func (r *Rng) Range(a, b int) int { return a + r.Intn(b-a+1) }

// Chance returns true with probability p percent
func (r *Rng) Chance(p int) bool { return r.Intn(100) < p }

func (r *Rng) Fork(label string) *Rng { return NewRng(int64(r.Next()>>1), label) }

func pick[T any](r *Rng, xs []T) T { return xs[r.Intn(len(xs))] }

func shuffle[T any](r *Rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
