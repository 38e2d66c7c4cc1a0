package core

// Rng is the only source of randomness (splitmix64).
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

// Mix derives a seed from several numbers.
func Mix(vs ...uint64) uint64 {
	h := uint64(0x243F6A8885A308D3)
	for _, v := range vs {
		r := Rng{h ^ v}
		h = r.U64() + v*0x9E3779B97F4A7C15
	}
	return h
}

func (r *Rng) U64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a number in [0, n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [lo, hi].
func (r *Rng) In(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.N(hi-lo+1)
}

// P reports true with probability p/100.
func (r *Rng) P(p int) bool { return r.N(100) < p }

// Log returns a number in [1, max], about uniform in its logarithm.
func (r *Rng) Log(max int) int {
	bits := 0
	for 1<<uint(bits) <= max {
		bits++
	}
	n := 1 << uint(r.N(bits))
	v := n + r.N(n)
	if v > max {
		v = max
	}
	return v
}

// Pick returns one of vs.
func Pick[T any](r *Rng, vs ...T) T { return vs[r.N(len(vs))] }

// W returns an index chosen with the given weights.
func (r *Rng) W(ws ...int) int {
	t := 0
	for _, w := range ws {
		t += w
	}
	x := r.N(t)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return len(ws) - 1
}

// Sub derives an independent generator.
func (r *Rng) Sub() *Rng { return NewRng(r.U64()) }
