package main

// Rng is a small deterministic generator (splitmix64). It doesn't depend on the version of Go.
type Rng struct{ s uint64 }

func NewRng(parts ...uint64) *Rng {
	r := &Rng{0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= p
		r.Next()
		r.s = r.s*0x2545f4914f6cdd1d + 0x1234567
	}
	r.Next()
	return r
}

func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in the range 0..n-1
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// P returns true with the given percentage
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

// Range returns a number in lo..hi, inclusive
func (r *Rng) Range(lo, hi int) int { return lo + r.N(hi-lo+1) }

func (r *Rng) Pick(ss []string) string { return ss[r.N(len(ss))] }

// Small returns a number with a heavy tail: mostly small, sometimes up to max
func (r *Rng) Small(max int) int {
	switch x := r.N(20); {
	case x < 6:
		return r.N(2)
	case x < 17:
		return r.N(4)
	case x < 19:
		return r.N(max/2 + 1)
	default:
		return r.N(max + 1)
	}
}

// PickS returns one of the given strings
func (r *Rng) PickS(ss ...string) string { return ss[r.N(len(ss))] }
