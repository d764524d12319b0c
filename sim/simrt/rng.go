package simrt

// RNG is splitmix64; the only source of randomness in the simulator.
type RNG struct{ s uint64 }

//go:norace
func NewRNG(seed uint64) RNG { return RNG{s: seed} }

//go:norace
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a value in [0,n).
//
//go:norace
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *RNG) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

//go:norace
func (r *RNG) Chance(p float64) bool { return r.Float() < p }

//go:norace
func Mix(a ...uint64) uint64 {
	h := uint64(0x8f1bbcdcbfa53e0b)
	for _, x := range a {
		h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
		r := RNG{s: h}
		h = r.U64()
	}
	return h
}
