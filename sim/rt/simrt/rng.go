package simrt

// Rng is splitmix64.
type Rng struct{ s uint64 }

//go:norace
func NewRng(seed uint64) Rng { return Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }

//go:norace
func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

func (r *Rng) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return r.Float() < p }

func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Sub derives an independent generator.
func (r *Rng) Sub() Rng { return NewRng(r.Next()) }
