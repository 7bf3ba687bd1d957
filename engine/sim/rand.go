package sim

// Rand is a small deterministic PRNG (splitmix64). Every random choice of plan
// generation comes from one of these.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }

func mix64(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix64(r.s)
}

// Intn returns a value in [0,n); 0 when n <= 0.
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a,b].
func (r *Rand) Range(a, b int) int { return a + r.Intn(b-a+1) }

// P is true with probability pct/100.
func (r *Rand) P(pct int) bool { return r.Intn(100) < pct }

func Pick[T any](r *Rand, v ...T) T { return v[r.Intn(len(v))] }

// Fork derives an independent stream.
func (r *Rand) Fork() *Rand { return &Rand{mix64(r.U64() ^ 0x5851f42d4c957f2d)} }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix64(h)
}

// SeedFor derives the seed of run idx of a harness from VERIF_SEED.
func SeedFor(verifSeed uint64, harness string, idx uint64) uint64 {
	return mix64(mix64(verifSeed*0x9e3779b97f4a7c15+0x1234567) ^ hashStr(harness) ^ mix64(idx+1))
}

// Weighted returns an index with probability proportional to its weight.
func (r *Rand) Weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.Intn(t)
	for i, x := range w {
		if k -= x; k < 0 {
			return i
		}
	}
	return 0
}
