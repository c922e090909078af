package ref

// Rng is splitmix64; seeds are drawn from the property library so that runs replay.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *Rng) N(n int) int { return int(r.U64() % uint64(n)) }

var Boundary = []uint64{0, 1, 2, 3, 7, P - 1, P - 2, P - 7, 1<<32 - 1, 1 << 32, 1<<32 + 1, P - 1<<32, P - 1<<32 - 1, P - 1<<32 + 1, 1 << 63, 1<<63 - 1, 1<<62 + 5, P / 2, P/2 + 1, 0xfffffffe00000000, 0xfffffffeffffffff}

// F is uniform, with one in eight values taken from the boundary list.
func (r *Rng) F() uint64 {
	if r.U64()&7 == 0 {
		return Boundary[r.N(len(Boundary))]
	}
	return r.U64() % P
}
func (r *Rng) E() E {
	e := E{r.F(), r.F()}
	if r.U64()&15 == 0 {
		e[1] = 0
	}
	return e
}
func (r *Rng) Es(n int) []E {
	o := make([]E, n)
	for i := range o {
		o[i] = r.E()
	}
	return o
}
func (r *Rng) Fs(n int) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = r.F()
	}
	return o
}
