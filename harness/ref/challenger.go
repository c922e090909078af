package ref

import "github.com/consensys/gnark-crypto/ecc/bn254/fr"

// Challenger is Plonky2's duplex challenger (rate 8, overwrite mode, outputs popped from the end).
type Challenger struct {
	state [12]uint64
	in    []uint64
	out   []uint64
}

func (c *Challenger) Observe(xs ...uint64) {
	for _, x := range xs {
		c.out = nil
		c.in = append(c.in, x)
		if len(c.in) == 8 {
			c.duplex()
		}
	}
}
func (c *Challenger) ObserveHash(h [4]uint64) { c.Observe(h[:]...) }
func (c *Challenger) ObserveBN(h fr.Element)  { c.Observe(ToVec(h)...) }
func (c *Challenger) ObserveCap(cap []fr.Element) {
	for _, h := range cap {
		c.ObserveBN(h)
	}
}
func (c *Challenger) ObserveExt(xs ...E) {
	for _, x := range xs {
		c.Observe(x[0], x[1])
	}
}
func (c *Challenger) duplex() {
	for i, x := range c.in {
		c.state[i] = x
	}
	c.in = nil
	c.state = PoseidonGL(c.state)
	c.out = append([]uint64(nil), c.state[:8]...)
}
func (c *Challenger) Get() uint64 {
	if len(c.in) > 0 || len(c.out) == 0 {
		c.duplex()
	}
	x := c.out[len(c.out)-1]
	c.out = c.out[:len(c.out)-1]
	return x
}
func (c *Challenger) GetN(n int) []uint64 {
	out := make([]uint64, n)
	for i := range out {
		out[i] = c.Get()
	}
	return out
}
func (c *Challenger) GetExt() E {
	a := c.Get()
	return E{a, c.Get()}
}

// Clone copies the challenger so that a proof-of-work grinder can try witnesses.
func (c *Challenger) Clone() *Challenger {
	d := *c
	d.in = append([]uint64(nil), c.in...)
	d.out = append([]uint64(nil), c.out...)
	return &d
}
