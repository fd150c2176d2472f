// Package vsim is the deterministic simulator: one seeded choice sequence
// decides every interleaving, delay and fault of a run.
package vsim

// Choices is the single source of nondeterminism of a run.  Every decision is
// a Draw(n) in [0,n); 0 is always the simplest outcome (no fault, no
// preemption, no split).  In generate mode draws come from a PRNG and are
// recorded; in replay mode they come from a recorded sequence (then zeros).
type Choices struct {
	Seq    []uint32
	pos    int
	replay bool
	s0, s1 uint64
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix derives a run seed from a master seed, a label and an index.
func Mix(seed uint64, label string, idx uint64) uint64 {
	x := seed
	h := splitmix(&x)
	for i := 0; i < len(label); i++ {
		x ^= uint64(label[i]) + h
		h = splitmix(&x)
	}
	x ^= idx * 0xd1342543de82ef95
	splitmix(&x)
	return splitmix(&x)
}

func NewChoices(seed uint64) *Choices {
	c := &Choices{}
	x := seed
	c.s0 = splitmix(&x)
	c.s1 = splitmix(&x)
	return c
}

func ReplayChoices(seq []uint32) *Choices {
	return &Choices{Seq: append([]uint32(nil), seq...), replay: true}
}

func (c *Choices) next() uint64 { // xoroshiro128+
	s0, s1 := c.s0, c.s1
	r := s0 + s1
	s1 ^= s0
	c.s0 = (s0<<24 | s0>>40) ^ s1 ^ (s1 << 16)
	c.s1 = s1<<37 | s1>>27
	return r >> 11
}

func (c *Choices) Draw(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if c.replay {
		if c.pos < len(c.Seq) {
			v = c.Seq[c.pos] % uint32(n)
			c.Seq[c.pos] = v
		} else {
			v = 0
		}
		c.pos++
		return int(v)
	}
	v = uint32(c.next() % uint64(n))
	c.Seq = append(c.Seq, v)
	c.pos++
	return int(v)
}

// Used returns the choices actually consumed, trailing zeros dropped.
func (c *Choices) Used() []uint32 {
	n := c.pos
	if n > len(c.Seq) {
		n = len(c.Seq)
	}
	s := c.Seq[:n]
	for len(s) > 0 && s[len(s)-1] == 0 {
		s = s[:len(s)-1]
	}
	return append([]uint32(nil), s...)
}

func (c *Choices) Count() int { return c.pos }
