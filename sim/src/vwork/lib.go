package vwork

import (
	"math"
	"thrift"
)

// maxLib is the number of elements that are put into a container: adding to
// a set takes time in proportion to its size.
const maxLib = 100

// lib is the container of the library that generated code puts what it reads
// into: made from the types and the size in the stream, before anything of
// the contents has arrived.
type lib struct {
	list thrift.TList
	set  thrift.TSet
	m    thrift.TMap
	use  bool
	n    int
}

func newLib(sc *Schema, kt, et thrift.TType, n int) *lib {
	c := &lib{use: n > 0 && plain(sc.ET, et)}
	switch sc.T {
	case thrift.LIST:
		c.list = thrift.NewTList(et, n)
	case thrift.SET:
		c.set = thrift.NewTSet(et, n)
		c.use = c.use && et != thrift.DOUBLE
	case thrift.MAP:
		c.m = thrift.NewTMap(kt, et, n)
		c.use = c.use && plain(sc.KT, kt) && kt != thrift.DOUBLE
	}
	return c
}

// plain tells whether the elements are of a base type that arrives as itself.
func plain(sc *Schema, t thrift.TType) bool {
	switch t {
	case thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I32, thrift.I64, thrift.DOUBLE:
		return sc != nil && byte(t) == sc.T
	case thrift.STRING:
		return sc != nil && sc.T == thrift.STRING && !sc.Bin
	}
	return false
}

func toLib(v *Value) interface{} {
	switch v.T {
	case thrift.BOOL:
		return v.B
	case thrift.BYTE:
		return byte(v.I)
	case thrift.I16:
		return int16(v.I)
	case thrift.I32:
		return int32(v.I)
	case thrift.I64:
		return v.I
	case thrift.DOUBLE:
		return v.D
	}
	return v.S
}

// same tells whether x is what a container has to hold for v, as generated
// code takes it out again: by a type assertion.
func same(v *Value, x interface{}) bool {
	if v.T == thrift.DOUBLE {
		d, ok := x.(float64)
		return ok && (math.Float64bits(d) == math.Float64bits(v.D) || d != d && v.D != v.D)
	}
	return x == toLib(v)
}

func (c *lib) add(k, x *Value) {
	c.n++
	switch {
	case !c.use || c.n > maxLib:
	case c.list != nil:
		c.list.Push(toLib(x))
	case c.set != nil:
		c.set.Add(toLib(x))
	default:
		c.m.Set(toLib(k), toLib(x))
	}
}

// into removes from v what the container does not hold.
func (c *lib) into(v *Value) {
	if !c.use || c.n > maxLib {
		return
	}
	var ks, es []*Value
	distinct := map[interface{}]bool{}
	for i, x := range v.E {
		ok := false
		switch {
		case c.list != nil:
			ok = c.list.Len() == len(v.E) && same(x, c.list.At(i))
		case c.set != nil:
			distinct[toLib(x)] = true
			ok = c.set.Contains(toLib(x))
		default:
			k := toLib(v.K[i])
			distinct[k] = true
			y, found := c.m.Get(k)
			ok = found && same(x, y)
			for j := i + 1; j < len(v.K) && !ok; j++ {
				ok = found && toLib(v.K[j]) == k && same(v.E[j], y)
			}
		}
		if !ok {
			continue
		}
		es = append(es, x)
		if v.K != nil {
			ks = append(ks, v.K[i])
		}
	}
	if c.set != nil && c.set.Len() != len(distinct) || c.m != nil && c.m.Len() != len(distinct) {
		ks, es = nil, nil
	}
	v.K, v.E = ks, es
}

// Liar is a writer that announces another size for one of the containers.
type Liar struct {
	thrift.TProtocol
	At, Size int // the container that is lied about, counting from 0
	N        int // containers written
}

func (p *Liar) size(n int) int {
	p.N++
	if p.N-1 == p.At {
		return p.Size
	}
	return n
}

func (p *Liar) WriteListBegin(t thrift.TType, n int) thrift.TProtocolException {
	return p.TProtocol.WriteListBegin(t, p.size(n))
}

func (p *Liar) WriteSetBegin(t thrift.TType, n int) thrift.TProtocolException {
	return p.TProtocol.WriteSetBegin(t, p.size(n))
}

func (p *Liar) WriteMapBegin(k, v thrift.TType, n int) thrift.TProtocolException {
	return p.TProtocol.WriteMapBegin(k, v, p.size(n))
}

// Lie encodes m with another size announced for one of its containers.
func Lie(proto int, m *Message, at, size int) ([]byte, error) {
	buf := thrift.NewTMemoryBuffer()
	p := &Liar{TProtocol: Factory(proto).GetProtocol(buf), At: at, Size: size}
	if e := WriteMessage(p, m); e != nil {
		return nil, e
	}
	e := p.Flush()
	return append([]byte(nil), buf.Bytes()...), e
}
