// Package vwork is the workload: value trees written and read through the
// public protocol API the way generated code does it, an RPC client and
// processor on top, and the stacks (transport x protocol x server) they run on.
package vwork

import (
	"fmt"
	"io"
	"math"
	"strings"
	"thrift"
	"vsim"
)

// Value is a thrift value of any type.
type Value struct {
	T    byte // thrift type id
	Bin  bool // STRING read and written as binary
	BT   bool // and declared as thrift.BINARY, as generated code does
	B    bool
	I    int64 // BYTE, I16, I32, I64
	D    float64
	S    string
	Name string   // struct name
	F    []Field  // STRUCT
	KT   *Schema  // MAP key
	ET   *Schema  // LIST/SET element, MAP value
	K    []*Value // MAP keys
	E    []*Value // elements / map values
	raw  []byte   // STRING read as binary: the slice that was returned
}

type Field struct {
	ID   int16
	Name string
	V    *Value
}

// Schema is what a reader knows about a value.
type Schema struct {
	T      byte
	Bin    bool
	BT     bool // thrift.BINARY
	Fields []SField
	KT, ET *Schema
}

type SField struct {
	ID   int16
	Name string
	S    *Schema
}

func TypeName(t byte) string {
	switch t {
	case thrift.BOOL:
		return "bool"
	case thrift.BYTE:
		return "byte"
	case thrift.I16:
		return "i16"
	case thrift.I32:
		return "i32"
	case thrift.I64:
		return "i64"
	case thrift.DOUBLE:
		return "double"
	case thrift.STRING:
		return "string"
	case thrift.STRUCT:
		return "struct"
	case thrift.MAP:
		return "map"
	case thrift.SET:
		return "set"
	case thrift.LIST:
		return "list"
	}
	return fmt.Sprint("type", t)
}

// String renders a value compactly.
func (v *Value) String() string {
	var b strings.Builder
	v.str(&b, 600)
	return b.String()
}

func (v *Value) str(b *strings.Builder, max int) {
	if v == nil {
		b.WriteString("<nil>")
		return
	}
	if b.Len() > max {
		b.WriteString("~")
		return
	}
	switch v.T {
	case thrift.BOOL:
		fmt.Fprint(b, v.B)
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		fmt.Fprintf(b, "%s:%d", TypeName(v.T), v.I)
	case thrift.DOUBLE:
		fmt.Fprintf(b, "%g", v.D)
	case thrift.STRING:
		s := v.S
		if len(s) > 40 {
			s = fmt.Sprintf("%s...(%d)", s[:40], len(v.S))
		}
		if v.Bin {
			fmt.Fprintf(b, "x%q", s)
		} else {
			fmt.Fprintf(b, "%q", s)
		}
	case thrift.STRUCT:
		b.WriteString("{")
		for i, f := range v.F {
			if i > 0 {
				b.WriteString(" ")
			}
			fmt.Fprintf(b, "%d:", f.ID)
			f.V.str(b, max)
		}
		b.WriteString("}")
	case thrift.LIST, thrift.SET:
		fmt.Fprintf(b, "%s<%s>[", TypeName(v.T), TypeName(v.ET.T))
		for i, e := range v.E {
			if i > 0 {
				b.WriteString(" ")
			}
			e.str(b, max)
		}
		b.WriteString("]")
	case thrift.MAP:
		fmt.Fprintf(b, "map<%s,%s>[", TypeName(v.KT.T), TypeName(v.ET.T))
		for i := range v.E {
			if i > 0 {
				b.WriteString(" ")
			}
			v.K[i].str(b, max)
			b.WriteString("=")
			v.E[i].str(b, max)
		}
		b.WriteString("]")
	}
}

// Equal compares; all NaNs are equal, and so are both zeros when jsonNum.
func Equal(a, b *Value, json bool) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.T != b.T {
		return false
	}
	switch a.T {
	case thrift.BOOL:
		return a.B == b.B
	case thrift.BYTE, thrift.I16, thrift.I32, thrift.I64:
		return a.I == b.I
	case thrift.DOUBLE:
		if math.IsNaN(a.D) || math.IsNaN(b.D) {
			return math.IsNaN(a.D) && math.IsNaN(b.D)
		}
		if json {
			return a.D == b.D
		}
		return math.Float64bits(a.D) == math.Float64bits(b.D)
	case thrift.STRING:
		// the slice a protocol returned stays as it was returned
		if a.raw != nil && string(a.raw) != a.S || b.raw != nil && string(b.raw) != b.S {
			return false
		}
		return a.S == b.S
	case thrift.STRUCT:
		if len(a.F) != len(b.F) {
			return false
		}
		for i := range a.F {
			if a.F[i].ID != b.F[i].ID || !Equal(a.F[i].V, b.F[i].V, json) {
				return false
			}
		}
		return true
	default:
		if len(a.E) != len(b.E) || len(a.K) != len(b.K) {
			return false
		}
		for i := range a.E {
			if !Equal(a.E[i], b.E[i], json) {
				return false
			}
		}
		for i := range a.K {
			if !Equal(a.K[i], b.K[i], json) {
				return false
			}
		}
		return true
	}
}

// SchemaOf is the schema a reader of v would have.
func SchemaOf(v *Value) *Schema {
	s := &Schema{T: v.T, Bin: v.Bin, BT: v.BT, KT: v.KT, ET: v.ET}
	for _, f := range v.F {
		s.Fields = append(s.Fields, SField{f.ID, f.Name, SchemaOf(f.V)})
	}
	return s
}

// Gen describes what to generate.
type Gen struct {
	S     *vsim.Sim
	JSON  bool // strings must be valid UTF-8
	Depth int
	Big   int  // permille chance of a large string
	Huge  bool // large strings are very large
	many  int  // elements in large containers so far
	left  int  // remaining size budget
}

var i64s = []int64{0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, 16383, 16384, 32767, -32768,
	1 << 20, 1<<21 - 1, -(1 << 20), 1<<28 - 1, 1 << 28, 2147483647, -2147483648, 1 << 34, 1 << 35, -(1 << 41), 1<<49 + 5, 1 << 55, 1 << 56, -(1 << 62), 1<<63 - 1, -1 << 63,
	9007199254740993, -9007199254740993, 1234567890123456789}

var doubles = []float64{0, 1, -1, 0.5, -2.25, 3.141592653589793, 1e10, 1e-10, 1e300, -1e300, 5e-324, 1.7976931348623157e308,
	math.Inf(1), math.Inf(-1), math.NaN(), 123456789.125, 1e21, -1e-7, 100, 1e15}

var strs = []string{"", "a", "null", "true", "}", "]", "\"", "\\", "\\\"", "a\"b", "\\\\", "x\\", "line\nfeed", "tab\t\r", "\u0000\u0001\u001f", "é", "日本語", "😀", "\u2028<>&",
	"[1,\"a\",{}", "{\"1\":2}", ",:,:", "NaN", "-Infinity", "0", "0123456789abcdef0123456789abcdef", "end\\\\\"", "\"quoted\""}

func (g *Gen) Str() string {
	s := g.S
	switch s.Draw(4) {
	case 0, 1:
		return strs[s.Draw(len(strs))]
	case 2:
		n := s.Draw(3)
		var b strings.Builder
		for i := 0; i <= n; i++ {
			b.WriteString(strs[s.Draw(len(strs))])
		}
		return b.String()
	}
	n := s.Size(200)
	if g.Big > 0 && s.Flip(g.Big) {
		n = g.bigSize()
	}
	x := byte(s.Draw(95))
	b := make([]byte, n)
	for i := range b {
		b[i] = ' ' + (x+byte(i*7))%95
	}
	return string(b)
}

var bigs = []int{1023, 1024, 4095, 4096, 4097, 8192, 16383, 16384, 32767, 32768, 65535, 65536, 70000}

var huges = []int{65535, 65536, 65537, 98304, 131071, 131072, 131073, 196608, 196609, 262143, 262144, 327680, 393216, 524288}

func (g *Gen) bigSize() int {
	if g.Huge {
		switch g.S.Draw(4) {
		case 1, 2:
			return huges[g.S.Draw(len(huges))]
		case 3:
			if g.S.Draw(40) == 39 {
				return 1<<20 + g.S.Draw(1<<20)
			}
			return g.S.Range(20000, 300000)
		}
	}
	if g.S.Draw(3) == 2 {
		return bigs[g.S.Draw(len(bigs))]
	}
	return g.S.Range(1000, 20000)
}

func (g *Gen) Bin() string {
	s := g.S
	n := s.Size(100)
	if g.Big > 0 && s.Flip(g.Big) {
		n = g.bigSize()
	}
	b := make([]byte, n)
	x := byte(s.Draw(256))
	m := byte(s.Draw(4)*2 + 1)
	for i := range b {
		b[i] = x + byte(i)*m
	}
	return string(b)
}

func (g *Gen) typ(depth int) byte {
	leaf := []byte{thrift.I32, thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I64, thrift.DOUBLE, thrift.STRING, thrift.STRING}
	if depth <= 0 || g.left <= 0 {
		return leaf[g.S.Draw(len(leaf))]
	}
	all := append(leaf, thrift.STRUCT, thrift.LIST, thrift.MAP, thrift.SET, thrift.STRUCT, thrift.LIST)
	return all[g.S.Draw(len(all))]
}

// Sch generates a schema.
func (g *Gen) Sch(depth int) *Schema {
	s := &Schema{T: g.typ(depth)}
	switch s.T {
	case thrift.STRING:
		s.Bin = g.S.Draw(3) == 2
		s.BT = s.Bin && g.S.Draw(2) == 1
	case thrift.LIST, thrift.SET:
		s.ET = g.Sch(depth - 1)
	case thrift.MAP:
		s.KT = g.Sch(0)
		if g.S.Draw(8) == 7 && depth > 1 {
			s.KT = g.Sch(depth - 1)
		}
		s.ET = g.Sch(depth - 1)
	case thrift.STRUCT:
		s.Fields = g.fields(depth)
	}
	return s
}

func (g *Gen) fields(depth int) (out []SField) {
	n := g.S.Draw(5)
	if g.S.Draw(12) == 11 {
		n += g.S.Draw(20)
		if g.Huge && g.S.Draw(4) == 3 {
			n = []int{70, 130, 260, 600}[g.S.Draw(4)]
			depth = min(depth, 1)
		}
	}
	id := int16(0)
	for i := 0; i < n; i++ {
		switch g.S.Draw(8) {
		default:
			id++
		case 5:
			id += int16(1 + g.S.Draw(20))
		case 6:
			id += int16(15 + g.S.Draw(2))
		case 7:
			if n < 70 {
				id = int16(g.S.Draw(32767))
			}
		}
		if id <= 0 {
			id = 1
		}
		if g.S.Draw(40) == 39 {
			id = -id // implicit ids of old IDL files
		}
		dup := false
		for _, f := range out {
			if f.ID == id {
				dup = true
			}
		}
		if dup {
			continue
		}
		out = append(out, SField{id, fmt.Sprintf("f%d", id), g.Sch(depth - 1)})
	}
	return
}

// Val generates a value of a schema.
func (g *Gen) Val(sc *Schema) *Value {
	s := g.S
	g.left--
	v := &Value{T: sc.T, Bin: sc.Bin, BT: sc.BT, KT: sc.KT, ET: sc.ET}
	switch sc.T {
	case thrift.BOOL:
		v.B = s.Draw(2) == 1
	case thrift.BYTE:
		v.I = int64(byte(i64s[s.Draw(len(i64s))]))
	case thrift.I16:
		v.I = int64(int16(i64s[s.Draw(len(i64s))]))
	case thrift.I32:
		v.I = int64(int32(i64s[s.Draw(len(i64s))]))
		if s.Draw(4) == 3 {
			v.I = int64(int32(s.Draw(1<<30)*4) + int32(s.Draw(4)))
		}
	case thrift.I64:
		v.I = i64s[s.Draw(len(i64s))]
		if s.Draw(4) == 3 {
			v.I = int64(s.Draw(1<<31))<<33 | int64(s.Draw(1<<31))<<2 | int64(s.Draw(4))
		}
	case thrift.DOUBLE:
		v.D = doubles[s.Draw(len(doubles))]
		if s.Draw(4) == 3 {
			v.D = float64(s.Draw(1<<31)-1<<30) / float64(1+s.Draw(1000))
		}
	case thrift.STRING:
		if sc.Bin {
			v.S = g.Bin()
		} else {
			v.S = g.Str()
			if !g.JSON && s.Draw(10) == 9 {
				v.S = g.Bin()
			}
		}
	case thrift.STRUCT:
		v.Name = "S"
		for _, f := range sc.Fields {
			if s.Draw(6) == 5 {
				continue // unset optional field
			}
			v.F = append(v.F, Field{f.ID, f.Name, g.Val(f.S)})
		}
	case thrift.LIST, thrift.SET, thrift.MAP:
		n := s.Draw(4)
		if s.Draw(6) == 5 {
			n = 12 + s.Draw(6)
		}
		if g.left <= 0 {
			n = s.Draw(2)
		} else if g.Depth > 0 && leafType(sc.ET.T) && (sc.KT == nil || leafType(sc.KT.T)) && s.Draw(24) == 23 {
			n = []int{100, 127, 128, 129, 200, 255, 256, 257, 300}[s.Draw(9)]
		}
		m := n
		if g.Huge && leafType(sc.ET.T) && (sc.KT == nil || leafType(sc.KT.T)) && s.Draw(12) == 11 {
			m = 1 + s.Draw(40)
			n = []int{1000, 1024, 4096, 5000, 16384, 16385, 32767, 32768, 40000, 65535, 65536, 70000}[s.Draw(12)]
			if g.many+n > 100000 {
				n = 400
			}
			g.many += n
		}
		for i := 0; i < n; i++ {
			if i >= m { // large containers repeat their elements
				if sc.T == thrift.MAP {
					v.K = append(v.K, v.K[i-m])
				}
				v.E = append(v.E, v.E[i-m])
				continue
			}
			if sc.T == thrift.MAP {
				v.K = append(v.K, g.Val(sc.KT))
			}
			v.E = append(v.E, g.Val(sc.ET))
		}
	}
	return v
}

func leafType(t byte) bool { return t >= thrift.BOOL && t <= thrift.I64 }

// chain nests containers around a schema.
func (g *Gen) chain(in *Schema, n int) *Schema {
	for i := 0; i < n; i++ {
		switch g.S.Draw(5) {
		default:
			o := &Schema{T: thrift.STRUCT}
			if g.S.Draw(3) == 2 {
				o.Fields = append(o.Fields, SField{1, "a", &Schema{T: thrift.I32}})
			}
			o.Fields = append(o.Fields, SField{int16(2 + g.S.Draw(20)), "in", in})
			if g.S.Draw(2) == 1 {
				o.Fields = append(o.Fields, SField{30, "b", &Schema{T: []byte{thrift.BOOL, thrift.STRING, thrift.I64}[g.S.Draw(3)]}})
			}
			in = o
		case 2:
			in = &Schema{T: thrift.LIST, ET: in}
		case 3:
			in = &Schema{T: thrift.SET, ET: in}
		case 4:
			in = &Schema{T: thrift.MAP, KT: &Schema{T: thrift.I32}, ET: in}
		}
	}
	return in
}

func has(fs []SField, id int16) bool {
	for _, f := range fs {
		if f.ID == id {
			return true
		}
	}
	return false
}

// Struct generates a struct value with its full schema.
func (g *Gen) Struct() (*Value, *Schema) {
	g.left = 60
	if g.S.Draw(12) == 11 {
		// one small container, so that every byte of it is hit often
		k := []byte{thrift.LIST, thrift.SET, thrift.MAP}[g.S.Draw(3)]
		f := &Schema{T: k, ET: &Schema{T: []byte{thrift.BYTE, thrift.BOOL, thrift.I64, thrift.STRUCT, thrift.STRING}[g.S.Draw(5)]}}
		if k == thrift.MAP {
			f.KT = &Schema{T: []byte{thrift.BYTE, thrift.STRING}[g.S.Draw(2)]}
		}
		sc := &Schema{T: thrift.STRUCT, Fields: []SField{{int16(1 + g.S.Draw(20)), "f", f}}}
		return g.Val(sc), sc
	}
	d := g.Depth
	if d == 0 {
		d = 3
	}
	sc := &Schema{T: thrift.STRUCT, Fields: g.fields(d)}
	if g.S.Draw(30) == 29 && !has(sc.Fields, 32767) { // deep
		sc.Fields = append(sc.Fields, SField{32767, "deep", g.chain(g.Sch(1), 3+g.S.Draw(28))})
	}
	return g.Val(sc), sc
}

// ---- writing, as generated code does ----

// declared is the type that is given to the protocol.
func declared(t byte, bin bool) thrift.TType {
	if t == thrift.STRING && bin {
		return thrift.BINARY
	}
	return thrift.TType(t)
}

func (sc *Schema) declared() thrift.TType { return declared(sc.T, sc.BT) }

// is reports whether a type that was read is the schema's. A binary value may
// be called binary or string.
func (sc *Schema) is(t thrift.TType) bool {
	return byte(t) == sc.T || sc.Bin && t == thrift.BINARY
}

type fromReader interface {
	WriteBinaryFromReader(r io.Reader, size int) thrift.TProtocolException
}

func Write(p thrift.TProtocol, v *Value) error {
	switch v.T {
	case thrift.BOOL:
		return er(p.WriteBool(v.B))
	case thrift.BYTE:
		return er(p.WriteByte(byte(v.I)))
	case thrift.I16:
		return er(p.WriteI16(int16(v.I)))
	case thrift.I32:
		return er(p.WriteI32(int32(v.I)))
	case thrift.I64:
		return er(p.WriteI64(v.I))
	case thrift.DOUBLE:
		return er(p.WriteDouble(v.D))
	case thrift.STRING:
		if v.Bin {
			b := []byte(v.S)
			// the binary protocol also takes a value from a reader
			if w, ok := p.(fromReader); ok && vsim.Cur() != nil && vsim.S.Draw(3) == 2 {
				return er(w.WriteBinaryFromReader(&Chunks{S: vsim.S, B: b, Max: -7, Zero: 100, EOFWith: vsim.S.Draw(2) == 1}, len(b)))
			}
			err := er(p.WriteBinary(b))
			for i := range b { // the caller uses its buffer for something else
				b[i] = 0xA5
			}
			return err
		}
		return er(p.WriteString(v.S))
	case thrift.STRUCT:
		if e := er(p.WriteStructBegin(v.Name)); e != nil {
			return e
		}
		for _, f := range v.F {
			if e := er(p.WriteFieldBegin(f.Name, declared(f.V.T, f.V.BT), f.ID)); e != nil {
				return e
			}
			if e := Write(p, f.V); e != nil {
				return e
			}
			if e := er(p.WriteFieldEnd()); e != nil {
				return e
			}
		}
		if e := er(p.WriteFieldStop()); e != nil {
			return e
		}
		return er(p.WriteStructEnd())
	case thrift.LIST:
		if e := er(p.WriteListBegin(v.ET.declared(), len(v.E))); e != nil {
			return e
		}
		for _, x := range v.E {
			if e := Write(p, x); e != nil {
				return e
			}
		}
		return er(p.WriteListEnd())
	case thrift.SET:
		if e := er(p.WriteSetBegin(v.ET.declared(), len(v.E))); e != nil {
			return e
		}
		for _, x := range v.E {
			if e := Write(p, x); e != nil {
				return e
			}
		}
		return er(p.WriteSetEnd())
	case thrift.MAP:
		if e := er(p.WriteMapBegin(v.KT.declared(), v.ET.declared(), len(v.E))); e != nil {
			return e
		}
		for i := range v.E {
			if e := Write(p, v.K[i]); e != nil {
				return e
			}
			if e := Write(p, v.E[i]); e != nil {
				return e
			}
		}
		return er(p.WriteMapEnd())
	}
	return fmt.Errorf("vwork: cannot write type %d", v.T)
}

// er turns the library's exception interfaces into a plain error without
// making a nil interface non-nil.
func er(e thrift.TProtocolException) error {
	if e == nil {
		return nil
	}
	return e
}

// SchemaError is what the reader reports when the stream decodes to something
// that contradicts its schema.
type SchemaError string

func (e SchemaError) Error() string { return string(e) }

// Reader reads values; Known may restrict the fields it knows.
type Reader struct {
	P       thrift.TProtocol
	Skipped int
	// Partial is called for every leaf value read, before any later error.
	OnLeaf func(*Value)
	Limit  int // total number of elements tolerated (0 = unlimited)
	n      int
}

func (r *Reader) count() error {
	r.n++
	if r.Limit > 0 && r.n > r.Limit {
		return SchemaError("element limit of the test reader")
	}
	return nil
}

func (r *Reader) leaf(v *Value, e thrift.TProtocolException) (*Value, error) {
	if e != nil {
		return nil, e
	}
	if r.OnLeaf != nil {
		r.OnLeaf(v)
	}
	return v, nil
}

func (r *Reader) Read(sc *Schema) (*Value, error) {
	p := r.P
	if e := r.count(); e != nil {
		return nil, e
	}
	v := &Value{T: sc.T, Bin: sc.Bin, BT: sc.BT, KT: sc.KT, ET: sc.ET}
	switch sc.T {
	case thrift.BOOL:
		b, e := p.ReadBool()
		v.B = b
		return r.leaf(v, e)
	case thrift.BYTE:
		b, e := p.ReadByte()
		v.I = int64(b)
		return r.leaf(v, e)
	case thrift.I16:
		x, e := p.ReadI16()
		v.I = int64(x)
		return r.leaf(v, e)
	case thrift.I32:
		x, e := p.ReadI32()
		v.I = int64(x)
		return r.leaf(v, e)
	case thrift.I64:
		x, e := p.ReadI64()
		v.I = x
		return r.leaf(v, e)
	case thrift.DOUBLE:
		x, e := p.ReadDouble()
		v.D = x
		return r.leaf(v, e)
	case thrift.STRING:
		if sc.Bin {
			b, e := p.ReadBinary()
			v.S, v.raw = string(b), b
			return r.leaf(v, e)
		}
		s, e := p.ReadString()
		v.S = s
		return r.leaf(v, e)
	case thrift.STRUCT:
		v.Name = "S"
		if _, e := p.ReadStructBegin(); e != nil {
			return nil, e
		}
		for {
			name, t, id, e := p.ReadFieldBegin()
			if e != nil {
				return nil, e
			}
			if t == thrift.STOP {
				break
			}
			if e := r.count(); e != nil {
				return nil, e
			}
			var f *SField
			for i := range sc.Fields {
				if (t == thrift.GENERIC && id < 0 && sc.Fields[i].Name == name) || (t != thrift.GENERIC && sc.Fields[i].ID == id) {
					f = &sc.Fields[i]
					break
				}
			}
			if f == nil || (!f.S.is(t) && t != thrift.GENERIC) {
				r.Skipped++
				if e := p.Skip(t); e != nil {
					return nil, e
				}
			} else {
				x, e := r.Read(f.S)
				if e != nil {
					return nil, e
				}
				v.F = append(v.F, Field{f.ID, f.Name, x})
			}
			if e := p.ReadFieldEnd(); e != nil {
				return nil, e
			}
		}
		if e := p.ReadStructEnd(); e != nil {
			return nil, e
		}
		return v, nil
	case thrift.LIST, thrift.SET:
		var et thrift.TType
		var n int
		var e thrift.TProtocolException
		if sc.T == thrift.LIST {
			et, n, e = p.ReadListBegin()
		} else {
			et, n, e = p.ReadSetBegin()
		}
		if e != nil {
			return nil, e
		}
		c := newLib(sc, thrift.STOP, et, n)
		if n < 0 {
			return nil, SchemaError(fmt.Sprintf("negative element count %d", n))
		}
		if n > 0 && !sc.ET.is(et) {
			return nil, SchemaError(fmt.Sprintf("element type %d, want %d", et, sc.ET.T))
		}
		for i := 0; i < n; i++ {
			x, e := r.Read(sc.ET)
			if e != nil {
				return nil, e
			}
			v.E = append(v.E, x)
			c.add(nil, x)
		}
		if sc.T == thrift.LIST {
			e = p.ReadListEnd()
		} else {
			e = p.ReadSetEnd()
		}
		if e != nil {
			return nil, e
		}
		c.into(v)
		return v, nil
	case thrift.MAP:
		kt, et, n, e := p.ReadMapBegin()
		if e != nil {
			return nil, e
		}
		c := newLib(sc, kt, et, n)
		if n < 0 {
			return nil, SchemaError(fmt.Sprintf("negative map size %d", n))
		}
		if n > 0 && (!sc.ET.is(et) || !sc.KT.is(kt)) {
			return nil, SchemaError(fmt.Sprintf("map types %d,%d, want %d,%d", kt, et, sc.KT.T, sc.ET.T))
		}
		for i := 0; i < n; i++ {
			k, e := r.Read(sc.KT)
			if e != nil {
				return nil, e
			}
			x, e := r.Read(sc.ET)
			if e != nil {
				return nil, e
			}
			v.K = append(v.K, k)
			v.E = append(v.E, x)
			c.add(k, x)
		}
		if e := p.ReadMapEnd(); e != nil {
			return nil, e
		}
		c.into(v)
		return v, nil
	}
	return nil, SchemaError(fmt.Sprintf("cannot read type %d", sc.T))
}

// Prune returns the schema with some fields removed at any level, and the
// value a reader of the pruned schema should see.
func Prune(s *vsim.Sim, v *Value, sc *Schema, permille int) (*Value, *Schema) {
	switch v.T {
	case thrift.STRUCT:
		nv := &Value{T: v.T, Name: v.Name}
		ns := &Schema{T: sc.T}
		for _, f := range sc.Fields {
			if s.Flip(permille) {
				continue
			}
			var fv *Value
			for _, x := range v.F {
				if x.ID == f.ID {
					fv = x.V
				}
			}
			if fv == nil {
				ns.Fields = append(ns.Fields, f)
				continue
			}
			pv, ps := Prune(s, fv, f.S, permille)
			ns.Fields = append(ns.Fields, SField{f.ID, f.Name, ps})
			nv.F = append(nv.F, Field{f.ID, f.Name, pv})
		}
		return nv, ns
	}
	return v, sc
}

// Message is one thrift message.
type Message struct {
	Name string
	Type byte
	Seq  int32
	Body *Value
	Sch  *Schema
}

func (m *Message) String() string {
	return fmt.Sprintf("%s/%d/%d %s", m.Name, m.Type, m.Seq, m.Body)
}

func WriteMessage(p thrift.TProtocol, m *Message) error {
	if e := er(p.WriteMessageBegin(m.Name, thrift.TMessageType(m.Type), m.Seq)); e != nil {
		return e
	}
	if e := Write(p, m.Body); e != nil {
		return e
	}
	return er(p.WriteMessageEnd())
}

// Look now and then asks a transport about its state, which must not change
// it.
func Look(t thrift.TTransport) {
	s := vsim.S
	if t == nil || s == nil || s.Draw(8) != 7 {
		return
	}
	if s.Draw(2) == 1 {
		t.IsOpen()
	} else {
		t.Peek()
	}
}

// Again sometimes has the factory of stream transports make the transport
// once more, after the pattern of the given one.
func Again(s *vsim.Sim, t thrift.TTransport) thrift.TTransport {
	if _, ok := t.(*thrift.TIOStreamTransport); !ok || s.Draw(6) != 5 {
		return t
	}
	s.Probe("stream-pattern")
	return thrift.NewTIOStreamTransportFactory(nil, nil, false).GetTransport(t)
}

// ReadMessage reads a message whose body has the given schema.
func ReadMessage(p thrift.TProtocol, sc *Schema, limit int) (*Message, error) {
	Look(p.Transport())
	name, t, seq, e := p.ReadMessageBegin()
	if e != nil {
		return nil, e
	}
	m := &Message{Name: name, Type: byte(t), Seq: seq, Sch: sc}
	r := &Reader{P: p, Limit: limit}
	v, err := r.Read(sc)
	if err != nil {
		return nil, err
	}
	m.Body = v
	if e := p.ReadMessageEnd(); e != nil {
		return nil, e
	}
	return m, nil
}

func (m *Message) Same(o *Message, json bool) bool {
	return m.Name == o.Name && m.Type == o.Type && m.Seq == o.Seq && Equal(m.Body, o.Body, json)
}

// LongName makes a name that exceeds some plausible limit.
func (g *Gen) LongName(x string) string {
	n := []int{128, 255, 256, 300, 1030}[g.S.Draw(5)]
	if g.Huge && g.S.Draw(4) == 3 {
		n = []int{4097, 33000, 70000}[g.S.Draw(3)]
	}
	for len(x) < n {
		x += string(rune('a'+len(x)%26)) + x
	}
	return x[:n]
}

// GenMessage generates a message.
func (g *Gen) Message(i int) *Message {
	v, sc := g.Struct()
	names := []string{"m", "echo", "ping", "", "longerMethodName_with_digits_0123456789", "é\"q", strings.Repeat("long", 40)}
	m := &Message{Name: names[g.S.Draw(len(names))], Type: byte(1 + g.S.Draw(4)), Seq: int32(i + 1), Body: v, Sch: sc}
	if g.S.Draw(10) == 9 {
		m.Name = g.LongName("long")
	}
	if g.S.Draw(6) == 5 {
		m.Seq = int32(i64s[g.S.Draw(len(i64s))])
	}
	return m
}
