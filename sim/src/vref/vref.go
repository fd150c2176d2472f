// Package vref is another implementation of the wire formats, written from
// their description and sharing no code with the library: the peer that the
// library has to talk to in mixed deployments. It implements the library's
// protocol and transport interfaces only so that the same workload can drive it.
//
// Binary and compact are the Apache Thrift formats. The two JSON formats are
// the ones this library publishes and its test suite pins.
package vref

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"
	"thrift"
	"unicode/utf8"
)

const (
	Binary = iota
	Compact
	JSON
	SimpleJSON
	BinaryLax // writes the old header without a version
)

// Raw is the foreign transport: an ordered stream, framed or not.
type Raw struct {
	C      io.ReadWriteCloser
	Framed bool
	// Piece, if set, cuts what is written into pieces.
	Piece func(left int) int
	in    []byte // received and not consumed
	frame int    // bytes of the current frame that are left
	out   []byte
	buf   [512]byte
}

func (r *Raw) IsOpen() bool                  { return true }
func (r *Raw) Peek() bool                    { return true }
func (r *Raw) Open() error                   { return nil }
func (r *Raw) Close() error                  { return r.C.Close() }
func (r *Raw) Write(b []byte) (int, error)   { r.out = append(r.out, b...); return len(b), nil }
func (r *Raw) ReadAll(b []byte) (int, error) { return io.ReadFull(r, b) }

func (r *Raw) Read(b []byte) (int, error) {
	n := 0
	for n < len(b) {
		c, e := r.byte()
		if e != nil {
			return n, e
		}
		b[n] = c
		n++
	}
	return n, nil
}

func (r *Raw) fill() error {
	for len(r.in) == 0 {
		n, e := r.C.Read(r.buf[:])
		if n > 0 {
			r.in = append(r.in[:0:0], r.buf[:n]...)
			return nil
		}
		if e != nil {
			return e
		}
	}
	return nil
}

// peek returns the next byte of the stream without consuming it.
func (r *Raw) peek() (byte, error) {
	for r.Framed && r.frame == 0 {
		var h [4]byte
		for i := range h {
			if e := r.fill(); e != nil {
				if i > 0 && e == io.EOF {
					e = io.ErrUnexpectedEOF
				}
				return 0, e
			}
			h[i] = r.in[0]
			r.in = r.in[1:]
		}
		n := int32(binary.BigEndian.Uint32(h[:]))
		if n < 0 {
			return 0, fmt.Errorf("vref: frame of %d bytes", n)
		}
		r.frame = int(n)
	}
	if e := r.fill(); e != nil {
		if r.Framed && e == io.EOF {
			e = io.ErrUnexpectedEOF
		}
		return 0, e
	}
	return r.in[0], nil
}

func (r *Raw) byte() (byte, error) {
	b, e := r.peek()
	if e != nil {
		return 0, e
	}
	r.in = r.in[1:]
	if r.Framed {
		r.frame--
	}
	return b, nil
}

func (r *Raw) Flush() error {
	b := r.out
	r.out = nil
	if r.Framed {
		h := make([]byte, 4, 4+len(b))
		binary.BigEndian.PutUint32(h, uint32(len(b)))
		b = append(h, b...)
	}
	for len(b) > 0 {
		n := len(b)
		if r.Piece != nil {
			n = r.Piece(n)
		}
		k, e := r.C.Write(b[:n])
		if e != nil {
			return e
		}
		b = b[k:]
	}
	return nil
}

// EndOfFrame reports an error when the frame that was being read has bytes left.
func (r *Raw) EndOfFrame() error {
	if r.Framed && r.frame != 0 {
		return fmt.Errorf("vref: %d bytes left in the frame behind the message", r.frame)
	}
	return nil
}

// Rest reads the stream to its end and says how many bytes were left.
func (r *Raw) Rest() int {
	n := 0
	for {
		if _, e := r.byte(); e != nil {
			return n
		}
		n++
	}
}

type failure struct{ msg string }

func (f failure) Error() string { return f.msg }
func (f failure) TypeId() int   { return 0 }

func fail(e error) thrift.TProtocolException {
	if e == nil {
		return nil
	}
	return failure{"vref: " + e.Error()}
}

func failf(f string, a ...interface{}) thrift.TProtocolException {
	return failure{"vref: " + fmt.Sprintf(f, a...)}
}

// Proto is a foreign protocol.
type Proto struct {
	Kind int
	T    *Raw
	// Draw picks among the legal encodings; nil means the plainest.
	Draw func(n int) int

	ids  []int16 // compact: field ids of the enclosing structs
	last int16
	bid  int16 // compact: pending bool field
	bset bool
	bval int // compact: value of a bool field just read, 0 if none

	w, r []ctx // JSON
}

type ctx struct {
	obj bool
	n   int
}

// New makes a protocol.
func New(kind int, t *Raw, draw func(int) int) *Proto { return &Proto{Kind: kind, T: t, Draw: draw} }

// Factory makes foreign protocols on Raw transports.
type Factory struct {
	Kind int
	Draw func(int) int
}

func (f *Factory) GetProtocol(t thrift.TTransport) thrift.TProtocol {
	return New(f.Kind, t.(*Raw), f.Draw)
}

func (p *Proto) pick(n int) int {
	if p.Draw == nil {
		return 0
	}
	return p.Draw(n)
}

func (p *Proto) bin() bool                    { return p.Kind == Binary || p.Kind == BinaryLax }
func (p *Proto) json() bool                   { return p.Kind == JSON || p.Kind == SimpleJSON }
func (p *Proto) Transport() thrift.TTransport { return p.T }
func (p *Proto) Flush() thrift.TProtocolException {
	return fail(p.T.Flush())
}

func (p *Proto) put(b ...byte) thrift.TProtocolException {
	p.T.out = append(p.T.out, b...)
	return nil
}

func (p *Proto) puts(s string) thrift.TProtocolException {
	p.T.out = append(p.T.out, s...)
	return nil
}

func (p *Proto) be(v uint64, n int) thrift.TProtocolException {
	for i := n - 1; i >= 0; i-- {
		p.put(byte(v >> (8 * uint(i))))
	}
	return nil
}

func (p *Proto) rbe(n int) (uint64, thrift.TProtocolException) {
	var v uint64
	for i := 0; i < n; i++ {
		b, e := p.T.byte()
		if e != nil {
			return 0, fail(e)
		}
		v = v<<8 | uint64(b)
	}
	return v, nil
}

func (p *Proto) varint(v uint64) thrift.TProtocolException {
	for v >= 0x80 {
		p.put(byte(v) | 0x80)
		v >>= 7
	}
	return p.put(byte(v))
}

func (p *Proto) rvarint() (uint64, thrift.TProtocolException) {
	var v uint64
	for s := uint(0); ; s += 7 {
		if s > 63 {
			return 0, failf("varint of more than 10 bytes")
		}
		b, e := p.T.byte()
		if e != nil {
			return 0, fail(e)
		}
		v |= uint64(b&0x7f) << s
		if b < 0x80 {
			return v, nil
		}
	}
}

func zig(v int64) uint64   { return uint64(v<<1) ^ uint64(v>>63) }
func unzig(v uint64) int64 { return int64(v>>1) ^ -int64(v&1) }

// ---- types ----

// code is the type's number on the wire in the binary format.
func code(t thrift.TType) byte {
	switch t {
	case thrift.BOOL:
		return 2
	case thrift.BYTE:
		return 3
	case thrift.DOUBLE:
		return 4
	case thrift.I16:
		return 6
	case thrift.I32:
		return 8
	case thrift.I64:
		return 10
	case thrift.STRING, thrift.BINARY:
		return 11
	case thrift.STRUCT:
		return 12
	case thrift.MAP:
		return 13
	case thrift.SET:
		return 14
	case thrift.LIST:
		return 15
	}
	return 0
}

func typ(c byte) thrift.TType {
	switch c {
	case 2:
		return thrift.BOOL
	case 3:
		return thrift.BYTE
	case 4:
		return thrift.DOUBLE
	case 6:
		return thrift.I16
	case 8:
		return thrift.I32
	case 10:
		return thrift.I64
	case 11:
		return thrift.STRING
	case 12:
		return thrift.STRUCT
	case 13:
		return thrift.MAP
	case 14:
		return thrift.SET
	case 15:
		return thrift.LIST
	}
	return thrift.STOP
}

var compactOf = map[byte]byte{2: 1, 3: 3, 6: 4, 8: 5, 10: 6, 4: 7, 11: 8, 15: 9, 14: 10, 13: 11, 12: 12}
var ofCompact = []byte{0, 2, 2, 3, 6, 8, 10, 4, 11, 15, 14, 13, 12}
var jsonOf = map[byte]string{2: "tf", 3: "i8", 4: "dbl", 6: "i16", 8: "i32", 10: "i64", 11: "str", 12: "rec", 13: "map", 14: "set", 15: "lst"}

func msgCode(t thrift.TMessageType) byte {
	switch t {
	case thrift.CALL:
		return 1
	case thrift.REPLY:
		return 2
	case thrift.EXCEPTION:
		return 3
	case thrift.ONEWAY:
		return 4
	}
	return 0
}

func msgType(c byte) thrift.TMessageType {
	switch c {
	case 1:
		return thrift.CALL
	case 2:
		return thrift.REPLY
	case 3:
		return thrift.EXCEPTION
	case 4:
		return thrift.ONEWAY
	}
	return thrift.INVALID_TMESSAGE_TYPE
}

// ---- JSON writing ----

func (p *Proto) ws() {
	for p.pick(12) == 11 {
		p.puts([]string{" ", "\n", "\t", "\r", "   "}[p.pick(5)])
	}
}

func (p *Proto) pre() (key bool) {
	if len(p.w) == 0 {
		p.ws()
		return false
	}
	c := &p.w[len(p.w)-1]
	p.ws()
	switch {
	case c.obj && c.n%2 == 1:
		p.puts(":")
	case c.n > 0:
		p.puts(",")
	}
	p.ws()
	key = c.obj && c.n%2 == 0
	c.n++
	return
}

func (p *Proto) open(obj bool) {
	p.pre()
	if obj {
		p.puts("{")
	} else {
		p.puts("[")
	}
	p.w = append(p.w, ctx{obj, 0})
}

func (p *Proto) shut() {
	p.ws()
	c := p.w[len(p.w)-1]
	p.w = p.w[:len(p.w)-1]
	if c.obj {
		p.puts("}")
	} else {
		p.puts("]")
	}
}

func (p *Proto) raw(s string) thrift.TProtocolException {
	if p.pre() {
		s = `"` + s + `"`
	}
	return p.puts(s)
}

func (p *Proto) num(v int64) thrift.TProtocolException { return p.raw(strconv.FormatInt(v, 10)) }

func (p *Proto) str(s string) thrift.TProtocolException {
	p.pre()
	switch p.pick(3) {
	case 1: // everything beyond ASCII escaped
		p.puts(`"`)
		for _, r := range s {
			switch {
			case r == '"' || r == '\\':
				p.puts(`\` + string(r))
			case r < ' ' && p.pick(2) == 1 && strings.ContainsRune("\n\t\r\b\f", r):
				p.puts(map[rune]string{'\n': `\n`, '\t': `\t`, '\r': `\r`, '\b': `\b`, '\f': `\f`}[r])
			case r < ' ' || r > 126 && r < 0x10000:
				p.puts(fmt.Sprintf(`\u%04x`, r))
			case r >= 0x10000:
				x := r - 0x10000
				p.puts(fmt.Sprintf(`\u%04X\u%04X`, 0xd800+x>>10, 0xdc00+x&0x3ff))
			default:
				p.puts(string(r))
			}
		}
		return p.puts(`"`)
	case 2: // as little as possible escaped
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		e.Encode(s)
		return p.puts(strings.TrimSuffix(b.String(), "\n"))
	}
	b, _ := json.Marshal(s)
	return p.put(b...)
}

// ---- JSON reading ----

func (p *Proto) skipWS() (byte, error) {
	for {
		b, e := p.T.peek()
		if e != nil {
			return 0, e
		}
		if b != ' ' && b != '\n' && b != '\t' && b != '\r' {
			return b, nil
		}
		p.T.byte()
	}
}

func (p *Proto) want(c byte) error {
	b, e := p.skipWS()
	if e != nil {
		return e
	}
	if b != c {
		return fmt.Errorf("%q where %q was expected", b, c)
	}
	p.T.byte()
	return nil
}

func (p *Proto) rpre() (key bool, err error) {
	if len(p.r) == 0 {
		return false, nil
	}
	c := &p.r[len(p.r)-1]
	switch {
	case c.obj && c.n%2 == 1:
		err = p.want(':')
	case c.n > 0:
		err = p.want(',')
	}
	key = c.obj && c.n%2 == 0
	c.n++
	return
}

func (p *Proto) ropen(obj bool) thrift.TProtocolException {
	if _, e := p.rpre(); e != nil {
		return fail(e)
	}
	c := byte('[')
	if obj {
		c = '{'
	}
	if e := p.want(c); e != nil {
		return fail(e)
	}
	p.r = append(p.r, ctx{obj, 0})
	return nil
}

func (p *Proto) rshut() thrift.TProtocolException {
	if len(p.r) == 0 {
		return failf("end of nothing")
	}
	c := byte(']')
	if p.r[len(p.r)-1].obj {
		c = '}'
	}
	p.r = p.r[:len(p.r)-1]
	return fail(p.want(c))
}

// token reads a string with its quotes, or a literal or number.
func (p *Proto) token() (string, error) {
	key, e := p.rpre()
	if e != nil {
		return "", e
	}
	b, e := p.skipWS()
	if e != nil {
		return "", e
	}
	if b != '"' && key {
		return "", fmt.Errorf("key starts with %q", b)
	}
	var s []byte
	if b == '"' {
		for {
			b, e := p.T.byte()
			if e != nil {
				return "", e
			}
			if b < ' ' {
				return "", fmt.Errorf("control character %#x inside a string", b)
			}
			s = append(s, b)
			if b == '\\' {
				if b, e = p.T.byte(); e != nil {
					return "", e
				}
				s = append(s, b)
			} else if b == '"' && len(s) > 1 {
				return string(s), nil
			}
		}
	}
	for {
		b, e := p.T.peek()
		if e != nil {
			return "", e
		}
		if strings.IndexByte(" \n\t\r,:[]{}\"", b) >= 0 {
			break
		}
		p.T.byte()
		s = append(s, b)
	}
	return string(s), nil
}

func (p *Proto) rstr() (string, thrift.TProtocolException) {
	s, e := p.token()
	if e != nil {
		return "", fail(e)
	}
	if s == "" || s[0] != '"' {
		return "", failf("%q is no string", s)
	}
	if !utf8.ValidString(s) {
		return "", failf("%q is not UTF-8", s)
	}
	var v string
	if e := json.Unmarshal([]byte(s), &v); e != nil {
		return "", failf("%q: %v", s, e)
	}
	return v, nil
}

func (p *Proto) rnum() (string, bool, thrift.TProtocolException) {
	key := len(p.r) > 0 && p.r[len(p.r)-1].obj && p.r[len(p.r)-1].n%2 == 0
	s, e := p.token()
	if e != nil {
		return "", false, fail(e)
	}
	quoted := len(s) > 1 && s[0] == '"'
	if quoted {
		s = s[1 : len(s)-1]
	} else if key {
		return "", false, failf("key %q without quotes", s)
	}
	return s, quoted && !key, nil
}

func (p *Proto) rint(min, max int64) (int64, thrift.TProtocolException) {
	s, quoted, e := p.rnum()
	if e != nil {
		return 0, e
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if quoted || err != nil || v < min || v > max {
		return 0, failf("%q is no integer within %d..%d", s, min, max)
	}
	return v, nil
}

// ---- messages ----

func (p *Proto) WriteMessageBegin(name string, t thrift.TMessageType, seq int32) thrift.TProtocolException {
	c := msgCode(t)
	switch p.Kind {
	case Binary:
		p.be(uint64(0x80010000|uint32(c)), 4)
		p.WriteString(name)
		return p.be(uint64(uint32(seq)), 4)
	case BinaryLax:
		p.WriteString(name)
		p.put(c)
		return p.be(uint64(uint32(seq)), 4)
	case Compact:
		p.put(0x82, 1|c<<5)
		p.varint(uint64(uint32(seq)))
		return p.WriteString(name)
	}
	p.open(false)
	if p.Kind == JSON {
		p.num(1)
	}
	p.str(name)
	p.num(int64(c))
	return p.num(int64(seq))
}

func (p *Proto) WriteMessageEnd() thrift.TProtocolException {
	if p.json() {
		p.shut()
	}
	return nil
}

func (p *Proto) ReadMessageBegin() (name string, t thrift.TMessageType, seq int32, err thrift.TProtocolException) {
	var x uint64
	switch {
	case p.bin():
		if x, err = p.rbe(4); err != nil {
			return
		}
		c := byte(x)
		if x>>31 == 0 {
			var b []byte
			if b, err = p.bytes(x); err != nil {
				return
			}
			name = string(b)
			var y uint64
			if y, err = p.rbe(1); err != nil {
				return
			}
			c = byte(y)
		} else {
			if x>>8 != 0x800100 {
				return "", 0, 0, failf("header %#x", x)
			}
			if name, err = p.ReadString(); err != nil {
				return
			}
		}
		if x, err = p.rbe(4); err != nil {
			return
		}
		return name, msgType(c), int32(uint32(x)), nil
	case p.Kind == Compact:
		if x, err = p.rbe(2); err != nil {
			return
		}
		if x>>8 != 0x82 || x&0x1f != 1 {
			return "", 0, 0, failf("header %#x", x)
		}
		t = msgType(byte(x>>5) & 7)
		if x, err = p.rvarint(); err != nil {
			return
		}
		if x>>32 != 0 {
			return "", 0, 0, failf("sequence number %#x", x)
		}
		name, err = p.ReadString()
		return name, t, int32(uint32(x)), err
	}
	if err = p.ropen(false); err != nil {
		return
	}
	var v int64
	if p.Kind == JSON {
		if v, err = p.rint(1, 1); err != nil {
			return
		}
	}
	if name, err = p.rstr(); err != nil {
		return
	}
	if v, err = p.rint(1, 4); err != nil {
		return
	}
	t = msgType(byte(v))
	v, err = p.rint(math.MinInt32, math.MaxInt32)
	return name, t, int32(v), err
}

func (p *Proto) ReadMessageEnd() thrift.TProtocolException {
	if p.json() {
		if e := p.rshut(); e != nil {
			return e
		}
	}
	return fail(p.T.EndOfFrame())
}

// ---- structs ----

func (p *Proto) WriteStructBegin(name string) thrift.TProtocolException {
	if p.json() {
		p.open(true)
	}
	p.ids, p.last = append(p.ids, p.last), 0
	return nil
}

func (p *Proto) WriteStructEnd() thrift.TProtocolException {
	if p.json() {
		p.shut()
	}
	p.last, p.ids = p.ids[len(p.ids)-1], p.ids[:len(p.ids)-1]
	return nil
}

func (p *Proto) ReadStructBegin() (string, thrift.TProtocolException) {
	p.ids, p.last = append(p.ids, p.last), 0
	if p.json() {
		return "", p.ropen(true)
	}
	return "", nil
}

func (p *Proto) ReadStructEnd() thrift.TProtocolException {
	p.last, p.ids = p.ids[len(p.ids)-1], p.ids[:len(p.ids)-1]
	if p.json() {
		return p.rshut()
	}
	return nil
}

func (p *Proto) compactField(c byte, id int16) {
	if d := int(id) - int(p.last); d > 0 && d < 16 && p.pick(8) != 7 {
		p.put(byte(d)<<4 | c)
	} else {
		p.put(c)
		p.varint(zig(int64(id)))
	}
	p.last = id
}

func (p *Proto) WriteFieldBegin(name string, t thrift.TType, id int16) thrift.TProtocolException {
	c := code(t)
	switch {
	case p.bin():
		p.put(c)
		return p.be(uint64(uint16(id)), 2)
	case p.Kind == Compact:
		if c == 2 {
			p.bid, p.bset = id, true
			return nil
		}
		p.compactField(compactOf[c], id)
	case p.Kind == JSON:
		p.num(int64(id))
		p.open(true)
		p.str(jsonOf[c])
	default:
		p.str(name)
	}
	return nil
}

func (p *Proto) WriteFieldEnd() thrift.TProtocolException {
	if p.Kind == JSON {
		p.shut()
	}
	return nil
}

func (p *Proto) WriteFieldStop() thrift.TProtocolException {
	if !p.json() {
		p.put(0)
	}
	return nil
}

func (p *Proto) ReadFieldBegin() (name string, t thrift.TType, id int16, err thrift.TProtocolException) {
	if p.json() {
		b, e := p.skipWS()
		if e != nil {
			return "", 0, 0, fail(e)
		}
		if b == '}' {
			return "", thrift.STOP, 0, nil
		}
		if p.Kind == SimpleJSON {
			name, err = p.rstr()
			return name, thrift.GENERIC, -1, err
		}
		v, er := p.rint(math.MinInt16, math.MaxInt16)
		if er != nil {
			return "", 0, 0, er
		}
		if err = p.ropen(true); err != nil {
			return
		}
		t, err = p.rjsonType()
		return "", t, int16(v), err
	}
	x, e := p.rbe(1)
	if e != nil {
		return "", 0, 0, e
	}
	if x == 0 {
		return "", thrift.STOP, 0, nil
	}
	c := byte(x)
	if p.bin() {
		if x, e = p.rbe(2); e != nil {
			return "", 0, 0, e
		}
		if t = typ(c); t == thrift.STOP {
			return "", 0, 0, failf("field type %d", c)
		}
		return "", t, int16(uint16(x)), nil
	}
	if d := int16(c >> 4); d != 0 {
		id = p.last + d
	} else {
		if x, e = p.rvarint(); e != nil {
			return "", 0, 0, e
		}
		id = int16(unzig(x))
	}
	p.last = id
	c &= 15
	if int(c) >= len(ofCompact) || c == 0 {
		return "", 0, 0, failf("compact field type %d", c)
	}
	p.bval = 0
	if c < 3 {
		p.bval = int(c)
	}
	return "", typ(ofCompact[c]), id, nil
}

func (p *Proto) rjsonType() (thrift.TType, thrift.TProtocolException) {
	s, e := p.rstr()
	if e != nil {
		return 0, e
	}
	for c, n := range jsonOf {
		if n == s {
			return typ(c), nil
		}
	}
	return 0, failf("type name %q", s)
}

func (p *Proto) ReadFieldEnd() thrift.TProtocolException {
	if p.Kind == JSON {
		return p.rshut()
	}
	return nil
}

// ---- containers ----

// elem is how an element type is written inside a JSON list.
func (p *Proto) WriteListBegin(t thrift.TType, n int) thrift.TProtocolException {
	c := code(t)
	switch {
	case p.bin():
		p.put(c)
		return p.be(uint64(uint32(n)), 4)
	case p.Kind == Compact:
		k := compactOf[c]
		if k == 1 && p.pick(4) == 3 {
			k = 2
		}
		if n < 15 && p.pick(8) != 7 {
			return p.put(byte(n)<<4 | k)
		}
		p.put(0xf0 | k)
		return p.varint(uint64(n))
	}
	p.open(false)
	p.num(int64(c))
	return p.num(int64(n))
}

func (p *Proto) WriteSetBegin(t thrift.TType, n int) thrift.TProtocolException {
	return p.WriteListBegin(t, n)
}

func (p *Proto) WriteListEnd() thrift.TProtocolException {
	if p.json() {
		p.shut()
	}
	return nil
}

func (p *Proto) WriteSetEnd() thrift.TProtocolException { return p.WriteListEnd() }

func (p *Proto) WriteMapBegin(k, v thrift.TType, n int) thrift.TProtocolException {
	a, b := code(k), code(v)
	switch {
	case p.bin():
		p.put(a, b)
		return p.be(uint64(uint32(n)), 4)
	case p.Kind == Compact:
		p.varint(uint64(n))
		if n > 0 {
			p.put(compactOf[a]<<4 | compactOf[b])
		}
		return nil
	case p.Kind == JSON:
		p.open(false)
		p.str(jsonOf[a])
		p.str(jsonOf[b])
	default:
		p.open(false)
		p.num(int64(a))
		p.num(int64(b))
	}
	return p.num(int64(n))
}

func (p *Proto) WriteMapEnd() thrift.TProtocolException { return p.WriteListEnd() }

func size(x uint64) (int, thrift.TProtocolException) {
	if x > math.MaxInt32 {
		return 0, failf("size %d", int64(x))
	}
	return int(x), nil
}

func (p *Proto) ReadListBegin() (t thrift.TType, n int, err thrift.TProtocolException) {
	var x uint64
	switch {
	case p.bin():
		if x, err = p.rbe(1); err != nil {
			return
		}
		t = typ(byte(x))
		if x, err = p.rbe(4); err != nil {
			return
		}
		n, err = size(x)
		return
	case p.Kind == Compact:
		if x, err = p.rbe(1); err != nil {
			return
		}
		c := byte(x) & 15
		if int(c) >= len(ofCompact) {
			return 0, 0, failf("compact element type %d", c)
		}
		t = typ(ofCompact[c])
		if n = int(x >> 4); n == 15 {
			if x, err = p.rvarint(); err != nil {
				return
			}
			n, err = size(x)
		}
		return
	}
	if err = p.ropen(false); err != nil {
		return
	}
	v, err := p.rint(0, 255)
	if err != nil {
		return 0, 0, err
	}
	t = typ(byte(v))
	v, err = p.rint(0, math.MaxInt32)
	return t, int(v), err
}

func (p *Proto) ReadListEnd() thrift.TProtocolException {
	if p.json() {
		return p.rshut()
	}
	return nil
}

func (p *Proto) ReadSetBegin() (thrift.TType, int, thrift.TProtocolException) {
	return p.ReadListBegin()
}
func (p *Proto) ReadSetEnd() thrift.TProtocolException { return p.ReadListEnd() }

func (p *Proto) ReadMapBegin() (k, v thrift.TType, n int, err thrift.TProtocolException) {
	var x uint64
	switch {
	case p.bin():
		if x, err = p.rbe(2); err != nil {
			return
		}
		k, v = typ(byte(x>>8)), typ(byte(x))
		if x, err = p.rbe(4); err != nil {
			return
		}
		n, err = size(x)
		return
	case p.Kind == Compact:
		if x, err = p.rvarint(); err != nil {
			return
		}
		if n, err = size(x); err != nil || n == 0 {
			return
		}
		if x, err = p.rbe(1); err != nil {
			return
		}
		a, b := x>>4&15, x&15
		if a > 12 || b > 12 {
			return 0, 0, 0, failf("compact map types %#x", x)
		}
		return typ(ofCompact[a]), typ(ofCompact[b]), n, nil
	}
	if err = p.ropen(false); err != nil {
		return
	}
	var i int64
	if p.Kind == JSON {
		if k, err = p.rjsonType(); err != nil {
			return
		}
		if v, err = p.rjsonType(); err != nil {
			return
		}
	} else {
		if i, err = p.rint(0, 255); err != nil {
			return
		}
		k = typ(byte(i))
		if i, err = p.rint(0, 255); err != nil {
			return
		}
		v = typ(byte(i))
	}
	i, err = p.rint(0, math.MaxInt32)
	return k, v, int(i), err
}

func (p *Proto) ReadMapEnd() thrift.TProtocolException { return p.ReadListEnd() }

// ---- leaves ----

func (p *Proto) WriteBool(v bool) thrift.TProtocolException {
	switch {
	case p.Kind == Compact:
		c := byte(2)
		if v {
			c = 1
		}
		if p.bset {
			p.bset = false
			p.compactField(c, p.bid)
			return nil
		}
		return p.put(c)
	case p.bin():
		if v {
			return p.put(1)
		}
		return p.put(0)
	}
	return p.raw(strconv.FormatBool(v))
}

func (p *Proto) ReadBool() (bool, thrift.TProtocolException) {
	if p.json() {
		s, _, e := p.rnum()
		if e != nil {
			return false, e
		}
		if s != "true" && s != "false" {
			return false, failf("%q is no bool", s)
		}
		return s == "true", nil
	}
	if p.bval != 0 {
		b := p.bval == 1
		p.bval = 0
		return b, nil
	}
	x, e := p.rbe(1)
	if e != nil {
		return false, e
	}
	if x > 2 || p.bin() && x > 1 {
		return false, failf("bool byte %d", x)
	}
	return x == 1, nil
}

func (p *Proto) integer(v int64, n int) thrift.TProtocolException {
	switch {
	case p.bin():
		return p.be(uint64(v), n)
	case p.Kind == Compact:
		return p.varint(zig(v))
	}
	return p.num(v)
}

func (p *Proto) rinteger(n int) (int64, thrift.TProtocolException) {
	sh := uint(64 - 8*n)
	switch {
	case p.bin():
		x, e := p.rbe(n)
		return int64(x<<sh) >> sh, e
	case p.Kind == Compact:
		x, e := p.rvarint()
		v := unzig(x)
		if e == nil && v<<sh>>sh != v {
			return 0, failf("%d does not fit %d bytes", v, n)
		}
		return v, e
	}
	return p.rint(math.MinInt64>>sh, math.MaxInt64>>sh)
}

func (p *Proto) WriteByte(v byte) thrift.TProtocolException {
	if p.json() {
		return p.num(int64(v))
	}
	return p.put(v)
}

func (p *Proto) ReadByte() (byte, thrift.TProtocolException) {
	if p.json() {
		v, e := p.rint(0, 255)
		return byte(v), e
	}
	x, e := p.rbe(1)
	return byte(x), e
}

func (p *Proto) WriteI16(v int16) thrift.TProtocolException { return p.integer(int64(v), 2) }
func (p *Proto) WriteI32(v int32) thrift.TProtocolException { return p.integer(int64(v), 4) }
func (p *Proto) WriteI64(v int64) thrift.TProtocolException { return p.integer(v, 8) }

func (p *Proto) ReadI16() (int16, thrift.TProtocolException) {
	v, e := p.rinteger(2)
	return int16(v), e
}

func (p *Proto) ReadI32() (int32, thrift.TProtocolException) {
	v, e := p.rinteger(4)
	return int32(v), e
}

func (p *Proto) ReadI64() (int64, thrift.TProtocolException) { return p.rinteger(8) }

func (p *Proto) WriteDouble(v float64) thrift.TProtocolException {
	switch {
	case p.bin():
		return p.be(math.Float64bits(v), 8)
	case p.Kind == Compact:
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], math.Float64bits(v))
		return p.put(b[:]...)
	}
	switch {
	case math.IsNaN(v):
		return p.str("NaN")
	case math.IsInf(v, 1):
		return p.str("Infinity")
	case math.IsInf(v, -1):
		return p.str("-Infinity")
	}
	s := strconv.FormatFloat(v, "gefGE"[p.pick(5)], -1, 64)
	if p.pick(4) == 3 {
		// a fraction, or a longer one
		m, x := s, ""
		if i := strings.IndexAny(s, "eE"); i >= 0 {
			m, x = s[:i], s[i:]
		}
		if !strings.Contains(m, ".") {
			m += "."
		}
		s = m + "00"[:1+p.pick(2)] + x
	}
	return p.raw(s)
}

func (p *Proto) ReadDouble() (float64, thrift.TProtocolException) {
	if !p.json() {
		x, e := p.rbe(8)
		if p.Kind == Compact {
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], x)
			x = binary.LittleEndian.Uint64(b[:])
		}
		return math.Float64frombits(x), e
	}
	s, quoted, e := p.rnum()
	if e != nil {
		return 0, e
	}
	if quoted {
		switch s {
		case "NaN":
			return math.NaN(), nil
		case "Infinity":
			return math.Inf(1), nil
		case "-Infinity":
			return math.Inf(-1), nil
		}
		return 0, failf("double %q in quotes", s)
	}
	if !json.Valid([]byte(s)) {
		return 0, failf("%q is no JSON number", s)
	}
	v, err := strconv.ParseFloat(s, 64)
	return v, fail(err)
}

func (p *Proto) WriteString(v string) thrift.TProtocolException {
	if p.json() {
		return p.str(v)
	}
	return p.WriteBinary([]byte(v))
}

func (p *Proto) ReadString() (string, thrift.TProtocolException) {
	if p.json() {
		return p.rstr()
	}
	b, e := p.ReadBinary()
	return string(b), e
}

func (p *Proto) WriteBinary(v []byte) thrift.TProtocolException {
	switch {
	case p.bin():
		p.be(uint64(len(v)), 4)
		return p.put(v...)
	case p.Kind == Compact:
		p.varint(uint64(len(v)))
		return p.put(v...)
	}
	p.pre()
	return p.puts(`"` + base64.StdEncoding.EncodeToString(v) + `"`)
}

func (p *Proto) bytes(n uint64) ([]byte, thrift.TProtocolException) {
	if n > 1<<28 {
		return nil, failf("%d bytes", n)
	}
	b := make([]byte, n)
	if _, e := p.T.Read(b); e != nil {
		return nil, fail(e)
	}
	return b, nil
}

func (p *Proto) ReadBinary() ([]byte, thrift.TProtocolException) {
	var n uint64
	var e thrift.TProtocolException
	switch {
	case p.bin():
		n, e = p.rbe(4)
	case p.Kind == Compact:
		n, e = p.rvarint()
	default:
		s, er := p.rstr()
		if er != nil {
			return nil, er
		}
		b, err := base64.StdEncoding.DecodeString(s)
		return b, fail(err)
	}
	if e != nil {
		return nil, e
	}
	return p.bytes(n)
}

// Skip reads over a value.
func (p *Proto) Skip(t thrift.TType) thrift.TProtocolException {
	var e thrift.TProtocolException
	switch t {
	case thrift.BOOL:
		_, e = p.ReadBool()
	case thrift.BYTE:
		_, e = p.ReadByte()
	case thrift.I16:
		_, e = p.ReadI16()
	case thrift.I32:
		_, e = p.ReadI32()
	case thrift.I64:
		_, e = p.ReadI64()
	case thrift.DOUBLE:
		_, e = p.ReadDouble()
	case thrift.STRING:
		_, e = p.ReadBinary()
		if p.json() && e != nil && strings.Contains(e.Error(), "base64") {
			e = nil
		}
	case thrift.STRUCT:
		if _, e = p.ReadStructBegin(); e != nil {
			return e
		}
		for {
			_, ft, _, e := p.ReadFieldBegin()
			if e != nil {
				return e
			}
			if ft == thrift.STOP {
				return p.ReadStructEnd()
			}
			if e := p.Skip(ft); e != nil {
				return e
			}
			if e := p.ReadFieldEnd(); e != nil {
				return e
			}
		}
	case thrift.LIST, thrift.SET:
		et, n, e := p.ReadListBegin()
		for i := 0; i < n && e == nil; i++ {
			e = p.Skip(et)
		}
		if e != nil {
			return e
		}
		return p.ReadListEnd()
	case thrift.MAP:
		k, v, n, e := p.ReadMapBegin()
		for i := 0; i < n && e == nil; i++ {
			if e = p.Skip(k); e == nil {
				e = p.Skip(v)
			}
		}
		if e != nil {
			return e
		}
		return p.ReadMapEnd()
	default:
		return fail(errors.New("cannot skip this type"))
	}
	return e
}
