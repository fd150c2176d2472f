package vprops

import (
	"encoding/binary"
	"runtime/metrics"
	"simple"
	"strings"
	"thrift"
	"vsim"
	"vwork"
)

func init() {
	reg("C14", "bytes", 10, c14Bytes)
	reg("C14", "nested", 2, c14Nested)
	reg("C14", "run", 1, c14Run)
}

// usage is what the process has allocated so far and its stack memory.
func usage() (alloc, stack int64) {
	m := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	metrics.Read(m)
	return int64(m[0].Value.Uint64()), int64(m[1].Value.Uint64())
}

var jsonBits = []string{"[", "]", "{", "}", ",", ":", "\"", "\\", "\\u", "\\ud83d", "1", "-", "1e", "1e999", "0x", "null", "true", "false", " ", "\n", "\"a\"", "[1,\"m\",1,1,{", "\"i32\"", "\"lst\"", "\"map\"", "\"rec\"", "\"str\"", "\"tf\"", "1.5", "NaN", "\x00", "\xff", "99999999999999999999", "2147483647", "\"1\":{\"rec\":{", "{}"}

// hostileBytes makes a byte sequence for a reader of the protocol.
func (e *Env) hostileBytes(proto int, g *vwork.Gen) (B []byte, ends []int, msgs []*vwork.Message, how string) {
	s := e.S
	raw := func(n int) []byte {
		b := make([]byte, n)
		switch s.Draw(3) {
		case 0:
			for i := range b {
				b[i] = byte(s.Draw(256))
			}
		case 1: // small values: type ids, sizes, zeros
			for i := range b {
				b[i] = byte(s.Draw(18))
			}
		case 2:
			x, m := byte(s.Draw(256)), byte(s.Draw(2))
			for i := range b {
				b[i] = x + m*byte(i)
			}
		}
		return b
	}
	rnd := func() []byte {
		if vwork.IsJSON(proto) && s.Draw(4) != 3 {
			var b strings.Builder
			for i := s.Size(60); i >= 0; i-- {
				b.WriteString(jsonBits[s.Draw(len(jsonBits))])
			}
			return []byte(b.String())
		}
		return raw(s.Size(200))
	}
	valid := func() {
		for i, n := 0, s.Range(1, 3); i < n; i++ {
			msgs = append(msgs, g.Message(i))
		}
		var err error
		B, ends, err = vwork.Encode(proto, msgs...)
		if err != nil {
			s.Abort("encode-failed", "writing %v to memory: %v", msgs, err)
		}
	}
	head := func() []byte {
		buf := thrift.NewTMemoryBuffer()
		p := vwork.Factory(proto).GetProtocol(buf)
		p.WriteMessageBegin("m", thrift.TMessageType(1+s.Draw(4)), int32(s.Draw(5)))
		p.Flush()
		b := append([]byte(nil), buf.Bytes()...)
		if vwork.IsJSON(proto) && s.Draw(8) != 7 {
			b = append(b, ',')
		}
		return b
	}
	switch s.Draw(8) {
	case 0:
		how = "random"
		B = rnd()
	case 1, 2:
		how = "mutated"
		valid()
		B = mutate(s, B)
		if s.Draw(4) == 3 {
			B = mutate(s, B)
		}
	case 3:
		how = "header+random"
		B = append(head(), rnd()...)
	case 4:
		how = "hostile size"
		B = head()
		h := hostile[s.Draw(len(hostile))]
		be := binary.BigEndian.AppendUint32(nil, h)
		if s.Draw(4) == 3 {
			be = binary.BigEndian.AppendUint32(nil, uint32(s.Draw(1<<20)))
		}
		va := binary.AppendUvarint(nil, uint64(h))
		et := []byte{0, 1, 2, 3, 4, 6, 8, 10, 11, 12, 13, 14, 15, 16}[s.Draw(14)]
		kt := []byte{2, 3, 4, 6, 8, 10, 11, 12, 13, 14, 15, 0}[s.Draw(12)]
		switch proto {
		case vwork.Binary, vwork.BinaryLax:
			switch s.Draw(5) {
			case 0:
				B = append(append(B, 11, 0, 1), be...)
			case 1:
				B = append(append(B, 15, 0, 1, et), be...)
			case 2:
				B = append(append(B, 14, 0, 1, et), be...)
			case 3:
				B = append(append(B, 13, 0, 1, kt, et), be...)
			case 4: // method name
				B = append([]byte{0x80, 1, 0, 1}, be...)
				if s.Draw(2) == 1 {
					B = be
				}
			}
		case vwork.Compact:
			switch s.Draw(5) {
			case 0:
				B = append(append(B, 0x18), va...)
			case 1:
				B = append(append(B, 0x19, 0xf0|et&15), va...)
			case 2:
				B = append(append(B, 0x1a, 0xf0|et&15), va...)
			case 3:
				B = append(append(append(B, 0x1b), va...), kt<<4|et&15)
			case 4:
				B = append([]byte{0x82, 0x21, 0x01}, va...)
			}
			if s.Draw(6) == 5 { // endless varint
				B = append(B[:len(B)-1], make([]byte, s.Draw(40))...)
				for i := range B[4:] {
					B[4+i] = 0xff
				}
			}
		default:
			ty := []string{"\"lst\"", "\"set\"", "\"map\"", "\"str\"", "\"i32\"", "\"rec\"", "\"dbl\"", "\"tf\""}
			nums := []string{"2147483647", "-1", "4294967295", "9223372036854775807", "1e9", "-2147483648", "100000"}
			n := nums[s.Draw(len(nums))]
			a, b := ty[s.Draw(len(ty))], ty[s.Draw(len(ty))]
			B = append(B, ("{\"1\":{" + []string{"\"lst\":[" + a + "," + n + ",", "\"set\":[" + a + "," + n + ",", "\"map\":[" + a + "," + b + "," + n + ",{", "\"i32\":" + n, "[" + n + "," + n + "," + n}[s.Draw(5)])...)
		}
		B = append(B, raw(s.Size(400))...)
	case 5:
		how = "long run"
		B = head()
		n := s.Range(100, 5000)
		if s.Draw(8) == 7 {
			n *= 20
		}
		var fill string
		if vwork.IsJSON(proto) {
			B = append(B, []string{"", "{\"1\":{\"str\":\"", "{\"1\":{\"i32\":", "{\"1\":{\"dbl\":", "\"", "{\"", "[1,2,", "{\"1\":{\"lst\":[\"i32\",3,", "{\"1\":{\"map\":[\"str\",\"str\",2,{\""}[s.Draw(9)]...)
			fill = []string{" ", "1", "a", "\\\\", "\\\"", "\\n", "\n", ",", "1,", "\"\",", "0", "-", "\\u0041", "}", "]", "[]", "1e", "é"}[s.Draw(18)]
		} else {
			if proto == vwork.Compact {
				B = append(append(B, []byte{0x18, 0x19, 0x1b, 0x1c, 0x15, 0x1a}[s.Draw(6)]), binary.AppendUvarint(nil, uint64(n))...)
			} else {
				B = append(append(B, []byte{11, 15, 13, 12, 8, 14}[s.Draw(6)], 0, 1), binary.BigEndian.AppendUint32(nil, uint32(n))...)
			}
			fill = string([]byte{byte(s.Draw(256))})
		}
		B = append(B, strings.Repeat(fill, n/len(fill))...)
		if s.Draw(2) == 1 {
			B = append(B, rnd()...)
		}
	case 6:
		how = "valid+random"
		valid()
		B = append(B, rnd()...)
	case 7:
		how = "false size"
		m := g.Message(0)
		msgs = append(msgs, m)
		size := int(int32(hostile[s.Draw(len(hostile))]))
		if s.Draw(4) == 3 {
			size = s.Draw(1 << 24)
		}
		var err error
		if B, err = vwork.Lie(proto, m, s.Draw(4), size); err != nil {
			s.Abort("encode-failed", "writing %v to memory: %v", m, err)
		}
		B = append(B, raw(s.Size(100))...)
	}
	if len(B) == 0 {
		B = []byte{0}
	}
	if len(ends) == 0 || ends[len(ends)-1] > len(B) {
		ends = []int{len(B)}
	} else if ends[len(ends)-1] < len(B) {
		ends = append(ends, len(B))
	}
	return
}

var readModes = []string{"schema", "other schema", "skip", "exception", "skip type", "primitives", "generated struct", "processor", "generated processor"}

type budget struct {
	e            *Env
	alloc, stack int64
	steps        int64
	n            int64
}

func (e *Env) budget(n int) *budget {
	s := e.S
	b := &budget{e: e, n: int64(n), steps: s.Steps}
	b.alloc, b.stack = usage()
	s.AllocBase = s.AllocSum + 1<<20
	s.Cfg.MaxSteps = s.Steps + 300000 + 600*int64(n)
	return b
}

func (b *budget) check(what string) {
	s := b.e.S
	a, st := usage()
	if d := a - b.alloc; d > 8<<20+4000*b.n {
		s.Abort("memory", "%s of %d bytes allocated %d MiB", what, b.n, d>>20)
	}
	if st-b.stack > 200<<20 {
		s.Abort("memory", "%s of %d bytes used %d MiB of stack", what, b.n, (st-b.stack)>>20)
	}
	s.Cfg.MaxSteps = s.Steps + 20000000
}

func c14Bytes(e *Env) {
	s := e.S
	e.Swarm(false)
	proto := s.Draw(vwork.NumProto)
	kind := s.Draw(numCar)
	framed := s.Draw(3) == 2
	g := e.Gen(proto)
	g.Big = 0
	B, ends, msgs, how := e.hostileBytes(proto, g)
	if framed {
		if s.Draw(4) != 3 {
			B, ends = frameUp(s, B, ends, s.Draw(2) == 1)
		}
		if s.Draw(4) == 3 {
			at := 0
			if s.Draw(2) == 1 && len(ends) > 1 {
				at = ends[s.Draw(len(ends)-1)]
			}
			if at+4 <= len(B) {
				B = append([]byte(nil), B...)
				binary.BigEndian.PutUint32(B[at:], hostile[s.Draw(len(hostile))])
			}
		}
	}
	end := s.Draw(3)
	timeout := int64(0)
	if kind == carSock || kind == carNBSock {
		end = []int{endEOF, endReset, endTimeout}[s.Draw(3)]
		if end == endTimeout {
			timeout = ms * int64(200+s.Draw(2000))
		}
	}
	if kind == carMem {
		end = endEOF
	}
	mode := s.Draw(len(readModes))
	e.Desc("%s over %s framed=%v %s, read by %s, end=%s, %d bytes: %s", vwork.ProtoNames[proto], carNames[kind], framed, how, readModes[mode], endNames[end], len(B), vwork.Hex(B))
	s.Fault("hostile-" + strings.ReplaceAll(how, " ", "-"))
	src := e.source(kind, B, framed, end, timeout)
	s.Cfg.MaxTime = s.Now() + 3600*sec
	p := vwork.Factory(proto).GetProtocol(src.T)
	var sch *vwork.Schema
	if mode == 1 || len(msgs) == 0 {
		_, sch = g.Struct()
	}
	out := vwork.Factory(proto).GetProtocol(thrift.NewTMemoryBuffer())
	svc := vwork.NewSvc(s, g.JSON)
	svc.Lenient = true
	for i := 0; i < 3; i++ {
		c := svc.NewCall(vwork.KNormal, g)
		if i < len(msgs) {
			c.Method, c.Sch = msgs[i].Name, msgs[i].Sch
		} else if i == 2 {
			c.Method = "m"
		}
		svc.Alias(c)
	}
	gp := simple.NewContainerOfEnumsTestServiceProcessor(&goldenHandler{s: s, execs: map[string]int{}})
	bud := e.budget(len(B))
	after := 0
	one := func(i int) error {
		switch mode {
		case 0, 1:
			sc := sch
			if sc == nil || (mode == 0 && i < len(msgs)) {
				sc = msgs[min(i, len(msgs)-1)].Sch
			}
			_, err := vwork.ReadMessage(p, sc, 2000000)
			return err
		case 2:
			return skipMessage(p, nil)
		case 3:
			if s.Draw(2) == 1 || i == 0 {
				if _, _, _, err := p.ReadMessageBegin(); err != nil {
					return err
				}
			}
			x := thrift.NewTApplicationExceptionDefault()
			if _, err := x.Read(p); err != nil {
				return err
			}
			if err := p.ReadMessageEnd(); err != nil {
				return err
			}
		case 4:
			t := []thrift.TType{thrift.STRUCT, thrift.MAP, thrift.LIST, thrift.SET, thrift.STRING, thrift.I32, thrift.BOOL, thrift.BYTE, thrift.I16, thrift.I64, thrift.DOUBLE, thrift.STOP, thrift.VOID, thrift.TType(s.Draw(256))}[s.Draw(14)]
			if err := p.Skip(t); err != nil {
				return err
			}
		case 5:
			return e.readPrimitive(p)
		case 6:
			if i == 0 {
				if _, _, _, err := p.ReadMessageBegin(); err != nil {
					return err
				}
			}
			if s.Draw(2) == 1 {
				if err := simple.NewEchoArgs().Read(p); err != nil {
					return err
				}
			}
			if err := simple.NewContainerOfEnums().Read(p); err != nil {
				return err
			}
		case 7:
			ok, err := svc.Process(p, out)
			if err != nil {
				return err
			}
			if !ok {
				return errBroken
			}
		case 8:
			ok, err := gp.Process(p, out)
			if err != nil {
				return err
			}
			if !ok {
				return errBroken
			}
		}
		return nil
	}
	limit := len(B) + 200
	if mode == 4 || mode == 5 {
		limit = 300 // reading nothing (an empty value) is legal here
	}
	var err error
	i := 0
	for ; err == nil && i < limit; i++ {
		err = one(i)
	}
	if err == nil && mode != 4 && mode != 5 {
		s.Abort("keeps-going", "%d messages were read from %d bytes", i, len(B))
	}
	if err != nil {
		// generated code finishes the message and may try again
		for j := s.Draw(4); j > 0; j-- {
			p.ReadMessageEnd()
			one(i)
			after++
		}
	}
	bud.check("reading")
	if src.ch != nil && src.ch.After > 12*(1+after) {
		s.Abort("keeps-going", "the stream was read %d more times after it had reported its end", src.ch.After)
	}
	e.NonTrivial = true
}

func (e *Env) readPrimitive(p thrift.TProtocol) (err error) {
	// every call consumes at least a byte or fails
	set := func(x thrift.TProtocolException) {
		if x != nil {
			err = x
		}
	}
	switch e.S.Draw(14) {
	case 0:
		_, x := p.ReadBool()
		set(x)
	case 1:
		_, x := p.ReadByte()
		set(x)
	case 2:
		_, x := p.ReadI16()
		set(x)
	case 3:
		_, x := p.ReadI32()
		set(x)
	case 4:
		_, x := p.ReadI64()
		set(x)
	case 5:
		_, x := p.ReadDouble()
		set(x)
	case 6:
		_, x := p.ReadString()
		set(x)
	case 7:
		_, x := p.ReadBinary()
		set(x)
	case 8:
		_, x := p.ReadStructBegin()
		set(x)
	case 9:
		_, _, _, x := p.ReadFieldBegin()
		set(x)
	case 10:
		_, _, x := p.ReadListBegin()
		set(x)
	case 11:
		_, _, x := p.ReadSetBegin()
		set(x)
	case 12:
		_, _, _, x := p.ReadMapBegin()
		set(x)
	case 13:
		_, _, _, x := p.ReadMessageBegin()
		set(x)
	}
	return
}

// c14Nested: containers in containers, deeper than any real message.
func c14Nested(e *Env) {
	s := e.S
	proto := s.Draw(vwork.NumProto)
	n := s.Range(1, 400)
	huge := false
	switch s.Draw(20) {
	case 15, 16, 17:
		n = s.Range(1000, 9000)
	case 18:
		n = s.Range(10000, 30000)
	case 19:
		if proto == vwork.Compact && s.Draw(8) == 7 {
			n, huge = 1500000, true
		}
	}
	units := map[int][]string{
		vwork.Binary:     {"\x0f\x00\x00\x00\x01", "\x0e\x00\x00\x00\x01", "\x0c\x00\x01", "\x0d\x0d\x00\x00\x00\x01", "\x0f\x00\x00\x00\x02"},
		vwork.Compact:    {"\x19", "\x1a", "\x1c", "\x01\xbb", "\x29"},
		vwork.JSON:       {"\"lst\",1,[", "\"set\",1,[", "{\"1\":{\"rec\":", "\"map\",\"map\",1,{", "["},
		vwork.SimpleJSON: {"[", "{\"a\":", "[1,", "{", "[[1],"},
	}
	units[vwork.BinaryLax] = units[vwork.Binary]
	first := map[int][]string{
		vwork.Binary:     {"\x0f\x00\x01", "\x0e\x00\x01", "\x0c\x00\x01", "\x0d\x00\x01", "\x0f\x00\x01"},
		vwork.Compact:    {"\x19", "\x1a", "\x1c", "\x1b", "\x19"},
		vwork.JSON:       {"{\"1\":{\"lst\":[", "{\"1\":{\"set\":[", "{\"1\":{\"rec\":", "{\"1\":{\"map\":[", "["},
		vwork.SimpleJSON: {"[", "{", "[", "", "["},
	}
	first[vwork.BinaryLax] = first[vwork.Binary]
	u := s.Draw(5)
	buf := thrift.NewTMemoryBuffer()
	w := vwork.Factory(proto).GetProtocol(buf)
	w.WriteMessageBegin("m", thrift.CALL, 1)
	w.Flush()
	B := append([]byte(nil), buf.Bytes()...)
	if vwork.IsJSON(proto) {
		B = append(B, ',')
	}
	B = append(B, first[proto][u]...)
	B = append(B, strings.Repeat(units[proto][u], n)...)
	if s.Draw(2) == 1 {
		B = append(B, strings.Repeat("\x00", s.Draw(n+1))...)
	}
	framed := s.Draw(3) == 2
	ends := []int{len(B)}
	if framed {
		B, _ = frameUp(s, B, ends, false)
	}
	kind := []int{carIOR, carMem, carHTTP}[s.Draw(3)]
	e.Desc("%s over %s framed=%v: %d nested containers, unit %q, %d bytes", vwork.ProtoNames[proto], carNames[kind], framed, n, units[proto][u], len(B))
	s.Fault("hostile-nesting")
	src := e.source(kind, B, framed, endEOF, 0)
	if src.ch != nil && huge {
		src.ch.Max, src.ch.Gap = 0, 0
	}
	p := vwork.Factory(proto).GetProtocol(src.T)
	bud := e.budget(len(B))
	mode := s.Draw(3)
	if huge {
		mode = 0
	}
	switch mode {
	case 0:
		skipMessage(p, nil)
	case 1:
		p.ReadMessageBegin()
		x := thrift.NewTApplicationExceptionDefault()
		x.Read(p)
	case 2:
		p.ReadMessageBegin()
		for i := 0; i < 300; i++ {
			if e.readPrimitive(p) != nil {
				break
			}
		}
	}
	bud.check("skipping")
	e.NonTrivial = true
	_ = vsim.Point
}

// c14Run: a long value whose every part makes the reader go on, delivered in
// large pieces: the work for it has to stay in proportion.
func c14Run(e *Env) {
	s := e.S
	proto := s.Draw(vwork.NumProto)
	n := s.Range(20000, 120000)
	buf := thrift.NewTMemoryBuffer()
	w := vwork.Factory(proto).GetProtocol(buf)
	w.WriteMessageBegin("m", thrift.CALL, 1)
	w.Flush()
	B := append([]byte(nil), buf.Bytes()...)
	if vwork.IsJSON(proto) {
		B = append(B, ',')
	}
	pick := func(x ...string) string { return x[s.Draw(len(x))] }
	end := ""
	var unit string
	switch proto {
	case vwork.JSON, vwork.SimpleJSON:
		pre := pick("{\"1\":{\"str\":\"", "\"", "[\"", "{\"", "{\"1\":{\"i32\":", "{\"1\":{\"dbl\":", "{\"1\":{\"lst\":[\"i32\",99999", "{\"1\":{\"map\":[\"str\",\"str\",9,{\"")
		unit = pick("\\\"", "\\\"", "\\\"a", "\\\\", "\\u00e9", "a", "1", " ", ",1", "\\\\\\\"", ",\"a\\\"\"", "\\n", "\n")
		end = pick("", "\"", "\"}}]", "]}}]")
		B = append(B, pre...)
	case vwork.Compact:
		vn := string(binary.AppendUvarint(nil, uint64(n)))
		pre := pick("\x18", "\x19\xf8", "\x19\xf1", "\x19\xf5", "\x1b")
		B = append(append(B, pre...), vn...)
		if pre == "\x1b" {
			B = append(B, 0x88)
		}
		unit = pick("\x00", "\x01", "a", "\x80\x01", "\x01a")
		end = pick("", "\x00")
	default:
		bn := string(binary.BigEndian.AppendUint32(nil, uint32(n)))
		B = append(append(B, pick("\x0b\x00\x01", "\x0f\x00\x01\x0b", "\x0f\x00\x01\x02", "\x0d\x00\x01\x0b\x0b", "\x0e\x00\x01\x0c")...), bn...)
		unit = pick("\x00", "\x00\x00\x00\x00", "\x00\x00\x00\x01a", "\x08\x00\x01\x00\x00\x00\x01\x00", "a")
		end = pick("", "\x00")
	}
	B = append(append(B, strings.Repeat(unit, n/len(unit))...), end...)
	framed := s.Draw(3) == 2
	ends := []int{len(B)}
	if framed {
		B, _ = frameUp(s, B, ends, false)
	}
	kind := []int{carIOR, carMem, carHTTP}[s.Draw(3)]
	mode := s.Draw(3)
	e.Desc("%s over %s framed=%v mode=%d: %d bytes of %q after %s", vwork.ProtoNames[proto], carNames[kind], framed, mode, n, unit, vwork.Hex(B[:min(len(B), 60)]))
	s.Fault("hostile-long-run")
	src := e.source(kind, B, framed, endEOF, 0)
	if src.ch != nil {
		src.ch.Max, src.ch.Gap = 0, 0
	}
	p := vwork.Factory(proto).GetProtocol(src.T)
	bud := e.budget(len(B))
	switch mode {
	case 0:
		skipMessage(p, nil)
	case 1:
		p.ReadMessageBegin()
		x := thrift.NewTApplicationExceptionDefault()
		x.Read(p)
	case 2:
		g := e.Gen(proto)
		g.Big = 0
		_, sch := g.Struct()
		vwork.ReadMessage(p, sch, 2000000)
	}
	bud.check("reading")
	e.NonTrivial = true
}
