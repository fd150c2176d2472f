package vprops

import (
	"bytes"
	"io"
	"net"
	"simple"
	"thrift"
	"vnet"
	"vref"
	"vsim"
	"vwork"
)

func init() {
	reg("C20", "rpc", 40, c20RPC)
	reg("C20", "large", 1, large(func(e *Env) { streamRead(e, false) }))
	reg("C20", "golden", 15, c20Golden)
	reg("C20", "read", 30, func(e *Env) { streamRead(e, false) })
	reg("C20", "skip", 15, func(e *Env) { streamRead(e, true) })
	reg("C20", "write", 30, c20Write)
	reg("C20", "header", 10, c20Header)
}

type rwNop struct {
	io.Reader
	io.Writer
}

func (rwNop) Close() error { return nil }

// foreignEncode writes messages back to back in any legal form.
func foreignEncode(s *vsim.Sim, proto int, ms ...*vwork.Message) ([]byte, []int, error) {
	var buf bytes.Buffer
	var draw func(int) int
	if s.Draw(2) == 1 {
		draw = s.Draw
	}
	p := vref.New(proto, &vref.Raw{C: rwNop{nil, &buf}}, draw)
	var ends []int
	for _, m := range ms {
		if proto == vwork.Binary {
			p.Kind = []int{vref.Binary, vref.Binary, vref.BinaryLax}[s.Draw(3)]
		}
		if e := vwork.WriteMessage(p, m); e != nil {
			return nil, nil, e
		}
		if e := p.Flush(); e != nil {
			return nil, nil, e
		}
		ends = append(ends, buf.Len())
	}
	return buf.Bytes(), ends, nil
}

// foreignSide is a node that runs the other implementation.
type foreignSide struct {
	e *Env
	k *vwork.Stack
}

func (f *foreignSide) raw(c net.Conn) *vref.Raw {
	s := f.e.S
	r := &vref.Raw{C: c, Framed: f.k.Framed}
	if s.Draw(3) == 2 {
		r.Piece = func(left int) int { return 1 + s.Draw(left) }
	}
	return r
}

func (f *foreignSide) factory() *vref.Factory {
	s := f.e.S
	x := &vref.Factory{Kind: f.k.Proto}
	if x.Kind == vref.Binary && s.Draw(3) == 2 {
		x.Kind = vref.BinaryLax // the library's default reads both headers
	}
	if s.Draw(2) == 1 {
		x.Draw = s.Draw
	}
	return x
}

// dial connects as a foreign client.
func (f *foreignSide) dial() *vref.Raw {
	c, err := vnet.DialTimeout("tcp", vwork.TheAddr.String(), 0)
	if err != nil {
		f.e.S.Abort("open-failed", "open on a healthy network: %v", err)
	}
	return f.raw(c)
}

// serve runs a foreign server until the run ends.
func (f *foreignSide) serve(p thrift.TProcessor) {
	s := f.e.S
	ln, err := vnet.Listen("tcp", vwork.TheAddr.String())
	if err != nil {
		s.Abort("open-failed", "listen: %v", err)
	}
	s.GoGroup("server", "foreign-accept", func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.GoGroup("server", "foreign-serve", func() {
				t := f.raw(c)
				pr := f.factory().GetProtocol(t)
				for {
					ok, err := p.Process(pr, pr)
					if err != nil {
						if !f.e.foreignQuiet(err) {
							s.Fail("foreign-decode", "the foreign server could not read what the library's client sent: %v", err)
						}
						break
					}
					if !ok {
						break
					}
				}
				t.Close()
			})
		}
	})
}

// foreignQuiet says whether the error is only the end of the connection.
func (e *Env) foreignQuiet(err error) bool {
	m := err.Error()
	return m == "vref: EOF" || m == "vref: "+io.EOF.Error()
}

func c20RPC(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	f := &foreignSide{e, k}
	foreignServer := s.Draw(2) == 1
	e.Desc("%v, the %s is foreign", k, map[bool]string{true: "server", false: "client"}[foreignServer])
	svc := vwork.NewSvc(s, k.JSON())
	svc.Foreign = foreignServer
	g := e.Gen(k.GenProto())
	e.planAll()
	if foreignServer {
		f.serve(svc)
	} else {
		e.startServer(k, svc, "server")
	}
	var fs []func()
	for c, nc := 0, s.Range(1, 3); c < nc; c++ {
		var ks []*vwork.Call
		for i, n := 0, s.Range(1, 5); i < n; i++ {
			kind := vwork.KNormal
			switch s.Draw(12) {
			case 9:
				if k.Proto != vwork.SimpleJSON {
					kind = vwork.KUnknown
				}
			case 10:
				kind = vwork.KFail
			case 11:
				kind = vwork.KOneway
			}
			ks = append(ks, svc.NewCall(kind, g))
		}
		shared := s.Draw(2) == 0
		if foreignServer || c > 0 && s.Draw(4) == 3 {
			fs = append(fs, func() { e.healthyClient(k, svc, ks, 0, shared, false) })
			continue
		}
		fs = append(fs, func() {
			t := f.dial()
			pr := f.factory().GetProtocol(t)
			cl := &vwork.Client{Svc: svc, In: pr, Out: pr, Foreign: true, Seq: []int32{0, 2000, 0x7ffffffd, -3, 65534}[s.Draw(5)]}
			for _, c := range ks {
				if err := cl.Do(c); err != nil {
					s.Abort("call-failed", "call %s of a foreign client on a healthy network: %v", c.Method, err)
				}
			}
			t.Close()
		})
	}
	e.All("client", fs...)
	vsim.WaitIdle()
	for _, c := range svc.Calls {
		if want := 1; c.Execs != want && c.Kind != vwork.KUnknown {
			s.Fail("not-executed", "call %s (kind %d) was executed %d times", c.Method, c.Kind, c.Execs)
		}
	}
	e.NonTrivial = s.Switches > 3
}

// c20Golden: generated code of the two sides, one of them over the foreign
// formats.
func c20Golden(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	f := &foreignSide{e, k}
	foreignServer := s.Draw(2) == 1
	e.Desc("golden %v, the %s is foreign", k, map[bool]string{true: "server", false: "client"}[foreignServer])
	h := &goldenHandler{s: s, execs: map[string]int{}}
	e.planAll()
	if foreignServer {
		f.serve(simple.NewContainerOfEnumsTestServiceProcessor(h))
	} else {
		e.startServer(k, simple.NewContainerOfEnumsTestServiceProcessor(h), "server")
	}
	sent := map[string]int{}
	var fs []func()
	for c, nc := 0, s.Range(1, 3); c < nc; c++ {
		var ms []*simple.ContainerOfEnums
		for i, n := 0, s.Range(1, 5); i < n; i++ {
			m := goldMsg(s)
			ms = append(ms, m)
			sent[goldStr(m)]++
		}
		fs = append(fs, func() {
			var cl *simple.ContainerOfEnumsTestServiceClient
			var t thrift.TTransport
			if foreignServer {
				t = k.Frame(k.Sock(vwork.TheAddr))
				if err := t.Open(); err != nil {
					s.Abort("open-failed", "open on a healthy network: %v", err)
				}
				cl = simple.NewContainerOfEnumsTestServiceClientFactory(t, vwork.Factory(k.Proto))
			} else {
				t = f.dial()
				cl = simple.NewContainerOfEnumsTestServiceClientFactory(t, f.factory())
			}
			for _, m := range ms {
				r, err := cl.Echo(m)
				if err != nil {
					s.Abort("call-failed", "generated echo(%s) failed: %v", goldStr(m), err)
				}
				if goldStr(r) != goldStr(m) {
					s.Abort("wrong-result", "generated echo(%s) returned %s", goldStr(m), goldStr(r))
				}
			}
			t.Close()
		})
	}
	e.All("client", fs...)
	vsim.WaitIdle()
	for m, n := range sent {
		if h.execs[m] != n {
			s.Fail("not-executed", "echo(%s) sent %d times, executed %d times", m, n, h.execs[m])
		}
	}
	e.NonTrivial = s.Switches > 3
}

// c20Write: what the library writes, over any carrier, the foreign side reads.
func c20Write(e *Env) {
	s := e.S
	e.Swarm(false)
	proto := s.Draw(vwork.NumProto)
	framed := s.Draw(2) == 1
	g := e.Gen(proto)
	var ms []*vwork.Message
	for i, n := 0, s.Range(1, 4); i < n; i++ {
		ms = append(ms, g.Message(i))
	}
	var out bytes.Buffer
	var t thrift.TTransport
	kind := s.Draw(4)
	var drain func()
	switch kind {
	case 0:
		t = thrift.NewTIOStreamTransportW(&out)
	case 1:
		m := thrift.NewTMemoryBuffer()
		t, drain = m, func() { out.Write(m.Bytes()) }
	case 2:
		h := vwork.InstallHTTP(s)
		h.Serve = func(x *vwork.Exchange) { out.Write(x.Req) }
		c, err := thrift.NewTHttpPostClient("http://sim.test/x")
		if err != nil {
			s.Abort("open-failed", "%v", err)
		}
		t = c
	case 3:
		p := e.Plan()
		cc, sc := e.N.Pair(p)
		e.Desc("conn %s", planStr(p))
		if s.Draw(2) == 1 {
			t, _ = thrift.NewTSocketConnTimeout(cc, 0)
		} else {
			t, _ = thrift.NewTNonblockingSocketConn(cc)
		}
		done := false
		s.Go("foreign-sink", func() {
			io.Copy(&out, sc)
			done = true
		})
		drain = func() {
			t.Close()
			vsim.WaitFor("drained", func() bool { return done })
		}
	}
	if framed {
		t = thrift.NewTFramedTransport(t)
	}
	p := vwork.Factory(proto).GetProtocol(t)
	for i, m := range ms {
		err := vwork.WriteMessage(p, m)
		if err == nil {
			if x := p.Flush(); x != nil {
				err = x
			}
		}
		if err != nil {
			s.Abort("write-failed", "message %d (%v): %v", i, m, err)
		}
	}
	if drain != nil {
		drain()
	}
	e.Desc("%s carrier %d framed=%v, %d messages, %d bytes %s", vwork.ProtoNames[proto], kind, framed, len(ms), out.Len(), vwork.Hex(out.Bytes()))
	rd := bytes.NewReader(out.Bytes())
	r := vref.New(proto, &vref.Raw{C: rwNop{rd, nil}, Framed: framed}, nil)
	for i, m := range ms {
		x, err := vwork.ReadMessage(r, m.Sch, 200000)
		if err != nil {
			s.Abort("foreign-decode", "message %d of %d (%v), written by the library, is unreadable for another implementation: %v", i, len(ms), m, err)
		}
		if !x.Same(m, vwork.IsJSON(proto)) {
			s.Abort("foreign-decode", "message %d of %d, written by the library, means %v to another implementation, written %v", i, len(ms), x, m)
		}
	}
	if n := r.T.Rest(); n > 0 {
		s.Abort("foreign-decode", "%d bytes behind the last message", n)
	}
	e.NonTrivial = out.Len() > 8
}

// c20Header: a header of the right protocol and version is read for what it
// says; one that names another protocol or version is refused, and so is one
// without a version by a reader that insists on it.
func c20Header(e *Env) {
	s := e.S
	e.Swarm(false)
	kind := s.Draw(5) // binary, binary strict, compact, JSON, binary without version
	name := []string{"call", "x", "", "a longer name of a method, with room to spare"}[s.Draw(4)]
	typ := []thrift.TMessageType{thrift.CALL, thrift.REPLY, thrift.EXCEPTION, thrift.TMessageType(4)}[s.Draw(4)]
	seq := int32([]int{0, 1, 7, 1 << 20, 1<<31 - 1}[s.Draw(5)])
	bad := s.Draw(3) > 0
	how := "as it should be"
	var b []byte
	be32 := func(v uint32) { b = append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
	str := func() { be32(uint32(len(name))); b = append(b, name...) }
	lax := func() { str(); b = append(b, byte(typ)); be32(uint32(seq)) }
	var f thrift.TProtocolFactory
	switch kind {
	case 0, 1:
		f = thrift.NewTBinaryProtocolFactory(kind == 1, s.Draw(2) == 1)
		v := uint32(0x8001)
		if bad && kind == 1 && s.Draw(2) == 1 {
			how = "no version"
			lax()
			break
		}
		if bad {
			if v = 0x8000 | uint32(s.Draw(0x8000)); s.Draw(2) == 1 {
				v = []uint32{0x8000, 0x8002, 0x8003, 0x8101, 0x9001, 0xC001, 0xFFFF}[s.Draw(7)]
			}
			if v == 0x8001 {
				v = 0x8002
			}
		}
		how = vsim.Sprintf("version %04x", v)
		be32(v<<16 | uint32(typ))
		str()
		be32(uint32(seq))
	case 2:
		f = thrift.NewTCompactProtocolFactory()
		id, v := byte(0x82), byte(1)
		if bad {
			if s.Draw(2) == 1 {
				if id = byte(s.Draw(256)); id == 0x82 {
					id = 0x80
				}
			} else if v = byte(s.Draw(32)); v == 1 {
				v = 2
			}
		}
		how = vsim.Sprintf("protocol %02x version %d", id, v)
		b = append(b, id, v|byte(typ)<<5)
		x := uint32(seq)
		for ; x > 127; x >>= 7 {
			b = append(b, byte(x)|0x80)
		}
		b = append(b, byte(x), byte(len(name)))
		b = append(b, name...)
	case 3:
		f = thrift.NewTJSONProtocolFactory()
		v := 1
		if bad {
			if v = s.Draw(1000) - 3; v == 1 {
				v = 2
			}
		}
		how = vsim.Sprintf("version %d", v)
		b = []byte(vsim.Sprintf("[%d,%q,%d,%d,{}]", v, name, typ, seq))
	case 4:
		f, bad = thrift.NewTBinaryProtocolFactory(false, s.Draw(2) == 1), false
		lax()
	}
	b = append(b, 0, 0, 0, 0)
	framed := s.Draw(3) == 2
	kname := []string{"binary", "binary (strict)", "compact", "json", "binary without version"}[kind]
	e.Desc("%s, %s: %q %d %d, framed=%v, %s", kname, how, name, typ, seq, framed, vwork.Hex(b))
	if framed {
		n := len(b)
		b = append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...)
	}
	var t thrift.TTransport
	t = thrift.NewTIOStreamTransportR(&vwork.Chunks{S: s, B: b, Max: -1 - s.Draw(20), Zero: s.Draw(2) * 150})
	if framed {
		t = thrift.NewTFramedTransport(t)
	}
	gname, gtyp, gseq, err := f.GetProtocol(t).ReadMessageBegin()
	e.NonTrivial = true
	if bad {
		s.Fault("foreign-version")
		if err == nil {
			s.Abort("version-accepted", "%s: a message header with %s was read as message %q type %d sequence %d", kname, how, gname, gtyp, gseq)
		}
		return
	}
	if err != nil {
		s.Abort("foreign-decode", "%s: the header of message %q type %d sequence %d (%s) is refused: %v", kname, name, typ, seq, how, err)
	}
	if gname != name || gtyp != typ || gseq != seq {
		s.Abort("foreign-decode", "%s: the header of message %q type %d sequence %d is read as %q type %d sequence %d", kname, name, typ, seq, gname, gtyp, gseq)
	}
}
