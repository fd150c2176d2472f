package vprops

import (
	"bytes"
	"errors"
	"io"
	"simple"
	"thrift"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C18", "rpc", 8, c18RPC)
	reg("C18", "generated", 3, c18Golden)
	reg("C18", "codec", 8, c18Codec)
	reg("C05", "exception", 30, c05Exception)
	reg("C05", "source", 12, c05Source)
}

func c18RPC(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	k.Asymmetric(s)
	svc := vwork.NewSvc(s, k.JSON())
	svc.Keep = s.Draw(3) != 2
	g := e.Gen(k.GenProto())
	e.planAll()
	e.Desc("exceptions %v keep=%v", k, svc.Keep)
	e.startServer(k, svc, "server")
	var fs []func()
	for c, nc := 0, s.Range(1, 3); c < nc; c++ {
		var ks []*vwork.Call
		for i, n := 0, s.Range(2, 8); i < n; i++ {
			kind := []int{vwork.KNormal, vwork.KFail, vwork.KOneway, vwork.KFail, vwork.KOneway, vwork.KUnknown}[s.Draw(6)]
			if kind == vwork.KUnknown && k.Proto == vwork.SimpleJSON {
				kind = vwork.KFail // SimpleJSON cannot skip what it does not know
			}
			x := svc.NewCall(kind, g)
			if kind == vwork.KFail && s.Draw(3) == 2 {
				x.ExcType = int32(s.Draw(1<<31-1)) - int32(s.Draw(2)*100)
				x.ExcMsg = g.Str()
			}
			if s.Draw(6) == 5 {
				x.Work = ms * int64(1+s.Draw(40))
			}
			ks = append(ks, x)
		}
		sharedP := s.Draw(2) == 0
		pause := s.Draw(3) == 2
		fs = append(fs, func() {
			t := k.Frame(k.Sock(vwork.TheAddr))
			var cl *vwork.Client
			open := func() {
				if err := t.Open(); err != nil {
					s.Abort("open-failed", "open on a healthy network: %v", err)
				}
				cl = k.Client(svc, t, sharedP)
			}
			open()
			for _, c := range ks {
				err := cl.Do(c)
				if err != nil {
					s.Abort("call-failed", "call %s (kind %d) on a healthy network: %v", c.Method, c.Kind, err)
				}
				s.Probe([]string{"reply", "one-way", "exception", "unknown-method"}[c.Kind])
				if pause {
					e.someTime(20 * ms)
				}
				if !svc.Keep && (c.Kind == vwork.KFail || c.Kind == vwork.KUnknown) {
					t.Close()
					open()
				}
			}
			t.Close()
		})
	}
	e.All("client", fs...)
	vsim.WaitIdle()
	for _, c := range svc.Calls {
		want := 1
		if c.Kind == vwork.KUnknown {
			want = 0
		}
		if c.Execs != want {
			s.Fail("not-executed", "call %s (kind %d) was executed %d times", c.Method, c.Kind, c.Execs)
		}
	}
	e.NonTrivial = s.Switches > 3
}

type failingHandler struct {
	goldenHandler
	fail func(m *simple.ContainerOfEnums) error
}

func (h *failingHandler) Echo(m *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	if err := h.fail(m); err != nil {
		h.execs[goldStr(m)]++
		return nil, err
	}
	return h.goldenHandler.Echo(m)
}

// c18Golden: generated client and processor whose handler fails.
func c18Golden(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	msg := vwork.ExcMsgs[s.Draw(len(vwork.ExcMsgs))]
	h := &failingHandler{goldenHandler: goldenHandler{s: s, execs: map[string]int{}}}
	h.fail = func(m *simple.ContainerOfEnums) error {
		if m != nil && m.Second == 1 {
			return errors.New(msg)
		}
		return nil
	}
	e.planAll()
	e.Desc("generated exceptions %v message %q", k, msg)
	e.startServer(k, simple.NewContainerOfEnumsTestServiceProcessor(h), "server")
	var fs []func()
	for c, nc := 0, s.Range(1, 2); c < nc; c++ {
		n := s.Range(2, 6)
		fs = append(fs, func() {
			t := k.Frame(k.Sock(vwork.TheAddr))
			reopen := true
			var cl *simple.ContainerOfEnumsTestServiceClient
			seq := int32(0)
			for i := 0; i < n; i++ {
				if reopen {
					t.Close()
					if err := t.Open(); err != nil {
						s.Abort("open-failed", "open on a healthy network: %v", err)
					}
					cl = simple.NewContainerOfEnumsTestServiceClientFactory(t, vwork.Factory(k.Proto))
					reopen = false
				}
				m := simple.NewContainerOfEnums()
				m.First = simple.UndefinedValues(s.Draw(3))
				m.Second = simple.DefinedValues(s.Draw(2) + 1)
				m.Third = simple.HeterogeneousValues(s.Draw(4))
				if s.Draw(4) == 3 && k.Proto != vwork.SimpleJSON {
					// a method the processor does not have
					p := vwork.Factory(k.Proto).GetProtocol(t)
					seq += 100
					name := []string{"nosuch", "", "Echo", "echo2"}[s.Draw(4)]
					p.WriteMessageBegin(name, thrift.CALL, seq)
					a := simple.NewEchoArgs()
					a.Message = m
					if err := a.Write(p); err != nil {
						s.Abort("call-failed", "%v", err)
					}
					p.WriteMessageEnd()
					p.Transport().Flush()
					nm, typ, sq, err := p.ReadMessageBegin()
					if err != nil || nm != name || typ != thrift.EXCEPTION || sq != seq {
						s.Abort("exception-lost", "unknown method %q answered with %q type %v seq %v, %v", name, nm, typ, sq, err)
					}
					x, er := thrift.NewTApplicationExceptionDefault().Read(p)
					if er != nil {
						s.Abort("exception-lost", "unknown method %q: %v", name, er)
					}
					if err := p.ReadMessageEnd(); err != nil {
						s.Abort("exception-lost", "unknown method %q: %v", name, err)
					}
					if x.TypeId() != thrift.UNKNOWN_METHOD || x.Error() != "Unknown function "+name {
						s.Abort("exception-altered", "unknown method %q: %d %q", name, x.TypeId(), x.Error())
					}
					s.Probe("unknown-method")
					reopen = true
					continue
				}
				r, err := cl.Echo(m)
				if m.Second == 1 {
					x, ok := err.(thrift.TApplicationException)
					if !ok {
						s.Abort("exception-lost", "echo(%s) whose handler failed returned %v, %v", goldStr(m), r, err)
					}
					if x.TypeId() != thrift.INTERNAL_ERROR || x.Error() != "Internal error processing echo: "+msg {
						s.Abort("exception-altered", "echo(%s) returned exception %d %q, the handler failed with %q", goldStr(m), x.TypeId(), x.Error(), msg)
					}
					s.Probe("exception")
					reopen = true
					continue
				}
				if err != nil {
					s.Abort("call-failed", "generated echo(%s) failed: %v", goldStr(m), err)
				}
				if goldStr(r) != goldStr(m) {
					s.Abort("wrong-result", "generated echo(%s) returned %s", goldStr(m), goldStr(r))
				}
			}
			t.Close()
		})
	}
	e.All("client", fs...)
	e.NonTrivial = s.Switches > 3
}

// c18Codec: messages of all types, exceptions among them, back to back.
func c18Codec(e *Env) {
	s := e.S
	e.Swarm(false)
	proto := s.Draw(vwork.NumProto)
	kind := s.Draw(numCar)
	framed := s.Draw(3) == 2
	live := liveCar(kind) && s.Draw(2) == 1
	end := endEOF
	if liveCar(kind) && s.Draw(2) == 1 {
		end = endOpen
	}
	g := e.Gen(proto)
	g.Big = 0
	type item struct {
		m   *vwork.Message // ordinary
		typ int32
		msg string
		def bool // the exception has no fields
	}
	buf := thrift.NewTMemoryBuffer()
	w := vwork.Factory(proto).GetProtocol(buf)
	must := func(err error) {
		if err != nil {
			s.Abort("encode-failed", "writing to memory: %v", err)
		}
	}
	var items []item
	var ends []int
	n := s.Range(1, 5)
	for i := 0; i < n; i++ {
		if s.Draw(3) == 0 {
			m := g.Message(i)
			m.Type = byte(1 + s.Draw(4))
			must(vwork.WriteMessage(w, m))
			items = append(items, item{m: m})
		} else {
			it := item{typ: int32(s.Draw(9)), msg: vwork.ExcMsgs[s.Draw(len(vwork.ExcMsgs))]}
			switch s.Draw(4) {
			case 2:
				it.msg = g.Str()
			case 3:
				it.typ = []int32{-1, 100, 1<<31 - 1, -1 << 31, 8191}[s.Draw(5)]
			}
			m := &vwork.Message{Name: []string{"x", "call", ""}[s.Draw(3)], Type: byte(thrift.EXCEPTION), Seq: int32(s.Draw(1<<30)) - 5}
			it.m = m
			if e := w.WriteMessageBegin(m.Name, thrift.EXCEPTION, m.Seq); e != nil {
				must(e)
			}
			if s.Draw(2) == 1 {
				must(vwork.NewExc(s, it.typ, it.msg).Write(w))
			} else {
				// another implementation: any order, more fields
				var fs []vwork.Field
				if s.Draw(5) != 4 {
					fs = append(fs, vwork.Field{ID: 1, Name: "message", V: &vwork.Value{T: thrift.STRING, S: it.msg}})
				} else {
					it.msg = ""
				}
				if s.Draw(5) != 4 {
					fs = append(fs, vwork.Field{ID: 2, Name: "type", V: &vwork.Value{T: thrift.I32, I: int64(it.typ)}})
				} else {
					it.typ = thrift.UNKNOWN_APPLICATION_EXCEPTION
				}
				if len(fs) == 2 && s.Draw(2) == 1 {
					fs[0], fs[1] = fs[1], fs[0]
				}
				if proto != vwork.SimpleJSON && len(fs) > 0 && s.Draw(5) == 4 {
					// a known field of another type counts as unknown
					f := &fs[s.Draw(len(fs))]
					v, _ := g.Struct()
					if s.Draw(2) == 1 && len(v.F) > 0 {
						v = v.F[s.Draw(len(v.F))].V
					}
					switch {
					case f.ID == 1 && v.T != thrift.STRING:
						f.V = v
						it.msg = ""
					case f.ID == 2 && v.T != thrift.I32:
						f.V = v
						it.typ = thrift.UNKNOWN_APPLICATION_EXCEPTION
					}
				}
				if proto != vwork.SimpleJSON {
					for j := s.Draw(3); j > 0; j-- {
						v, _ := g.Struct()
						f := vwork.Field{ID: int16(3 + s.Draw(60) + 100*j), Name: "extra", V: v}
						if s.Draw(2) == 1 && len(v.F) > 0 {
							f.V = v.F[0].V
						}
						at := s.Draw(len(fs) + 1)
						fs = append(fs[:at:at], append([]vwork.Field{f}, fs[at:]...)...)
					}
				}
				must(vwork.Write(w, &vwork.Value{T: thrift.STRUCT, Name: "TApplicationException", F: fs}))
			}
			if e := w.WriteMessageEnd(); e != nil {
				must(e)
			}
			items = append(items, it)
		}
		if e := w.Flush(); e != nil {
			must(e)
		}
		ends = append(ends, buf.Len())
	}
	B := append([]byte(nil), buf.Bytes()...)
	if framed {
		B, ends = frameUp(s, B, ends, s.Draw(3) == 2)
	}
	e.Desc("%s over %s framed=%v live=%v, %d messages, %d bytes %s", vwork.ProtoNames[proto], carNames[kind], framed, live, n, len(B), vwork.Hex(B))
	src := e.source(kind, B, framed, end, 0)
	if live {
		src.limit = ends[0]
	}
	p := vwork.Factory(proto).GetProtocol(src.T)
	for i, it := range items {
		e.Desc("message %d %s/%d/%d exception %d %q body %v", i, it.m.Name, it.m.Type, it.m.Seq, it.typ, it.msg, it.m.Body)
		if it.m.Body != nil {
			m, err := vwork.ReadMessage(p, it.m.Sch, 200000)
			if err != nil {
				s.Abort("read-failed", "message %d of %d (%v): %v", i, n, it.m, err)
			}
			if !m.Same(it.m, vwork.IsJSON(proto)) {
				s.Abort("decoded-wrong", "message %d of %d decoded as %v, written %v", i, n, m, it.m)
			}
		} else {
			name, typ, seq, err := p.ReadMessageBegin()
			if err != nil {
				s.Abort("exception-lost", "exception message %d of %d: %v", i, n, err)
			}
			if name != it.m.Name || typ != thrift.EXCEPTION || seq != it.m.Seq {
				s.Abort("exception-altered", "exception message %d of %d: header %q/%d/%d read as %q/%d/%d", i, n, it.m.Name, it.m.Type, it.m.Seq, name, typ, seq)
			}
			x, er := thrift.NewTApplicationExceptionDefault().Read(p)
			if er != nil {
				s.Abort("exception-lost", "exception message %d of %d: %v", i, n, er)
			}
			if err := p.ReadMessageEnd(); err != nil {
				s.Abort("exception-lost", "exception message %d of %d: %v", i, n, err)
			}
			if x.TypeId() != it.typ || x.Error() != it.msg {
				s.Abort("exception-altered", "exception message %d of %d: %d %q read as %d %q", i, n, it.typ, it.msg, x.TypeId(), x.Error())
			}
			e.NonTrivial = true
		}
		if live && i+1 < n {
			src.limit = ends[i+1]
		}
	}
	_ = vsim.Point
}

// c05Exception: an exception message on a stream that fails.
func c05Exception(e *Env) {
	s := e.S
	e.Swarm(false)
	proto := s.Draw(vwork.NumProto)
	framed := s.Draw(3) == 2
	typ, msg := int32(s.Draw(9)), vwork.ExcMsgs[s.Draw(len(vwork.ExcMsgs))]
	write := func(p thrift.TProtocol) error {
		if e := p.WriteMessageBegin("call", thrift.EXCEPTION, 7); e != nil {
			return e
		}
		if e := thrift.NewTApplicationException(typ, msg).Write(p); e != nil {
			return e
		}
		if e := p.WriteMessageEnd(); e != nil {
			return e
		}
		return p.Transport().Flush()
	}
	ref := &vwork.Sink{S: s, FailAt: -1}
	mk := func(k *vwork.Sink, how int) thrift.TTransport {
		var t thrift.TTransport
		switch how {
		case 0:
			t = thrift.NewTIOStreamTransportW(k)
		case 1:
			t = thrift.NewTIOStreamTransportRW(rwJoin{&vwork.Chunks{S: s}, k})
		case 2: // every write call goes straight to the stream
			t = &rawW{k}
		}
		if framed {
			t = thrift.NewTFramedTransport(t)
		}
		return t
	}
	how := s.Draw(3)
	if err := write(vwork.Factory(proto).GetProtocol(mk(ref, how))); err != nil {
		s.Abort("spurious-error", "writing an exception to a stream that takes everything: %v", err)
	}
	B := ref.B.Bytes()
	k := &vwork.Sink{S: s, FailAt: s.Draw(len(B)), Once: s.Draw(2) == 1}
	if s.Draw(3) == 2 {
		k.Err = io.ErrShortWrite
	}
	e.Desc("%s framed=%v unbuffered=%v: exception %d %q, %d bytes, failure at %d once=%v", vwork.ProtoNames[proto], framed, how == 2, typ, msg, len(B), k.FailAt, k.Once)
	err := write(vwork.Factory(proto).GetProtocol(mk(k, how)))
	if err == nil {
		s.Abort("loss-not-reported", "an exception message was written to a stream that failed at byte %d of %d, no call reported it; the stream holds %s", k.FailAt, len(B), vwork.Hex(k.B.Bytes()))
	}
	e.NonTrivial = true
}

// c05Source: a binary value taken from a reader that may end or fail before
// the size the caller announced. Then the bytes of the value that were promised
// to the peer will never be written, and the caller has to be told.
func c05Source(e *Env) {
	s := e.S
	e.Swarm(false)
	size := s.Size(6000)
	have := size
	short := s.Draw(4) != 3 && size > 0
	if short {
		have = s.Draw(size)
	} else {
		have += s.Draw(3) * s.Draw(40) // what is left in the reader is the caller's
	}
	b := make([]byte, have)
	for i := range b {
		b[i] = byte(i*7 + have)
	}
	src := &vwork.Chunks{S: s, B: b, Max: -1 - s.Draw(3000), EOFWith: s.Draw(2) == 1}
	if s.Draw(2) == 1 {
		src.Zero = 200
	}
	if s.Draw(3) == 2 {
		src.Err = errBroken
	}
	framed := s.Draw(3) == 2
	k := &vwork.Sink{S: s, FailAt: -1}
	var t thrift.TTransport
	switch s.Draw(3) {
	case 0:
		t = thrift.NewTIOStreamTransportW(k)
	case 1:
		t = vwork.Again(s, thrift.NewTIOStreamTransportRW(rwJoin{&vwork.Chunks{S: s}, k}))
	case 2:
		t = &rawW{k}
	}
	if framed {
		t = thrift.NewTFramedTransport(t)
	}
	p := thrift.NewTBinaryProtocolFactoryDefault().GetProtocol(t).(*thrift.TBinaryProtocol)
	e.Desc("framed=%v: a binary value of %d bytes from a reader of %d, error %v", framed, size, have, src.Err)
	var err error
	if x := p.WriteBinaryFromReader(src, size); x != nil {
		err = x
	}
	if short {
		s.Fault("source-short")
		if err == nil {
			s.Abort("loss-not-reported", "a binary value of %d bytes was written from a reader that ended after %d (error %v), no error was reported", size, have, src.Err)
		}
		e.NonTrivial = true
		return
	}
	if err != nil {
		s.Abort("spurious-error", "a binary value of %d bytes was written from a reader of %d: %v", size, have, err)
	}
	if err := t.Flush(); err != nil {
		s.Abort("spurious-error", "flush: %v", err)
	}
	want := append([]byte{byte(size >> 24), byte(size >> 16), byte(size >> 8), byte(size)}, b[:size]...)
	got := k.B.Bytes()
	if framed && len(got) >= 4 {
		got = got[4:]
	}
	if !bytes.Equal(got, want) {
		s.Abort("wrong-bytes", "a binary value of %d bytes written from a reader of %d: the stream holds %s, not %s", size, have, vwork.Hex(got), vwork.Hex(want))
	}
	e.NonTrivial = true
}

// rawW is the simplest transport: writes go to the stream, flush does nothing.
type rawW struct{ k *vwork.Sink }

func (r *rawW) IsOpen() bool                      { return true }
func (r *rawW) Open() error                       { return nil }
func (r *rawW) Close() error                      { return nil }
func (r *rawW) Read(b []byte) (int, error)        { return 0, io.EOF }
func (r *rawW) ReadAll(b []byte) (int, error)     { return 0, io.EOF }
func (r *rawW) Write(b []byte) (int, error)       { return r.k.Write(b) }
func (r *rawW) WriteString(b string) (int, error) { return r.k.Write([]byte(b)) }
func (r *rawW) Flush() error                      { return nil }
func (r *rawW) Peek() bool                        { return true }

var _ = vnet.FCut
