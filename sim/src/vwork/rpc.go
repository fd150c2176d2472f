package vwork

import (
	"fmt"
	"net"
	"thrift"
	"vsim"
)

// ---- protocols ----

const (
	Binary = iota
	Compact
	JSON
	SimpleJSON
	BinaryLax // no version word written
	NumProto
)

var ProtoNames = []string{"binary", "compact", "json", "simplejson", "binary-nonstrict"}

func Factory(p int) thrift.TProtocolFactory {
	switch p {
	case Compact:
		return thrift.NewTCompactProtocolFactory()
	case JSON:
		return thrift.NewTJSONProtocolFactory()
	case SimpleJSON:
		return thrift.NewTSimpleJSONProtocolFactory()
	case BinaryLax:
		return thrift.NewTBinaryProtocolFactory(false, false)
	}
	return thrift.NewTBinaryProtocolFactoryDefault()
}

func IsJSON(p int) bool { return p == JSON || p == SimpleJSON }

// Encode writes messages back to back through the real protocol into memory
// and returns the bytes and the end offset of every message.
func Encode(proto int, ms ...*Message) ([]byte, []int, error) {
	buf := thrift.NewTMemoryBuffer()
	p := Factory(proto).GetProtocol(buf)
	var ends []int
	for _, m := range ms {
		if e := WriteMessage(p, m); e != nil {
			return nil, nil, e
		}
		if e := p.Flush(); e != nil {
			return nil, nil, e
		}
		ends = append(ends, buf.Len())
	}
	return append([]byte(nil), buf.Bytes()...), ends, nil
}

// ---- calls ----

const (
	KNormal = iota
	KOneway
	KFail    // the handler fails: application exception
	KUnknown // method the server does not have
)

// Call is one RPC as the client intends it and as the server saw it.
type Call struct {
	K       int
	Kind    int
	Method  string
	Arg     *Value
	Body    *Value // args struct
	Sch     *Schema
	ExcType int32
	ExcMsg  string
	Work    int64 // simulated time the handler takes
	Corrupt bool  // sent by a client that may garble it
	Quit    bool  // the processor ends the connection after the reply

	Execs   int
	Ret     *Value // result struct of the execution
	RetSch  *Schema
	ReplyAt int64

	Started, Ended int64
	Done           bool
	Err            error
	Res            *Value
	App            thrift.TApplicationException
}

// Svc is the test service: processor, handler and registry.
type Svc struct {
	S       *vsim.Sim
	JSON    bool
	Calls   []*Call
	by      map[string]*Call
	nonce   int64
	OnExec  func(*Call)
	Proc    int // Process invocations
	Unknown int
	// Keep makes the processor keep the connection after an exception.
	Keep bool
	// Strict: a method that no client calls is a violation.
	Strict bool
	// Foreign: this side runs another implementation of the formats.
	Foreign bool
	// Lenient: a corrupted stream may legally decode to anything.
	Lenient bool
}

func NewSvc(s *vsim.Sim, json bool) *Svc {
	return &Svc{S: s, JSON: json, by: map[string]*Call{}, Strict: true, Keep: true}
}

var ExcMsgs = []string{"", "boom", "Unknown function x", "quote \" backslash \\ done", "Ünïcode 😀", "line\nbreak", "UNKNOWN"}

// NewExc makes an exception by one of the constructors that fit.
func NewExc(s *vsim.Sim, typ int32, msg string) thrift.TApplicationException {
	plain, unknown := typ == thrift.UNKNOWN_APPLICATION_EXCEPTION, msg == "UNKNOWN"
	switch k := s.Draw(3); {
	case k == 1 && plain && unknown:
		return thrift.NewTApplicationExceptionDefault()
	case k >= 1 && unknown:
		return thrift.NewTApplicationExceptionType(typ)
	case k >= 1 && plain:
		return thrift.NewTApplicationExceptionMessage(msg)
	}
	return thrift.NewTApplicationException(typ, msg)
}

// NewCall makes a call with generated arguments.
func (v *Svc) NewCall(kind int, g *Gen) *Call {
	k := len(v.Calls)
	arg, sch := g.Struct()
	c := &Call{K: k, Kind: kind, Method: fmt.Sprintf("call%d", k), Arg: arg}
	if g.S.Draw(16) == 15 {
		c.Method = g.LongName(c.Method + "_")
	}
	id := &Value{T: thrift.I64, I: int64(k)*1000003 + 17}
	c.Body = &Value{T: thrift.STRUCT, Name: "args", F: []Field{{1, "id", id}, {2, "arg", arg}}}
	c.Sch = &Schema{T: thrift.STRUCT, Fields: []SField{{1, "id", SchemaOf(id)}, {2, "arg", sch}}}
	ok := &Schema{T: thrift.STRUCT, Fields: []SField{{1, "id", &Schema{T: thrift.I64}}, {2, "nonce", &Schema{T: thrift.I64}}, {3, "echo", sch}}}
	c.RetSch = &Schema{T: thrift.STRUCT, Fields: []SField{{0, "success", ok}}}
	if kind == KFail {
		c.ExcType = int32(g.S.Draw(8))
		c.ExcMsg = ExcMsgs[g.S.Draw(len(ExcMsgs))]
	}
	v.Calls = append(v.Calls, c)
	if kind != KUnknown {
		v.by[c.Method] = c
	}
	return c
}

func (v *Svc) bad(c *Call, f string, a ...interface{}) {
	if v.Lenient || (c == nil && !v.Strict) || (c != nil && c.Corrupt) {
		return
	}
	v.S.Fail("server-decode", f, a...)
}

func (v *Svc) exception(name string, seq int32, x thrift.TApplicationException, out thrift.TProtocol) error {
	if e := out.WriteMessageBegin(name, thrift.EXCEPTION, seq); e != nil {
		return e
	}
	if v.Foreign {
		f := []Field{{1, "message", &Value{T: thrift.STRING, S: x.Error()}}, {2, "type", &Value{T: thrift.I32, I: int64(x.TypeId())}}}
		if v.S.Draw(4) == 3 {
			f[0], f[1] = f[1], f[0]
		}
		if e := Write(out, &Value{T: thrift.STRUCT, Name: "x", F: f}); e != nil {
			return e
		}
	} else if e := x.Write(out); e != nil {
		return e
	}
	if e := out.WriteMessageEnd(); e != nil {
		return e
	}
	return out.Transport().Flush()
}

// Process implements thrift.TProcessor the way generated code does.
func (v *Svc) Process(in, out thrift.TProtocol) (bool, thrift.TException) {
	v.Proc++
	Look(in.Transport())
	name, typ, seq, e := in.ReadMessageBegin()
	if e != nil {
		return false, e
	}
	c := v.by[name]
	if c == nil {
		v.Unknown++
		known := false
		for _, k := range v.Calls {
			if k.Method == name {
				known = true
			}
		}
		if !known {
			v.bad(nil, "server read a call of method %q that no client made", name)
		}
		if e := in.Skip(thrift.STRUCT); e != nil {
			return false, e
		}
		if e := in.ReadMessageEnd(); e != nil {
			return false, e
		}
		code := int32(thrift.UNKNOWN_METHOD)
		if v.Foreign {
			code = 1
		}
		x := thrift.NewTApplicationException(code, "Unknown function "+name)
		if e := v.exception(name, seq, x, out); e != nil {
			return false, e
		}
		return v.Keep, nil
	}
	want := thrift.TMessageType(thrift.CALL)
	if c.Kind == KOneway {
		want = thrift.ONEWAY
	}
	if typ != want {
		v.bad(c, "server read message type %d for %s, sent as %d", typ, name, want)
	}
	rd := &Reader{P: in, Limit: 200000}
	args, err := rd.Read(c.Sch)
	if err != nil {
		if _, ok := err.(SchemaError); ok {
			v.bad(c, "server decoded the arguments of %s as %v", name, err)
		}
		in.ReadMessageEnd()
		if c.Kind != KOneway && v.S.Flip(500) {
			x := thrift.NewTApplicationException(thrift.PROTOCOL_ERROR, err.Error())
			v.exception(name, seq, x, out)
		}
		return false, err
	}
	if e := in.ReadMessageEnd(); e != nil {
		return false, e
	}
	if !Equal(args, c.Body, v.JSON) {
		v.bad(c, "server executed %s with altered arguments: got %v, sent %v", name, args, c.Body)
	}
	c.Execs++
	if c.Execs > 1 && !v.Lenient && !c.Corrupt {
		v.S.Fail("executed-twice", "call %s was executed %d times", name, c.Execs)
	}
	v.nonce++
	c.Ret = &Value{T: thrift.STRUCT, Name: "result", F: []Field{{0, "success", &Value{T: thrift.STRUCT, Name: "ok", F: []Field{
		{1, "id", c.Body.F[0].V}, {2, "nonce", &Value{T: thrift.I64, I: v.nonce*7919 + 3}}, {3, "echo", c.Arg}}}}}}
	if c.Work > 0 {
		vsim.Sleep(timeDur(c.Work))
		if !Equal(args, c.Body, v.JSON) {
			v.bad(c, "the arguments of %s changed while it was executing: now %v, sent %v", name, args, c.Body)
		}
	}
	if v.OnExec != nil {
		v.OnExec(c)
	}
	switch c.Kind {
	case KOneway:
		return true, nil
	case KFail:
		x := NewExc(v.S, c.ExcType, c.ExcMsg)
		if e := v.exception(name, seq, x, out); e != nil {
			return false, e
		}
		if v.Keep {
			return true, nil
		}
		return false, x
	}
	if e := out.WriteMessageBegin(name, thrift.REPLY, seq); e != nil {
		return false, e
	}
	if e := Write(out, c.Ret); e != nil {
		return false, e
	}
	if e := out.WriteMessageEnd(); e != nil {
		return false, e
	}
	c.ReplyAt = v.S.Now()
	if e := out.Transport().Flush(); e != nil {
		return false, e
	}
	return !c.Quit, nil
}

// Client is the caller's side, as generated code does it.
type Client struct {
	Svc     *Svc
	In, Out thrift.TProtocol
	Seq     int32
	Foreign bool
}

func (v *Svc) NewClient(t thrift.TTransport, pf thrift.TProtocolFactory, shared bool) *Client {
	c := &Client{Svc: v}
	c.In = pf.GetProtocol(t)
	if shared {
		c.Out = c.In
	} else {
		c.Out = pf.GetProtocol(t)
	}
	c.Seq = []int32{0, 1000, 2000, 0x7ffffffd, -3, 32766, 65534}[v.S.Draw(7)]
	return c
}

// WrongReply is a reply that does not belong to the call.
type WrongReply string

func (w WrongReply) Error() string { return string(w) }

// Send writes the request.
func (c *Client) Send(k *Call) error {
	c.Seq++
	typ := thrift.TMessageType(thrift.CALL)
	if k.Kind == KOneway {
		typ = thrift.ONEWAY
	}
	if e := er(c.Out.WriteMessageBegin(k.Method, typ, c.Seq)); e != nil {
		return e
	}
	if e := Write(c.Out, k.Body); e != nil {
		return e
	}
	if e := er(c.Out.WriteMessageEnd()); e != nil {
		return e
	}
	return c.Out.Transport().Flush()
}

// Recv reads the reply to k, which was sent with sequence number seq.
func (c *Client) Recv(k *Call, seq int32) error {
	Look(c.In.Transport())
	name, typ, sq, e := c.In.ReadMessageBegin()
	if e != nil {
		return e
	}
	if name != k.Method || sq != seq {
		return WrongReply(fmt.Sprintf("reply is for %q/%d, called %q/%d", name, sq, k.Method, seq))
	}
	if typ == thrift.EXCEPTION {
		var y thrift.TApplicationException
		var err error
		if c.Foreign {
			y, err = readExc(c.In)
		} else {
			y, err = thrift.NewTApplicationExceptionDefault().Read(c.In)
		}
		if err != nil {
			return err
		}
		if e := c.In.ReadMessageEnd(); e != nil {
			return e
		}
		k.App = y
		return nil
	}
	if typ != thrift.REPLY {
		return WrongReply(fmt.Sprintf("reply to %q has message type %d", name, typ))
	}
	r := &Reader{P: c.In, Limit: 200000}
	v, err := r.Read(k.RetSch)
	if err != nil {
		if _, ok := err.(SchemaError); ok {
			return WrongReply("reply decoded as " + err.Error())
		}
		return err
	}
	if e := c.In.ReadMessageEnd(); e != nil {
		return e
	}
	k.Res = v
	return nil
}

// readExc reads an application exception without the library's help.
func readExc(p thrift.TProtocol) (thrift.TApplicationException, error) {
	sc := &Schema{T: thrift.STRUCT, Fields: []SField{{1, "message", &Schema{T: thrift.STRING}}, {2, "type", &Schema{T: thrift.I32}}}}
	r := &Reader{P: p, Limit: 1000}
	v, err := r.Read(sc)
	if err != nil {
		return nil, err
	}
	typ, msg := int32(-1), ""
	for _, f := range v.F {
		if f.ID == 1 {
			msg = f.V.S
		} else {
			typ = int32(f.V.I)
		}
	}
	if typ == 1 {
		typ = thrift.UNKNOWN_METHOD
	}
	return thrift.NewTApplicationException(typ, msg), nil
}

// Do performs the call.
func (c *Client) Do(k *Call) error {
	s := c.Svc.S
	k.Started = s.Now()
	s.Ev("call", int64(k.K), 0)
	err := c.Send(k)
	if err == nil && k.Kind != KOneway {
		err = c.Recv(k, c.Seq)
	}
	k.Err = err
	k.Ended = s.Now()
	k.Done = true
	ok := int64(1)
	if err != nil {
		ok = 0
		if s.Trace {
			s.Logf("call %s failed: %v", k.Method, err)
		}
	}
	s.Ev("return", int64(k.K), ok)
	c.Svc.Check(k)
	return err
}

// Check is the per-call invariant: a call that returned without an error
// returned exactly what its one execution produced.
func (v *Svc) Check(k *Call) {
	s := v.S
	if w, ok := k.Err.(WrongReply); ok && !v.Lenient {
		s.Fail("wrong-reply", "call %s: %s", k.Method, string(w))
		return
	}
	if k.Err != nil || k.Kind == KOneway || v.Lenient {
		return
	}
	switch k.Kind {
	case KNormal:
		if k.App != nil {
			if k.App.TypeId() == thrift.PROTOCOL_ERROR && k.Execs == 0 {
				return // the server reported that it could not read the request
			}
			s.Fail("wrong-exception", "call %s returned application exception %d %q the server never raised", k.Method, k.App.TypeId(), k.App.Error())
			return
		}
		if k.Execs == 0 {
			s.Fail("success-without-execution", "call %s returned %v but was never executed", k.Method, k.Res)
			return
		}
		if !Equal(k.Res, k.Ret, v.JSON) {
			s.Fail("wrong-result", "call %s returned %v, its execution returned %v", k.Method, k.Res, k.Ret)
		}
	case KFail:
		if k.App == nil {
			s.Fail("exception-lost", "call %s returned %v, the server answered with an application exception", k.Method, k.Res)
			return
		}
		if k.App.TypeId() == thrift.PROTOCOL_ERROR && k.Execs == 0 {
			return
		}
		if k.App.TypeId() != k.ExcType || k.App.Error() != k.ExcMsg {
			s.Fail("exception-altered", "call %s: exception arrived as %d %q, sent as %d %q", k.Method, k.App.TypeId(), k.App.Error(), k.ExcType, k.ExcMsg)
		}
	case KUnknown:
		if k.App == nil {
			s.Fail("exception-lost", "unknown method %s returned %v", k.Method, k.Res)
			return
		}
		if k.App.TypeId() != thrift.UNKNOWN_METHOD || k.App.Error() != "Unknown function "+k.Method {
			s.Fail("exception-altered", "unknown method %s: exception arrived as %d %q", k.Method, k.App.TypeId(), k.App.Error())
		}
	}
}

// ---- stacks ----

// Stack is one configuration of protocol, transports and server.
type Stack struct {
	Proto      int
	Framed     bool
	CliNB      bool // TNonblockingSocket instead of TSocket
	SrvSockNB  bool // TNonblockingServerSocket instead of TServerSocket
	SrvNB      bool // TNonblockingServer instead of TSimpleServer
	FromLn     bool // server socket made from an existing listener
	Ctor       int  // which constructor makes the server
	CliCtor    int  // which one the client sockets
	Asym       bool // replies use another protocol or framing than requests
	OutProto   int
	OutFramed  bool
	CliTimeout int64
	SrvTimeout int64
}

func (k *Stack) String() string {
	b := func(x bool, t, f string) string {
		if x {
			return t
		}
		return f
	}
	out := ""
	if k.Asym {
		out = " replies " + ProtoNames[k.OutProto] + " " + b(k.OutFramed, "framed", "unframed")
	}
	return fmt.Sprintf("%s %s client=%s/%v server=%s/%s/%v%s%s", ProtoNames[k.Proto], b(k.Framed, "framed", "unframed"),
		b(k.CliNB, "TNonblockingSocket", "TSocket"), timeDur(k.CliTimeout),
		b(k.SrvNB, "TNonblockingServer", "TSimpleServer"), b(k.SrvSockNB, "TNonblockingServerSocket", "TServerSocket"), timeDur(k.SrvTimeout), b(k.FromLn, "/listener", ""), out)
}

func DrawStack(s *vsim.Sim) *Stack {
	k := &Stack{}
	k.Proto = s.Draw(NumProto)
	k.Framed = s.Draw(2) == 1
	k.CliNB = s.Draw(3) == 2
	k.SrvNB = s.Draw(2) == 1
	k.SrvSockNB = s.Draw(3) == 2
	k.FromLn = k.SrvSockNB && s.Draw(4) == 3
	k.Ctor = s.Draw(5)
	k.CliCtor = s.Draw(4)
	return k
}

// Asymmetric lets the replies use another protocol and framing, sometimes.
func (k *Stack) Asymmetric(s *vsim.Sim) {
	if s.Draw(6) == 5 {
		k.Asym = true
		k.OutProto = s.Draw(NumProto)
		k.OutFramed = s.Draw(2) == 1
	}
}

// JSON reports whether values must survive a JSON protocol.
func (k *Stack) JSON() bool { return IsJSON(k.GenProto()) }

// GenProto is the protocol that limits the values most.
func (k *Stack) GenProto() int {
	if k.Asym && IsJSON(k.OutProto) {
		return k.OutProto
	}
	return k.Proto
}

// Duo is a client transport whose two directions are framed differently.
type Duo struct {
	thrift.TTransport
	In, Out thrift.TTransport
}

func frame(t thrift.TTransport, framed bool) thrift.TTransport {
	if framed {
		return thrift.NewTFramedTransport(t)
	}
	return t
}

// Client makes a client on a transport made by Frame.
func (k *Stack) Client(v *Svc, t thrift.TTransport, shared bool) *Client {
	d, ok := t.(*Duo)
	if !ok {
		return v.NewClient(t, Factory(k.Proto), shared)
	}
	c := v.NewClient(t, Factory(k.Proto), true)
	c.In = Factory(k.OutProto).GetProtocol(d.In)
	c.Out = Factory(k.Proto).GetProtocol(d.Out)
	return c
}

var TheAddr = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9090}

func (k *Stack) Frame(t thrift.TTransport) thrift.TTransport {
	if k.Asym {
		return &Duo{t, frame(t, k.OutFramed), frame(t, k.Framed)}
	}
	return frame(t, k.Framed)
}

// Sock makes an unopened client socket.
func (k *Stack) Sock(addr net.Addr) thrift.TTransport {
	if k.CliNB {
		switch k.CliCtor {
		case 1:
			t, _ := thrift.NewTNonblockingSocketAddr(addr)
			t.SetTimeout(k.CliTimeout)
			return t
		case 2:
			t := thrift.NewTNonblockingSocketTransportFactory(addr).GetTransport(nil).(*thrift.TNonblockingSocket)
			t.SetTimeout(k.CliTimeout)
			return t
		case 3:
			t, _ := thrift.NewTNonblockingSocketAddrTimeout(addr, k.CliTimeout)
			return thrift.NewTNonblockingSocketTransportFactory(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9}).GetTransport(t)
		}
		t, _ := thrift.NewTNonblockingSocketAddrTimeout(addr, k.CliTimeout)
		return t
	}
	if k.CliCtor == 1 {
		t := thrift.NewTSocketAddr(addr)
		t.SetTimeout(k.CliTimeout)
		return t
	}
	return thrift.NewTSocket(addr, k.CliTimeout)
}

// SockConn wraps a connection.
func (k *Stack) SockConn(c net.Conn) thrift.TTransport {
	if k.CliNB {
		t, _ := thrift.NewTNonblockingSocketConn(c)
		t.SetTimeout(k.CliTimeout)
		return t
	}
	t, _ := thrift.NewTSocketConnTimeout(c, k.CliTimeout)
	return t
}

func (k *Stack) TF(framed bool) thrift.TTransportFactory {
	if framed {
		return thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory())
	}
	return thrift.NewTTransportFactory()
}

type Server interface {
	Serve() error
	Stop() error
}

type Srv struct {
	Server
	ST       thrift.TServerTransport
	Returned bool
	Err      error
	Task     *vsim.Task
	StopAt   int64
	RetAt    int64
}

// perConn makes a processor of its own for every connection.
type perConn struct{ P thrift.TProcessor }

func (f *perConn) GetProcessor(t thrift.TTransport) thrift.TProcessor { return &one{f.P} }

type one struct{ thrift.TProcessor }

// NewServer makes a server (not serving yet).
func (k *Stack) NewServer(p thrift.TProcessor, addr net.Addr, ln net.Listener) *Srv {
	r := &Srv{}
	switch {
	case k.SrvSockNB && ln != nil:
		t, _ := thrift.NewTNonblockingServerSocketListener(ln)
		t.SetTimeout(k.SrvTimeout)
		r.ST = t
	case k.SrvSockNB && k.SrvTimeout == 0:
		t, _ := thrift.NewTNonblockingServerSocketAddr(addr)
		r.ST = t
	case k.SrvTimeout == 0:
		t, _ := thrift.NewTServerSocketAddr(addr)
		r.ST = t
	case k.SrvSockNB:
		t, _ := thrift.NewTNonblockingServerSocketAddrTimeout(addr, k.SrvTimeout)
		r.ST = t
	default:
		t, _ := thrift.NewTServerSocketAddrTimeout(addr, k.SrvTimeout)
		r.ST = t
	}
	tf, pf := k.TF(k.Framed), Factory(k.Proto)
	otf, opf := k.TF(k.Framed), Factory(k.Proto)
	if k.Asym {
		otf, opf = k.TF(k.OutFramed), Factory(k.OutProto)
	}
	fac := &perConn{P: p}
	ctor := k.Ctor
	if k.Asym && ctor < 3 {
		ctor = 1
	}
	if k.SrvNB {
		switch ctor {
		case 1:
			r.Server = thrift.NewTNonblockingServer6(p, r.ST, tf, otf, pf, opf)
		case 2:
			r.Server = thrift.NewTNonblockingServerFactory4(fac, r.ST, tf, pf)
			if k.Proto == Binary && !k.Framed {
				r.Server = thrift.NewTNonblockingServerFactory2(fac, r.ST)
			}
		case 3:
			r.Server = thrift.NewTNonblockingServerFactory6(fac, r.ST, tf, otf, pf, opf)
		case 4:
			r.Server = thrift.NewTNonblockingServerFactory6(thrift.NewTProcessorFactory(p), r.ST, tf, otf, pf, opf)
		default:
			r.Server = thrift.NewTNonblockingServer4(p, r.ST, tf, pf)
			if k.Proto == Binary && !k.Framed {
				r.Server = thrift.NewTNonblockingServer2(p, r.ST)
			}
		}
	} else {
		switch ctor {
		case 1:
			r.Server = thrift.NewTSimpleServer6(p, r.ST, tf, otf, pf, opf)
		case 2:
			r.Server = thrift.NewTSimpleServerFactory4(fac, r.ST, tf, pf)
			if k.Proto == Binary && !k.Framed {
				r.Server = thrift.NewTSimpleServerFactory2(fac, r.ST)
			}
		case 3:
			r.Server = thrift.NewTSimpleServerFactory6(fac, r.ST, tf, otf, pf, opf)
		case 4:
			r.Server = thrift.NewTSimpleServerFactory6(thrift.NewTProcessorFactory(p), r.ST, tf, otf, pf, opf)
		default:
			r.Server = thrift.NewTSimpleServer4(p, r.ST, tf, pf)
			if k.Proto == Binary && !k.Framed {
				r.Server = thrift.NewTSimpleServer2(p, r.ST)
			}
		}
	}
	return r
}

// Start serves in a new task of the given group.
func (r *Srv) Start(s *vsim.Sim, group string) {
	r.Task = s.GoGroup(group, "serve", func() {
		r.Err = r.Serve()
		r.Returned = true
		r.RetAt = s.Now()
		s.Ev("serve-returned", 0, 0)
	})
}

// Alias registers a renamed call.
func (v *Svc) Alias(c *Call) {
	for m, x := range v.by {
		if x == c {
			delete(v.by, m)
		}
	}
	v.by[c.Method] = c
}
