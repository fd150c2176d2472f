package vprops

import (
	"fmt"
	"net"
	"simple"
	"thrift"
	"time"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C01", "large", 1, large(c01RPC))
	reg("C01", "rpc", 50, c01RPC)
	reg("C01", "golden", 10, c01Golden)
	reg("C01", "http", 10, c01HTTP)
	reg("C01", "many", 3, c01Many)
}

// startServer starts a server of the stack and waits until it listens.
func (e *Env) startServer(k *vwork.Stack, p thrift.TProcessor, group string) *vwork.Srv {
	var ln net.Listener
	if k.FromLn {
		ln, _ = vnet.Listen("tcp", vwork.TheAddr.String())
		if l, ok := ln.(*vnet.TCPListener); ok {
			l.Group = group
		}
	}
	r := k.NewServer(p, vwork.TheAddr, ln)
	r.Start(e.S, group)
	e.waitServing(r)
	return r
}

func (e *Env) waitServing(r *vwork.Srv) {
	a := vwork.TheAddr.String()
	vsim.WaitFor("server up", func() bool {
		if r.Returned {
			return true
		}
		l := e.N.Listener(a)
		return l != nil && l.Calls > 0
	})
	if r.Returned && !e.S.Failed() {
		e.S.Fail("serve-failed", "server returned instead of serving: %v", r.Err)
		vsim.Exit()
	}
}

func (e *Env) planAll() {
	e.N.PlanConn = func(addr string, n int) *vnet.Plan {
		p := e.Plan()
		e.Desc("conn %d %s", n, planStr(p))
		return p
	}
}

const ms = int64(time.Millisecond)

func c01RPC(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	k.Asymmetric(s)
	k.CliTimeout = []int64{0, 0, 360000 * sec}[s.Draw(3)]
	k.SrvTimeout = []int64{0, 0, 360000 * sec}[s.Draw(3)]
	e.Desc("%v", k)
	svc := vwork.NewSvc(s, k.JSON())
	g := e.Gen(k.GenProto())
	e.planAll()
	e.startServer(k, svc, "server")
	nc := s.Range(1, 4)
	var fs []func()
	calls := 0
	for c := 0; c < nc; c++ {
		n := s.Range(1, 5)
		var ks []*vwork.Call
		for i := 0; i < n; i++ {
			kind := vwork.KNormal
			switch s.Draw(12) {
			case 10:
				kind = vwork.KFail
			case 11:
				kind = vwork.KOneway
			}
			cl := svc.NewCall(kind, g)
			if s.Draw(8) == 7 {
				cl.Work = ms * int64(1+s.Draw(50))
				if s.Draw(4) == 3 {
					cl.Work = []int64{35 * sec, 130 * sec, 1000 * sec}[s.Draw(3)]
				}
			}
			ks = append(ks, cl)
		}
		calls += n
		pause := int64(0)
		if s.Draw(4) == 3 {
			pause = []int64{ms * int64(s.Draw(100)), ms * int64(s.Draw(100)), 90 * sec, 3000 * sec}[s.Draw(4)]
		}
		shared := s.Draw(2) == 0
		reopen := s.Draw(5) == 4
		fs = append(fs, func() { e.healthyClient(k, svc, ks, pause, shared, reopen) })
	}
	e.Desc("%d clients, %d calls", nc, calls)
	e.All("client", fs...)
	vsim.WaitIdle()
	for _, c := range svc.Calls {
		if c.Execs != 1 && c.Kind != vwork.KUnknown {
			s.Fail("not-executed", "call %s (kind %d) was executed %d times", c.Method, c.Kind, c.Execs)
		}
	}
	e.NonTrivial = s.Switches > 3
}

// c01Many: many clients at once, or many calls on one connection.
func c01Many(e *Env) {
	s := e.S
	if s.Draw(2) == 1 {
		e.Swarm(false)
	}
	e.Timing = s.PreemptMax == 0
	k := vwork.DrawStack(s)
	k.Asymmetric(s)
	svc := vwork.NewSvc(s, k.JSON())
	g := e.Gen(k.GenProto())
	g.Depth, g.Big = 1, 0
	nc, n := 1, 1
	if s.Draw(2) == 1 {
		nc = 5 + s.Draw(120)
	} else {
		n = 20 + s.Draw(400)
		if s.Draw(6) == 5 {
			n += 1100
		}
	}
	mem := s.Draw(3) == 2
	e.Desc("%v: %d clients, %d calls each", k, nc, n)
	e.N.PlanConn = func(string, int) *vnet.Plan {
		p := &vnet.Plan{}
		if mem {
			p.C2S.Seg, p.S2C.Seg = -40, -40
		}
		return p
	}
	e.startServer(k, svc, "server")
	var fs []func()
	for c := 0; c < nc; c++ {
		var ks []*vwork.Call
		for i := 0; i < n; i++ {
			kind := vwork.KNormal
			switch s.Draw(12) {
			case 10:
				kind = vwork.KFail
			case 11:
				kind = vwork.KOneway
			}
			ks = append(ks, svc.NewCall(kind, g))
		}
		shared, reopen := s.Draw(2) == 0, s.Draw(5) == 4
		fs = append(fs, func() { e.healthyClient(k, svc, ks, 0, shared, reopen) })
	}
	e.All("client", fs...)
	vsim.WaitIdle()
	for _, c := range svc.Calls {
		if c.Execs != 1 {
			s.Fail("not-executed", "call %s (kind %d) was executed %d times", c.Method, c.Kind, c.Execs)
		}
	}
	e.NonTrivial = s.Switches > 3
}

// healthyClient performs calls on one connection and requires all to succeed
// within the network delay.
func (e *Env) healthyClient(k *vwork.Stack, svc *vwork.Svc, ks []*vwork.Call, pause int64, shared, reopen bool) {
	s := e.S
	t := k.Frame(k.Sock(vwork.TheAddr))
	if err := t.Open(); err != nil {
		s.Abort("open-failed", "open on a healthy network: %v", err)
	}
	cl := k.Client(svc, t, shared)
	conn := e.Conn[vsim.Cur()]
	var oneway int64
	for i, c := range ks {
		if reopen && i == len(ks)/2 && i > 0 {
			if err := t.Close(); err != nil {
				s.Abort("close-failed", "close: %v", err)
			}
			if err := t.Open(); err != nil {
				s.Abort("open-failed", "reopen on a healthy network: %v", err)
			}
			cl = k.Client(svc, t, shared)
			conn = e.Conn[vsim.Cur()]
		}
		if pause > 0 {
			vsim.Sleep(time.Duration(pause))
		}
		if err := cl.Do(c); err != nil {
			s.Abort("call-failed", "call %s on a healthy network: %v", c.Method, err)
		}
		if c.Kind == vwork.KOneway {
			oneway += c.Work
			continue
		}
		if e.Timing && conn != nil {
			if late := c.Ended - conn.LastIn(); late > ms && c.Ended-c.Started > ms {
				s.Abort("late-reply", "call %s returned %v after the last byte of its reply had arrived", c.Method, time.Duration(late))
			}
			if k.SrvNB && c.ReplyAt > 0 {
				if late := c.ReplyAt - conn.LastOut() - c.Work - oneway; late > ms {
					s.Abort("late-request", "call %s was answered %v after the last byte of its request had arrived", c.Method, time.Duration(late))
				}
			}
		}
	}
	if err := t.Close(); err != nil {
		s.Abort("close-failed", "close: %v", err)
	}
}

// ---- golden generated code ----

type goldenHandler struct {
	s     *vsim.Sim
	execs map[string]int
}

func (h *goldenHandler) Echo(m *simple.ContainerOfEnums) (*simple.ContainerOfEnums, error) {
	h.execs[goldStr(m)]++
	vsim.Point()
	r := simple.NewContainerOfEnums()
	if m != nil {
		*r = *m
	}
	return r, nil
}

func goldStr(m *simple.ContainerOfEnums) string {
	if m == nil {
		return "<nil>"
	}
	r := fmt.Sprintf("%d,%d,%d", m.First, m.Second, m.Third)
	if m.IsSetOptionalFourth() {
		r += fmt.Sprintf(",4:%d", m.OptionalFourth)
	}
	if m.IsSetOptionalFifth() {
		r += fmt.Sprintf(",5:%d", m.OptionalFifth)
	}
	if m.IsSetOptionalSixth() {
		r += fmt.Sprintf(",6:%d", m.OptionalSixth)
	}
	return r
}

func goldMsg(s *vsim.Sim) *simple.ContainerOfEnums {
	m := simple.NewContainerOfEnums()
	m.First = simple.UndefinedValues(s.Draw(3))
	m.Second = simple.DefinedValues(s.Draw(3) + 1)
	m.Third = simple.HeterogeneousValues(s.Draw(4))
	if o := s.Draw(12); o >= 8 {
		m.OptionalFourth = simple.UndefinedValues(s.Draw(3))
		if o > 9 {
			m.OptionalFifth = simple.DefinedValues(s.Draw(3) + 1)
		}
		if o&1 == 1 {
			m.OptionalSixth = simple.HeterogeneousValues(s.Draw(4))
		}
	}
	return m
}

func c01Golden(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	e.Desc("golden %v", k)
	h := &goldenHandler{s: s, execs: map[string]int{}}
	e.planAll()
	e.startServer(k, simple.NewContainerOfEnumsTestServiceProcessor(h), "server")
	nc := s.Range(1, 3)
	var fs []func()
	sent := map[string]int{}
	for c := 0; c < nc; c++ {
		n := s.Range(1, 5)
		var ms []*simple.ContainerOfEnums
		for i := 0; i < n; i++ {
			m := goldMsg(s)
			ms = append(ms, m)
			sent[goldStr(m)]++
		}
		fs = append(fs, func() {
			t := k.Frame(k.Sock(vwork.TheAddr))
			if err := t.Open(); err != nil {
				s.Abort("open-failed", "open on a healthy network: %v", err)
			}
			cl := simple.NewContainerOfEnumsTestServiceClientFactory(t, vwork.Factory(k.Proto))
			for _, m := range ms {
				r, err := cl.Echo(m)
				if err != nil {
					s.Abort("call-failed", "generated echo(%s) failed: %v", goldStr(m), err)
				}
				if goldStr(r) != goldStr(m) {
					s.Abort("wrong-result", "generated echo(%s) returned %s", goldStr(m), goldStr(r))
				}
			}
			t.Close()
		})
	}
	e.All("client", fs...)
	vsim.WaitIdle()
	for m, n := range sent {
		if h.execs[m] != n {
			s.Fail("not-executed", "echo(%s) sent %d times, executed %d times", m, n, h.execs[m])
		}
	}
	e.NonTrivial = s.Switches > 3
}

// ---- HTTP ----

// serveHTTP answers an exchange by running the processor on its body.
func serveHTTP(k *vwork.Stack, p thrift.TProcessor, x *vwork.Exchange) error {
	in, out := thrift.NewTMemoryBuffer(), thrift.NewTMemoryBuffer()
	in.Write(x.Req)
	_, err := p.Process(vwork.Factory(k.Proto).GetProtocol(k.Frame(in)), vwork.Factory(k.Proto).GetProtocol(k.Frame(out)))
	x.Resp = append([]byte(nil), out.Bytes()...)
	if err != nil {
		return err
	}
	return nil
}

func (e *Env) httpShape(x *vwork.Exchange) {
	s := e.S
	switch s.Draw(4) {
	case 1:
		x.Chunk = 1 + s.Draw(5)
	case 2:
		x.Chunk = -20
	case 3:
		x.Chunk = -200
	}
	if e.Coarse {
		x.Chunk *= 1000
	}
	if s.Draw(3) == 2 {
		x.Gap = ms * int64(1+s.Draw(20))
	}
	x.EOFWith = s.Draw(2) == 1
	x.Length = s.Draw(2) == 1
	x.Delay = latencies[s.Draw(len(latencies))]
	if s.Draw(8) == 7 {
		x.Delay = []int64{35 * sec, 130 * sec, 1000 * sec}[s.Draw(3)]
	}
	if s.Draw(12) == 11 {
		x.Gap = []int64{35 * sec, 130 * sec}[s.Draw(2)]
	}
}

// openTail is how long the body of some responses stays open after its last
// byte; nothing but reading on may take that long.
const openTail = 20000 * sec

func (e *Env) httpTail(x *vwork.Exchange) {
	if e.S.Draw(8) == 7 {
		x.Tail, x.Length = openTail, false
	}
}

func (e *Env) noTail(since int64, what string) {
	if d := e.S.Now() - since; d >= openTail {
		e.S.Abort("waits", "%s took %v: it waited for the end of a response body that had already brought all of its bytes", what, time.Duration(d))
	}
}

func c01HTTP(e *Env) {
	s := e.S
	e.Swarm(false)
	k := &vwork.Stack{Proto: s.Draw(vwork.NumProto), Framed: s.Draw(4) == 3}
	e.Desc("http %s framed=%v", vwork.ProtoNames[k.Proto], k.Framed)
	svc := vwork.NewSvc(s, k.JSON())
	g := e.Gen(k.GenProto())
	h := vwork.InstallHTTP(s)
	h.Serve = func(x *vwork.Exchange) {
		serveHTTP(k, svc, x)
		e.httpShape(x)
		e.httpTail(x)
	}
	nc := s.Range(1, 3)
	var fs []func()
	for c := 0; c < nc; c++ {
		n := s.Range(1, 4)
		var ks []*vwork.Call
		for i := 0; i < n; i++ {
			kind := vwork.KNormal
			switch s.Draw(8) {
			case 6:
				kind = vwork.KOneway
			case 7:
				kind = vwork.KFail
			}
			ks = append(ks, svc.NewCall(kind, g))
		}
		shared := s.Draw(2) == 0
		fs = append(fs, func() {
			t0, err := thrift.NewTHttpPostClient("http://sim.test:8080/svc")
			if err != nil {
				s.Abort("open-failed", "NewTHttpPostClient: %v", err)
			}
			t := k.Frame(t0)
			t.Open()
			cl := k.Client(svc, t, shared)
			for _, c := range ks {
				at := s.Now()
				if err := cl.Do(c); err != nil {
					s.Abort("call-failed", "call %s over healthy HTTP: %v", c.Method, err)
				}
				e.noTail(at, "call "+c.Method)
			}
			at := s.Now()
			t.Close()
			e.noTail(at, "Close")
		})
	}
	e.All("client", fs...)
	for _, c := range svc.Calls {
		if c.Execs != 1 {
			s.Fail("not-executed", "call %s was executed %d times", c.Method, c.Execs)
		}
	}
	e.NonTrivial = len(h.Log) > 0
}
