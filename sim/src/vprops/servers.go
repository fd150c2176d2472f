package vprops

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"thrift"
	"time"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C10", "stop", 10, c10Stop)
	reg("C10", "accept-fails", 1, c10AcceptFails)
	reg("C11", "bad-clients", 10, c11Bad)
	reg("C11", "one-at-a-time", 4, c11Simple)
	reg("C12", "server", 10, c12Server)
	reg("C12", "client", 3, c12Client)
	reg("C12", "stream", 2, c12Stream)
	reg("C12", "http", 3, func(e *Env) { httpMachine(e, true) })
}

// someTime waits: not at all, for some scheduling steps, or for some time.
func (e *Env) someTime(max int64) {
	s := e.S
	switch s.Draw(4) {
	case 1:
		n := s.Draw(40)
		vsim.WaitUntil("some-steps", s.Now()+max, func() bool { n--; return n < 0 })
	case 2:
		n := s.Draw(400)
		vsim.WaitUntil("some-steps", s.Now()+max, func() bool { n--; return n < 0 })
	case 3:
		vsim.Sleep(time.Duration(1 + int64(s.Draw(1000))*max/1000))
	}
}

func (e *Env) callKind() int {
	return []int{vwork.KNormal, vwork.KNormal, vwork.KNormal, vwork.KFail, vwork.KOneway, vwork.KUnknown}[e.S.Draw(6)]
}

func lib(t *vsim.Task) bool { return t.Lib }

func serverEnd(c *vnet.TCPConn) bool { return !c.Client && c.Accepted }

func epStr(cs []*vnet.TCPConn) string {
	var a []string
	for _, c := range cs {
		a = append(a, fmt.Sprintf("conn %d (%d bytes in, %d out, reset=%v, peer closed=%v)", c.ID/2, len(c.In()), len(c.Out()), c.WasReset(), c.Peer.Closed))
	}
	return strings.Join(a, ", ")
}

// ---- C10 ----

// How long a stop, or a serve call after it, may take.
const stopSlack = sec

// c10AcceptFails: the accepts of a server go on failing. It may return from
// Serve by itself; if it goes on, a stop still ends it.
func c10AcceptFails(e *Env) {
	s := e.S
	k := vwork.DrawStack(s)
	svc := vwork.NewSvc(s, k.JSON())
	g := e.Gen(k.GenProto())
	e.planAll()
	e.Desc("%v", k)
	addr := vwork.TheAddr.String()
	var ln net.Listener
	if k.FromLn {
		ln, _ = vnet.Listen("tcp", addr)
	}
	r := k.NewServer(svc, vwork.TheAddr, ln)
	r.Start(s, "server")
	vsim.WaitFor("server up", func() bool {
		l := e.N.Listener(addr)
		return r.Returned || l != nil && (!k.FromLn || l.Calls > 0)
	})
	if r.Returned {
		s.Abort("serve-failed", "server returned instead of serving: %v", r.Err)
	}
	l := e.N.Listener(addr)
	for i, n := 0, s.Draw(3); i < n; i++ {
		e.healthyClient(k, svc, []*vwork.Call{svc.NewCall(vwork.KNormal, g)}, 0, true, false)
	}
	l.Fails, l.FailTime = []int{1, 2, 5, 30, 1000000}[s.Draw(5)], 10*ms
	// the server is waiting in an accept that will not fail
	d, err := vnet.Dial("tcp", addr)
	if err != nil {
		s.Abort("open-failed", "dialing a listening address: %v", err)
	}
	if s.Draw(2) == 1 {
		d.Close()
	}
	wait := []int64{0, ms, 100 * ms, 2 * sec, 60 * sec}[s.Draw(5)]
	deadline := s.Now() + wait
	vsim.WaitUntil("accepts fail", deadline, func() bool { return r.Returned })
	if !r.Returned {
		s.Probe("survives-accept-errors")
	}
	at := s.Now()
	if err := r.Stop(); err != nil {
		s.Abort("stop-failed", "Stop returned %v", err)
	}
	d.Close()
	l.Fails = 0
	vsim.WaitUntil("serve returns", at+3600*sec, func() bool { return r.Returned })
	for _, c := range e.N.Conns {
		if p := c.Peer; p.Accepted && p.Closed {
			at = max(at, p.ClosedAt)
		}
	}
	end := s.Now()
	if r.Returned {
		end = r.RetAt
	}
	if end-at > stopSlack {
		s.Abort("late-return", "Serve went on for %v after the stop and after the last connection had ended (accepts had failed before)", time.Duration(end-at))
	}
	for _, x := range e.N.ListenAll {
		if !x.Closed {
			s.Abort("still-bound", "Stop and Serve have returned but the listener is still open")
		}
	}
	e.NonTrivial = true
}

func c10Stop(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	k.Asymmetric(s)
	k.SrvTimeout = []int64{0, 3600 * sec}[s.Draw(2)]
	svc := vwork.NewSvc(s, k.JSON())
	svc.Keep = s.Draw(4) != 3
	g := e.Gen(k.GenProto())
	e.planAll()
	e.Desc("%v", k)
	addr := vwork.TheAddr.String()

	var ln net.Listener
	if k.FromLn {
		ln, _ = vnet.Listen("tcp", addr)
	}
	r := k.NewServer(svc, vwork.TheAddr, ln)
	r.Start(s, "server")
	vsim.WaitFor("server up", func() bool {
		l := e.N.Listener(addr)
		return r.Returned || l != nil && (!k.FromLn || l.Calls > 0)
	})
	if r.Returned {
		s.Abort("serve-failed", "server returned instead of serving: %v", r.Err)
	}
	l := e.N.Listener(addr)
	if s.Draw(2) == 1 {
		s.LookForRaces()
	}

	stopAt, downAt := int64(-1), int64(-1)
	stopping := 0
	stop := func(who string) {
		stopping++
		if stopAt < 0 {
			stopAt = s.Now()
		}
		s.Ev("stop", 0, 0)
		at := s.Now()
		if err := r.Stop(); err != nil {
			s.Abort("stop-failed", "Stop (from %s) returned %v", who, err)
		}
		if x, ok := r.Server.(interface{ IsStopped() bool }); ok && !x.IsStopped() {
			s.Abort("not-stopped", "IsStopped is false after Stop (from %s) returned", who)
		}
		if d := s.Now() - at; e.Timing && d > stopSlack {
			s.Abort("slow-stop", "Stop took %v", time.Duration(d))
		}
		stopping--
		if stopping == 0 {
			if downAt < 0 {
				downAt = s.Now()
			}
			if x := e.N.Listener(addr); x != nil {
				s.Abort("still-bound", "after Stop (from %s) returned the server still listens on its address", who)
			}
		}
	}

	if x, ok := r.Server.(interface{ IsStopped() bool }); ok && x.IsStopped() {
		s.Abort("not-stopped", "IsStopped of a serving server")
	}
	nc := s.Draw(5)
	total := 0
	var stopCall *vwork.Call
	var fs []func()
	for c := 0; c < nc; c++ {
		n := s.Range(1, 4)
		var ks []*vwork.Call
		for i := 0; i < n; i++ {
			cl := svc.NewCall([]int{vwork.KNormal, vwork.KNormal, vwork.KOneway}[s.Draw(3)], g)
			if s.Draw(8) == 7 {
				cl.Work = ms * int64(1+s.Draw(50))
			}
			ks = append(ks, cl)
			if stopCall == nil && s.Draw(10) == 9 {
				stopCall = cl
			}
		}
		total += n
		shared := s.Draw(2) == 0
		hold := s.Draw(4) == 3
		fs = append(fs, func() {
			e.someTime(200 * ms)
			t := k.Frame(k.Sock(vwork.TheAddr))
			after := downAt >= 0
			if err := t.Open(); err != nil {
				if stopAt < 0 {
					s.Abort("open-failed", "open on a healthy network before any stop: %v", err)
				}
				return
			}
			cl := k.Client(svc, t, shared)
			for _, c := range ks {
				if err := cl.Do(c); err != nil {
					if stopAt < 0 {
						s.Abort("call-failed", "call %s on a healthy network before any stop: %v", c.Method, err)
					}
					break
				}
				if after && c.Kind != vwork.KOneway {
					s.Abort("served-after-stop", "a connection made after Stop had returned was served (call %s)", c.Method)
				}
				if hold {
					vsim.Sleep(time.Duration(ms * int64(s.Draw(300))))
				}
			}
			t.Close()
			if after {
				for _, c := range ks {
					if c.Execs > 0 {
						s.Abort("served-after-stop", "a connection made after Stop had returned was served (call %s was executed)", c.Method)
					}
				}
			}
		})
	}
	svc.OnExec = func(c *vwork.Call) {
		if c == stopCall {
			stop("the handler")
		}
	}
	ns := 1
	if s.Draw(4) == 3 {
		ns = 2
	}
	for i := 0; i < ns; i++ {
		fs = append(fs, func() {
			switch s.Draw(3) {
			case 0:
				e.someTime(300 * ms)
			case 1:
				n := s.Draw(nc + 1)
				vsim.WaitUntil("accepts", s.Now()+300*ms, func() bool { return l.Accepts >= n })
			case 2:
				n := s.Draw(total + 1)
				vsim.WaitUntil("calls", s.Now()+300*ms, func() bool { return svc.Proc >= n })
			}
			stop("another task")
			if s.Draw(4) == 3 {
				e.someTime(100 * ms)
				stop("another task, again")
			}
		})
	}
	e.All("task", fs...)
	vsim.WaitIdle()
	if !r.Returned {
		s.Abort("serve-goes-on", "Stop returned at %v and every connection has ended, but Serve has not returned", time.Duration(downAt))
	}
	if e.Timing {
		last := stopAt
		for _, c := range e.N.Conns {
			if p := c.Peer; p.Accepted && p.Closed {
				last = max(last, p.ClosedAt)
			}
		}
		if late := r.RetAt - last; late > stopSlack {
			s.Abort("late-return", "Serve returned %v after the stop and after the last connection it handled had ended", time.Duration(late))
		}
	}
	if s.Draw(3) == 2 {
		stop("another task, after Serve had returned")
	}
	for _, x := range e.N.ListenAll {
		if !x.Closed {
			s.Abort("still-bound", "Serve has returned after Stop but its listener is still open")
		}
	}
	svc.OnExec = nil
	if s.Draw(3) == 2 {
		// the same server can serve again
		s.Probe("served-again")
		r.Returned = false
		r.Start(s, "server")
		e.waitServing(r)
		if x, ok := r.Server.(interface{ IsStopped() bool }); ok && x.IsStopped() {
			s.Abort("not-stopped", "IsStopped of a server that serves again")
		}
		e.healthyClient(k, svc, []*vwork.Call{svc.NewCall(vwork.KNormal, g), svc.NewCall(vwork.KNormal, g)}, 0, true, false)
		r.Stop()
		vsim.WaitIdle()
		if !r.Returned {
			s.Abort("serve-goes-on", "the second Stop of a server that served twice returned but its Serve has not")
		}
	}
	// a new server can use the address
	k2 := *k
	d := vwork.DrawStack(s)
	k2.SrvNB, k2.SrvSockNB, k2.FromLn = d.SrvNB, d.SrvSockNB, d.FromLn
	r2 := e.startServer(&k2, svc, "server2")
	e.healthyClient(&k2, svc, []*vwork.Call{svc.NewCall(vwork.KNormal, g), svc.NewCall(vwork.KNormal, g)}, 0, true, false)
	r2.Stop()
	vsim.WaitIdle()
	if !r2.Returned {
		s.Abort("serve-goes-on", "Stop of the second server returned but its Serve has not")
	}
	e.NonTrivial = true
}

// ---- C11 ----

// what a bad client does
const (
	badSilent = iota
	badPartial
	badGarbage
	badLength
	badFlip
	badSlow
	badNoRead
	badReset
	badHandler
	badUnknown
	numBad
)

var badNames = []string{"silent", "partial", "garbage", "hostile-length", "garbled", "slow", "never-reads", "instant-reset", "failing-call", "unknown-call"}

// encodeCall is the request of a call as bytes.
func (e *Env) encodeCall(k *vwork.Stack, svc *vwork.Svc, c *vwork.Call) []byte {
	buf := thrift.NewTMemoryBuffer()
	t := k.Frame(buf)
	cl := k.Client(svc, t, true)
	if err := cl.Send(c); err != nil {
		e.S.Abort("encode-failed", "writing a call to memory: %v", err)
	}
	return append([]byte(nil), buf.Bytes()...)
}

var hostile = []uint32{0x7fffffff, 0xffffffff, 0x80000000, 0x7ffffff0, 0x10000000, 0xfffffff0, 0x01000000}

// mutate damages bytes.
func mutate(s *vsim.Sim, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i := 1 + s.Draw(4); i > 0 && len(b) > 0; i-- {
		at := s.Draw(len(b))
		switch s.Draw(6) {
		case 0:
			b[at] ^= 1 << s.Draw(8)
		case 1:
			b[at] = byte(s.Draw(256))
		case 2:
			b = append(b[:at:at], b[at+1:]...)
		case 3:
			n := 1 + s.Draw(6)
			ins := make([]byte, n)
			for j := range ins {
				ins[j] = byte(s.Draw(256))
			}
			b = append(b[:at:at], append(ins, b[at:]...)...)
		case 4:
			n := min(1+s.Draw(20), len(b)-at)
			b = append(b[:at+n:at+n], b[at:]...)
		case 5:
			var h [4]byte
			binary.BigEndian.PutUint32(h[:], hostile[s.Draw(len(hostile))])
			copy(b[at:], h[:])
		}
	}
	return b
}

// badClient misbehaves on a connection of its own. end says when to stop.
func (e *Env) badClient(k *vwork.Stack, svc *vwork.Svc, g *vwork.Gen, what int, hold int64) {
	s := e.S
	s.Fault("client-" + badNames[what])
	conn, err := vnet.Dial("tcp", vwork.TheAddr.String())
	if err != nil {
		if s.Faults["server-stop"] > 0 {
			return
		}
		s.Abort("open-failed", "the server does not accept connections any more: %v", err)
	}
	c := conn.(*vnet.TCPConn)
	c.SetWriteDeadline(time.Now().Add(time.Duration(hold)))
	end := func() {
		switch s.Draw(3) {
		case 0:
			c.Close()
		case 1:
			c.Reset(0)
			c.Close()
		case 2:
			if hold > 0 {
				vsim.Sleep(time.Duration(hold))
			}
			c.Close()
		}
	}
	msg := func() []byte {
		x := svc.NewCall(vwork.KNormal, g)
		x.Corrupt = true
		x.Method = fmt.Sprintf("bad%d", x.K)
		svc.Alias(x)
		return e.encodeCall(k, svc, x)
	}
	switch what {
	case badSilent:
		vsim.Sleep(time.Duration(hold))
	case badPartial:
		b := msg()
		c.Write(b[:s.Draw(len(b))])
		if s.Draw(2) == 1 {
			vsim.Sleep(time.Duration(hold))
		}
	case badGarbage:
		b := make([]byte, 1+s.Size(300))
		for i := range b {
			b[i] = byte(s.Draw(256))
		}
		if k.Framed && s.Draw(2) == 1 {
			b = append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
		}
		c.Write(b)
	case badLength:
		var b []byte
		u := hostile[s.Draw(len(hostile))]
		b = binary.BigEndian.AppendUint32(b, u)
		if k.Framed && s.Draw(2) == 1 {
			b = binary.BigEndian.AppendUint32(nil, 0x40)
			b = append(b, 0x82, 0x21, 0x01, 0xff, 0xff, 0xff, 0xff, 0x7f)
			b = append(b, make([]byte, 0x38)...)
		} else if !k.Framed {
			switch k.Proto {
			case vwork.Binary:
				b = append([]byte{0x80, 1, 0, 1}, b...)
			case vwork.Compact:
				b = []byte{0x82, 0x21, 0x01, 0xff, 0xff, 0xff, 0xff, 0x07}
			}
		}
		b = append(b, "xxxxxxxxxxxxxxxx"...)
		c.Write(b)
	case badFlip:
		b := mutate(s, msg())
		for i := s.Draw(3); i > 0; i-- {
			b = append(b, mutate(s, msg())...)
		}
		c.Write(b)
		if s.Draw(2) == 1 {
			b := make([]byte, 200)
			c.SetReadDeadline(time.Now().Add(time.Duration(hold)))
			c.Read(b)
		}
	case badSlow:
		b := msg()
		for i := 0; i < len(b) && i < 30; i++ {
			if _, err := c.Write(b[i : i+1]); err != nil {
				break
			}
			vsim.Sleep(time.Duration(ms * int64(1+s.Draw(200))))
		}
	case badNoRead:
		for i := 1 + s.Draw(3); i > 0; i-- {
			if _, err := c.Write(msg()); err != nil {
				break
			}
		}
		vsim.Sleep(time.Duration(hold))
	case badReset:
		if s.Draw(2) == 1 {
			c.Write(msg())
		}
		c.Reset(0)
		c.Close()
		return
	case badHandler, badUnknown:
		kind := vwork.KFail
		if what == badUnknown {
			kind = vwork.KUnknown
		}
		x := svc.NewCall(kind, g)
		x.Corrupt = true
		x.Method = fmt.Sprintf("bad%d", x.K)
		if kind == vwork.KFail {
			svc.Alias(x)
		}
		c.Write(e.encodeCall(k, svc, x))
		c.SetReadDeadline(time.Now().Add(time.Duration(hold)))
		b := make([]byte, 4000)
		for {
			if _, err := c.Read(b); err != nil {
				break
			}
		}
	}
	end()
}

func c11Bad(e *Env) {
	s := e.S
	e.Swarm(true)
	if s.Draw(2) == 1 {
		s.LookForRaces()
	}
	k := vwork.DrawStack(s)
	k.Asymmetric(s)
	k.SrvNB = true
	s.Cfg.AllocLimit = 64 << 20
	svc := vwork.NewSvc(s, k.JSON())
	svc.Strict = false
	svc.Keep = s.Draw(2) == 1
	g := e.Gen(k.GenProto())
	g.Big = 0
	e.Desc("%v keep=%v", k, svc.Keep)
	bad := map[*vsim.Task]bool{}
	e.N.PlanConn = func(addr string, n int) *vnet.Plan {
		p := e.Plan()
		if bad[vsim.Cur()] {
			e.faultDir(&p.C2S, true, true)
			if p.C2S.Fault.Kind == vnet.FNone && s.Draw(3) == 2 {
				e.faultDir(&p.S2C, true, true)
			}
			if s.Draw(4) == 3 {
				p.C2S.Fault = vnet.Fault{Kind: vnet.FFlip, Off: s.Draw(120), Dur: int64(s.Draw(8))}
			}
			p.RstOnUnread = s.Draw(2) == 1
		}
		e.Desc("conn %d bad=%v %s", n, bad[vsim.Cur()], planStr(p))
		return p
	}
	r := e.startServer(k, svc, "server")
	nb := s.Range(1, 4)
	left := nb
	var acts []string
	for i := 0; i < nb; i++ {
		what := s.Draw(numBad)
		hold := []int64{100 * ms, 5 * sec, 3600 * sec}[s.Draw(3)]
		acts = append(acts, badNames[what])
		t := s.Go(fmt.Sprintf("bad%d", i), func() {
			e.someTime(100 * ms)
			e.badClient(k, svc, g, what, hold)
			left--
		})
		bad[t] = true
	}
	if s.Draw(12) == 11 {
		// a crowd of idle connections
		crowd := 5 + s.Draw(160)
		acts = append(acts, fmt.Sprintf("%d more silent ones", crowd))
		hold := []int64{5 * sec, 90 * sec, 3600 * sec}[s.Draw(3)]
		left += crowd
		there := 0
		for i := 0; i < crowd; i++ {
			if s.Draw(3) == 2 {
				// one that is not bad at all, it has nothing to ask for a while
				ks := []*vwork.Call{svc.NewCall(vwork.KNormal, g)}
				s.Go("crowd-healthy", func() {
					there++
					e.healthyClient(k, svc, ks, hold, false, false)
					left--
				})
				continue
			}
			what := badSilent
			if s.Draw(4) == 3 {
				what = badPartial
			}
			s.Go("crowd", func() {
				there++
				e.badClient(k, svc, g, what, hold)
				left--
			})
		}
		vsim.WaitFor("crowd there", func() bool { return there == crowd })
		s.Probe("crowd")
	}
	if s.Draw(300) == 299 {
		// hundreds of them, which stay until the healthy ones are done
		s.PreemptMax *= 50
		n := 250 + s.Draw(900)
		acts = append(acts, fmt.Sprintf("%d silent ones throughout", n))
		for i := 0; i < n; i++ {
			s.Fault("client-" + badNames[badSilent])
			c, err := vnet.Dial("tcp", vwork.TheAddr.String())
			if err != nil {
				s.Abort("open-failed", "the server does not accept connections any more: %v", err)
			}
			defer c.Close()
		}
		s.Probe("big-crowd")
	}
	e.Desc("bad clients: %s", strings.Join(acts, ", "))
	nc := s.Range(1, 3)
	good := func() func() {
		n := s.Range(1, 4)
		var ks []*vwork.Call
		for i := 0; i < n; i++ {
			kind := vwork.KNormal
			if svc.Keep {
				kind = []int{vwork.KNormal, vwork.KNormal, vwork.KFail, vwork.KOneway}[s.Draw(4)]
			}
			ks = append(ks, svc.NewCall(kind, g))
		}
		pause := ms * int64(s.Draw(100))
		shared := s.Draw(2) == 0
		return func() {
			e.someTime(300 * ms)
			e.healthyClient(k, svc, ks, pause, shared, false)
		}
	}
	var fs []func()
	for c := 0; c < nc; c++ {
		fs = append(fs, good())
	}
	e.All("good", fs...)
	if s.Draw(2) == 1 {
		vsim.WaitFor("bad ones gone", func() bool { return left == 0 })
	}
	if r.Returned {
		s.Abort("serve-failed", "the server gave up: %v", r.Err)
	}
	e.All("later", good())
	e.NonTrivial = true
}

// c11Simple: the simple server answers the next client once the bad one's
// connection has ended.
func c11Simple(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	k.SrvNB = false
	s.Cfg.AllocLimit = 64 << 20
	if e.Timing {
		// a slow healthy client would run into it
		k.SrvTimeout = []int64{0, 500 * ms, 5 * sec}[s.Draw(3)]
	}
	svc := vwork.NewSvc(s, k.JSON())
	svc.Strict = false
	svc.Keep = s.Draw(2) == 1
	g := e.Gen(k.GenProto())
	g.Big = 0
	e.Desc("%v keep=%v", k, svc.Keep)
	bad := false
	e.N.PlanConn = func(addr string, n int) *vnet.Plan {
		p := e.Plan()
		if bad {
			e.faultDir(&p.C2S, true, false)
			p.RstOnUnread = s.Draw(2) == 1
		} else if k.SrvTimeout > 0 {
			// a reply that trickles takes too long
			p.S2C = vnet.Dir{Latency: p.S2C.Latency}
		}
		e.Desc("conn %d bad=%v %s", n, bad, planStr(p))
		return p
	}
	r := e.startServer(k, svc, "server")
	for i := s.Range(1, 3); i > 0; i-- {
		bad = true
		what := s.Draw(numBad)
		hold := []int64{100 * ms, 5 * sec, 60 * sec}[s.Draw(3)]
		e.Desc("bad client: %s for %v", badNames[what], time.Duration(hold))
		dialed := false
		old := e.N.OnConnect
		e.N.OnConnect = func(c *vnet.TCPConn) { old(c); dialed = true }
		gone := false
		s.Go("bad", func() {
			e.badClient(k, svc, g, what, hold)
			gone = true
		})
		vsim.WaitFor("bad one there", func() bool { return dialed })
		bad = false
		var ks []*vwork.Call
		for j := s.Range(1, 2); j > 0; j-- {
			ks = append(ks, svc.NewCall(vwork.KNormal, g))
		}
		e.All("good", func() { e.healthyClient(k, svc, ks, 0, s.Draw(2) == 0, false) })
		if r.Returned {
			s.Abort("serve-failed", "the server gave up: %v", r.Err)
		}
		vsim.WaitFor("bad one gone", func() bool { return gone })
	}
	e.NonTrivial = true
}

// ---- C12 ----

func c12Server(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	k.Asymmetric(s)
	k.CliTimeout = []int64{0, 300 * ms, 2 * sec}[s.Draw(3)]
	k.SrvTimeout = []int64{0, 500 * ms, 5 * sec}[s.Draw(3)]
	s.Cfg.AllocLimit = 64 << 20
	stall := k.CliTimeout > 0
	forever := stall && k.SrvTimeout > 0
	svc := vwork.NewSvc(s, k.JSON())
	svc.Strict = false
	svc.Keep = s.Draw(2) == 1
	g := e.Gen(k.GenProto())
	e.Desc("%v keep=%v", k, svc.Keep)
	e.N.PlanConn = func(addr string, n int) *vnet.Plan {
		p := e.Plan()
		switch s.Draw(4) {
		case 2:
			e.faultDir(&p.C2S, stall, forever)
		case 3:
			e.faultDir(&p.S2C, stall, forever)
		}
		p.RstOnUnread = s.Draw(2) == 1
		e.Desc("conn %d %s", n, planStr(p))
		return p
	}
	r := e.startServer(k, svc, "server")
	base := len(s.LiveTasks(lib))
	var fs []func()
	for c := s.Range(1, 4); c > 0; c-- {
		if s.Draw(3) == 2 {
			what := s.Draw(numBad)
			hold := []int64{100 * ms, 5 * sec}[s.Draw(2)]
			e.Desc("bad client: %s", badNames[what])
			fs = append(fs, func() {
				e.someTime(100 * ms)
				e.badClient(k, svc, g, what, hold)
			})
			continue
		}
		var ks []*vwork.Call
		for i := s.Range(1, 4); i > 0; i-- {
			x := svc.NewCall(e.callKind(), g)
			x.Quit = s.Draw(6) == 5
			ks = append(ks, x)
		}
		shared := s.Draw(2) == 0
		fs = append(fs, func() {
			e.someTime(100 * ms)
			e.caller(k, svc, ks, shared)
			if c := e.Conn[vsim.Cur()]; c != nil && !c.Closed {
				s.Abort("client-leak", "the client transport was closed but its connection is still open")
			}
		})
	}
	early := s.Draw(4) == 3
	if early {
		fs = append(fs, func() {
			e.someTime(300 * ms)
			s.Fault("server-stop")
			r.Stop()
		})
	}
	e.All("client", fs...)
	s.StallPct = 0
	// everything the network still has to deliver, and every timeout
	for i := 0; i < 20; i++ {
		last := s.Now()
		for _, c := range e.N.Conns {
			for _, at := range []int64{c.LastIn(), c.LastOut()} {
				if at < s.Now()+36000*sec { // else it never arrives
					last = max(last, at)
				}
			}
		}
		if i > 0 && last <= s.Now() {
			break
		}
		vsim.Sleep(time.Duration(last - s.Now() + 60*sec))
	}
	if !early && r.Returned {
		s.Abort("serve-failed", "the server gave up: %v", r.Err)
	}
	if open := e.N.OpenEndpoints(serverEnd); len(open) > 0 {
		s.Abort("server-leak", "every client is gone for a minute but the server has not closed %s", epStr(open))
	}
	if n := len(s.LiveTasks(lib)); n > base {
		s.Abort("task-leak", "every client is gone for a minute but %d tasks of the library are still running (%d before the first connection)", n, base)
	}
	if !early {
		r.Stop()
		vsim.Sleep(time.Duration(sec))
	}
	if !r.Returned {
		s.Abort("serve-goes-on", "Serve has not returned after Stop")
	}
	for _, x := range e.N.ListenAll {
		if !x.Closed {
			s.Abort("listener-leak", "the server was stopped but its listener is still open")
		}
	}
	if t := s.LiveTasks(lib); len(t) > 0 {
		s.Abort("task-leak", "the server was stopped and all clients are gone but %d tasks of the library are still running", len(t))
	}
	if open := e.N.OpenEndpoints(func(c *vnet.TCPConn) bool { return true }); len(open) > 0 {
		s.Abort("leak", "at the end these connections are still open: %s", epStr(open))
	}
	e.NonTrivial = len(e.N.Conns) > 0
}

// c12Client: whatever happened on a socket transport, Close closes its
// connection.
func c12Client(e *Env) {
	s := e.S
	e.Swarm(false)
	k := &vwork.Stack{CliNB: s.Draw(2) == 1, Framed: s.Draw(2) == 1}
	k.CliTimeout = []int64{0, 50 * ms, sec}[s.Draw(3)]
	e.N.PlanConn = func(addr string, n int) *vnet.Plan {
		p := e.Plan()
		switch s.Draw(3) {
		case 1:
			e.faultDir(&p.C2S, k.CliTimeout > 0, true)
		case 2:
			e.faultDir(&p.S2C, k.CliTimeout > 0, true)
		}
		e.Desc("conn %d %s", n, planStr(p))
		return p
	}
	e.Desc("client nb=%v framed=%v timeout=%v", k.CliNB, k.Framed, time.Duration(k.CliTimeout))
	ln, _ := vnet.Listen("tcp", vwork.TheAddr.String())
	s.Go("peer", func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.Go("echo", func() {
				b := make([]byte, 100)
				for {
					n, err := c.Read(b)
					if n > 0 {
						c.SetWriteDeadline(time.Now().Add(20 * time.Millisecond))
						c.Write(b[:n])
					}
					if err != nil {
						c.Close()
						return
					}
				}
			})
		}
	})
	sock := k.Sock(vwork.TheAddr)
	t := k.Frame(sock)
	var all []*vnet.TCPConn
	for i := s.Range(1, 3); i > 0; i-- {
		if s.Draw(3) == 2 {
			// a transport around a connection that exists already
			conn, err := vnet.Dial("tcp", vwork.TheAddr.String())
			if err != nil {
				continue
			}
			sock = k.SockConn(conn)
			t = k.Frame(sock)
		} else if err := t.Open(); err != nil {
			continue
		}
		conn := e.Conn[vsim.Cur()]
		all = append(all, conn)
		sent := 0
		for j := s.Draw(6); j > 0; j-- {
			switch s.Draw(4) {
			case 0:
				n, _ := t.Write(make([]byte, s.Size(300)))
				sent += n
			case 1:
				if t.Flush() != nil {
					sent = 0
				}
			case 2:
				if k.CliTimeout > 0 {
					t.Read(make([]byte, 1+s.Size(100)))
				}
			case 3:
				if x, ok := sock.(interface{ Interrupt() error }); ok && s.Draw(2) == 1 {
					s.Fault("interrupt")
					x.Interrupt()
				}
			}
		}
		t.Close()
		if !conn.Closed {
			s.Abort("client-leak", "the transport was closed but its connection is still open")
		}
	}
	ln.Close()
	for _, c := range all {
		if !c.Closed {
			s.Abort("client-leak", "connection %d of a closed transport is still open", c.ID/2)
		}
	}
	e.NonTrivial = len(all) > 0
}

type closeRW struct {
	io.Reader
	io.Writer
	s      *vsim.Sim
	closes int
	err    error
}

func (c *closeRW) Close() error {
	vsim.Point()
	c.closes++
	return c.err
}

type wc struct {
	*vwork.Sink
	c *closeRW
}

func (w wc) Close() error { return w.c.Close() }

type rc struct {
	*vwork.Chunks
	c *closeRW
}

func (r rc) Close() error { return r.c.Close() }

// c12Stream: closing a stream transport closes what it was given.
func c12Stream(e *Env) {
	s := e.S
	e.Swarm(false)
	B := payload(3, 0, s.Size(500))
	ch := &vwork.Chunks{S: s, B: B, Limit: func() int { return len(B) }, Max: -9}
	sink := &vwork.Sink{S: s, FailAt: -1}
	if s.Draw(3) == 2 {
		sink.FailAt = s.Draw(20)
	}
	a, b := &closeRW{s: s}, &closeRW{s: s}
	if s.Draw(4) == 3 {
		a.err = errBroken
	}
	if s.Draw(4) == 3 {
		b.err = errBroken
	}
	r, w := rc{ch, a}, wc{sink, b}
	want := []*closeRW{a, b}
	var t thrift.TTransport
	kind := s.Draw(6)
	switch kind {
	case 0:
		t = thrift.NewTIOStreamTransportR(r)
		want = want[:1]
	case 1:
		t = thrift.NewTIOStreamTransportW(w)
		want = want[1:]
	case 2:
		t = thrift.NewTIOStreamTransportRAndW(r, w)
	case 3:
		a.Reader, a.Writer = r, w
		t = thrift.NewTIOStreamTransportRW(a)
		want = want[:1]
	case 4:
		a.Reader, a.Writer = r, w
		t = thrift.NewTIOStreamTransportFactory(a, a, true).GetTransport(nil)
		want = want[:1]
	case 5:
		t = thrift.NewTIOStreamTransportFactory(r, w, false).GetTransport(nil)
	}
	t = vwork.Again(s, t)
	framed := s.Draw(3) == 2
	if framed {
		t = thrift.NewTFramedTransport(t)
	}
	e.Desc("stream transport kind %d framed=%v", kind, framed)
	for i := s.Draw(6); i > 0; i-- {
		switch s.Draw(3) {
		case 0:
			if kind != 0 {
				t.Write(make([]byte, s.Size(60)))
			}
		case 1:
			if kind != 0 {
				t.Flush()
			}
		case 2:
			if kind != 1 {
				t.Read(make([]byte, 1+s.Size(60)))
			}
		}
	}
	t.Close()
	for i, c := range want {
		if c.closes == 0 {
			s.Abort("stream-leak", "the transport was closed but stream %d of %d it was made from was not", i+1, len(want))
		}
	}
	e.NonTrivial = true
}
