package vprops

import (
	"fmt"
	"thrift"
	"time"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C08", "connect", 4, c08Connect)
	reg("C08", "read", 8, c08Read)
	reg("C08", "write", 8, c08Write)
	reg("C08", "server", 4, c08Server)
}

func dur(n int64) time.Duration { return time.Duration(n) }

// drawTimeout is a timeout from a millisecond to weeks.
func (e *Env) drawTimeout() int64 {
	s := e.S
	switch s.Draw(4) {
	case 1:
		return ms*int64(1+s.Draw(2000)) + int64(s.Draw(1000000))
	case 2:
		return sec * int64(1+s.Draw(300))
	case 3:
		if s.Draw(3) == 2 {
			return 60 * sec * int64(1+s.Draw(40*24*60)) // up to 40 days
		}
	}
	return ms * int64(1+s.Draw(100))
}

// timedOut checks a failed operation: it began at start, progress was last
// made at prog, the timeout is to.
func (e *Env) timedOut(op string, start, prog, to int64, err error, typed bool) {
	s := e.S
	if err == nil {
		s.Abort("no-timeout", "%s succeeded although nothing happened for %v", op, dur(s.Now()-start))
	}
	d := s.Now() - max(start, prog)
	if to <= 0 {
		s.Abort("spurious-timeout", "%s failed after %v without a timeout: %v", op, dur(d), err)
	}
	if d < to {
		s.Abort("early-timeout", "%s failed %v after it began or last made progress, the timeout is %v: %v", op, dur(d), dur(to), err)
	}
	if d > to+ms {
		s.Abort("late-timeout", "%s failed %v after it began or last made progress, the timeout is %v: %v", op, dur(d), dur(to), err)
	}
	if typed && typeOf(err) != thrift.TIMED_OUT {
		s.Abort("timeout-type", "%s that timed out reported %s: %v", op, typeNames[typeOf(err)], err)
	}
	s.Probe("timed-out")
	e.NonTrivial = true
}

func c08Connect(e *Env) {
	s := e.S
	s.Cfg.MaxTime = 100 * 365 * 24 * 3600 * sec
	e.Swarm(false)
	k := &vwork.Stack{CliNB: s.Draw(2) == 1, Framed: s.Draw(4) == 3}
	if s.Draw(5) != 4 {
		k.CliTimeout = e.drawTimeout()
	}
	ln, _ := vnet.Listen("tcp", vwork.TheAddr.String())
	defer ln.Close()
	kind, lat := 0, int64(0)
	e.N.DialFault = func(string) (int, int64) { return kind, lat }
	base := k.Sock(vwork.TheAddr)
	t := k.Frame(base)
	to := k.CliTimeout
	e.Desc("connect %s framed=%v timeout=%v", sockName(k.CliNB), k.Framed, dur(to))
	for i, n := 0, s.Range(1, 4); i < n; i++ {
		if s.Draw(3) == 2 {
			to = []int64{0, e.drawTimeout()}[s.Draw(2)]
			base.(interface{ SetTimeout(int64) error }).SetTimeout(to)
		}
		kind, lat = []int{0, 1, 2}[s.Draw(3)], int64(0)
		if kind != 2 && s.Draw(2) == 1 {
			lat = e.drawTimeout()
			if to > 0 && s.Draw(2) == 1 {
				lat = to - 1 - int64(s.Draw(int(min(to, 1000000))))
			}
		}
		at := s.Now()
		err := t.Open()
		d := s.Now() - at
		e.Desc("kind=%d latency=%v timeout=%v: %v after %v", kind, dur(lat), dur(to), err, dur(d))
		eff := to
		if kind == 2 && to > vnet.SynRetry {
			eff = vnet.SynRetry // the system gives up first
		}
		expires := to > 0 && (kind == 2 || lat >= to)
		switch {
		case expires:
			e.timedOut("connect", at, at, eff, err, false)
			if t.IsOpen() {
				s.Abort("open-state", "open after a failed connect")
			}
		case kind == 1 || kind == 2:
			if err == nil {
				s.Abort("no-error", "connect succeeded although it was refused")
			}
			if kind == 2 && d < vnet.SynRetry {
				s.Abort("early-timeout", "connect without a timeout failed after %v: %v", dur(d), err)
			}
		default:
			if err != nil {
				s.Abort("spurious-timeout", "connect answered after %v failed after %v with timeout %v: %v", dur(lat), dur(d), dur(to), err)
			}
			if d > lat+ms {
				s.Abort("late", "connect answered after %v took %v", dur(lat), dur(d))
			}
			t.Close()
			e.NonTrivial = true
		}
	}
}

// conn makes a transport on one end of a connection whose other end the
// scenario plays.
func (e *Env) sockPair(nb, viaOpen bool, to int64, plan *vnet.Plan) (thrift.TTransport, *vnet.TCPConn, *vnet.TCPConn) {
	k := &vwork.Stack{CliNB: nb, CliTimeout: to}
	if !viaOpen {
		a, b := e.N.Pair(plan)
		return k.SockConn(a), a, b
	}
	ln, _ := vnet.Listen("tcp", vwork.TheAddr.String())
	e.N.PlanConn = func(string, int) *vnet.Plan { return plan }
	t := k.Sock(vwork.TheAddr)
	if err := t.Open(); err != nil {
		e.S.Abort("open-failed", "%v", err)
	}
	a := e.Conn[vsim.Cur()]
	if _, err := ln.Accept(); err != nil {
		e.S.Abort("harness", "%v", err)
	}
	ln.Close()
	return t, a, a.Peer
}

func c08Read(e *Env) {
	s := e.S
	s.Cfg.MaxTime = 100 * 365 * 24 * 3600 * sec
	e.Swarm(false)
	nb := s.Draw(2) == 1
	to := int64(0)
	if s.Draw(5) != 4 {
		to = e.drawTimeout()
	}
	framed := s.Draw(3) == 2
	p := &vnet.Plan{S2C: vnet.Dir{Seg: []int{0, 0, -3, 1}[s.Draw(4)], MaxRead: []int{0, 0, 1}[s.Draw(3)]}}
	p.S2C.Latency = latencies[s.Draw(len(latencies))]
	base, a, b := e.sockPair(nb, s.Draw(2) == 1, to, p)
	t := base
	if framed {
		t = thrift.NewTFramedTransport(base)
	}
	e.Desc("read %s framed=%v timeout=%v %s", sockName(nb), framed, dur(to), planStr(p))
	// one round: idle, then a read of a message that the peer sends in pieces
	rounds := s.Range(1, 5)
	type piece struct {
		wait int64
		n    int
	}
	start := make(chan struct{})
	_ = start
	var plan []piece
	go0 := 0
	s.Go("peer", func() {
		for r := 1; ; r++ {
			vsim.WaitFor("round", func() bool { return go0 >= r })
			for _, c := range plan {
				vsim.Sleep(dur(c.wait))
				m := payload(r, 0, c.n)
				if framed {
					m = frame(m)
				}
				if _, err := b.Write(m); err != nil {
					return
				}
			}
		}
	})
	for r := 1; r <= rounds; r++ {
		if s.Draw(4) == 3 {
			to = []int64{0, e.drawTimeout()}[s.Draw(2)]
			base.(interface{ SetTimeout(int64) error }).SetTimeout(to)
		}
		if s.Draw(2) == 1 { // the connection is idle for long
			vsim.Sleep(dur(e.drawTimeout() * 3))
		}
		slow := to > 0 && s.Draw(3) == 2
		plan = nil
		size := 0
		for i, n := 0, s.Range(1, 3); i < n; i++ {
			c := piece{n: 1 + s.Draw(6)}
			switch {
			case to <= 0:
				c.wait = e.drawTimeout() * int64(1+s.Draw(50))
			default:
				c.wait = to * int64(s.Draw(90)) / 100
				if c.wait+p.S2C.Latency >= to {
					c.wait = 0
				}
			}
			if p.S2C.Latency >= to && to > 0 {
				slow = true
			}
			plan = append(plan, c)
			size += c.n
		}
		if slow {
			plan = []piece{{to*2 + sec*int64(s.Draw(5)), 3}}
			size = 3
		}
		buf := make([]byte, size)
		at := s.Now()
		go0 = r
		var err error
		n := 0
		if s.Draw(2) == 1 {
			n, err = t.ReadAll(buf)
		} else {
			for n < size && err == nil {
				var k int
				x := s.Now()
				k, err = t.Read(buf[n:])
				n += k
				if err != nil && slow {
					at = x
				}
			}
		}
		e.Desc("round %d slow=%v timeout=%v pieces=%v: %d %v after %v", r, slow, dur(to), plan, n, err, dur(s.Now()-at))
		if slow {
			prog := max(at, a.LastRd)
			e.timedOut("read", at, prog, to, err, true)
			// what arrives later can still be read: the connection is not harmed
			base.(interface{ SetTimeout(int64) error }).SetTimeout(0)
			if n != 0 {
				s.Abort("invented", "a read that timed out returned %d bytes, nothing had arrived", n)
			}
			if k, err := t.ReadAll(buf); err != nil || k != size {
				s.Abort("read-failed", "reading on after a timeout: %d %v", k, err)
			}
			base.(interface{ SetTimeout(int64) error }).SetTimeout(to)
			continue
		}
		if err != nil {
			s.Abort("spurious-timeout", "a read of data that came within %v failed %v after it began with timeout %v (last progress %v ago): %v", plan, dur(s.Now()-at), dur(to), dur(s.Now()-a.LastRd), err)
		}
		if late := s.Now() - a.LastIn(); late > ms {
			s.Abort("late", "a read returned %v after its data had arrived", dur(late))
		}
		e.NonTrivial = true
	}
	t.Close()
}

func c08Write(e *Env) {
	s := e.S
	s.Cfg.MaxTime = 100 * 365 * 24 * 3600 * sec
	e.Swarm(false)
	nb := s.Draw(2) == 1
	to := int64(0)
	if s.Draw(5) != 4 {
		to = e.drawTimeout()
	}
	framed := s.Draw(3) == 2
	p := &vnet.Plan{C2S: vnet.Dir{Cap: []int{1, 5, 64, 5000}[s.Draw(4)], Seg: []int{0, 0, -3}[s.Draw(3)]}}
	if p.C2S.Cap >= 5000 {
		p.C2S.Latency = latencies[s.Draw(3)]
	}
	base, a, b := e.sockPair(nb, s.Draw(2) == 1, to, p)
	t := base
	if framed {
		t = thrift.NewTFramedTransport(base)
	}
	e.Desc("write %s framed=%v timeout=%v %s", sockName(nb), framed, dur(to), planStr(p))
	// the peer takes everything at once, or after a pause, or nothing
	reads, delay := true, int64(0)
	var wake int64
	s.Go("peer", func() {
		buf := make([]byte, 8192)
		for {
			vsim.WaitFor("may-read", func() bool { return reads && len(a.Out()) > b.Consumed() || a.Closed })
			if wake > s.Now() {
				vsim.Sleep(dur(wake - s.Now()))
			}
			if _, err := b.Read(buf); err != nil {
				return
			}
		}
	})
	set := base.(interface{ SetTimeout(int64) error }).SetTimeout
	sent := 0
	for r, n := 1, s.Range(1, 5); r <= n; r++ {
		if s.Draw(4) == 3 {
			to = []int64{0, e.drawTimeout()}[s.Draw(2)]
			set(to)
		}
		if s.Draw(2) == 1 {
			vsim.Sleep(dur(e.drawTimeout() * 3))
		}
		block := to > 0 && r == n && s.Draw(2) == 1
		delay, wake = 0, 0
		if !block && s.Draw(2) == 1 {
			delay = e.drawTimeout() * int64(1+s.Draw(20))
			if to > 0 {
				delay = to * int64(s.Draw(80)) / 100
			}
		}
		// assemble for as long as it takes
		var err error
		var at int64
		first := true
		write := func(k int) bool {
			if first {
				first = false
				reads = !block
				if nb && !framed && delay > 0 {
					wake = s.Now() + delay
				}
			}
			at = s.Now()
			_, err = t.Write(payload(1, sent, k))
			sent += k
			return err == nil
		}
		parts := s.Range(1, 3)
		ok := true
		for i := 0; i < parts && ok; i++ {
			if i > 0 && s.Draw(2) == 1 {
				vsim.Sleep(dur(e.drawTimeout() * 2))
			}
			k := 1 + s.Draw(100)
			if block && i == parts-1 {
				k = p.C2S.Cap*2 + 10
			}
			ok = write(k)
			if nb && !framed && ok {
				// later parts are served at once
				wake = 0
			}
		}
		if ok {
			if !nb || framed {
				if s.Draw(2) == 1 {
					vsim.Sleep(dur(e.drawTimeout() * 2))
				}
				if delay > 0 {
					wake = s.Now() + delay
				}
			}
			at = s.Now()
			err = t.Flush()
		}
		e.Desc("round %d block=%v delay=%v timeout=%v: %v after %v", r, block, dur(delay), dur(to), err, dur(s.Now()-at))
		if block {
			e.timedOut("write", at, at, to, err, true)
			break
		}
		if err != nil {
			s.Abort("spurious-timeout", "a write that the peer took after %v failed after %v with timeout %v (assembling does not count): %v", dur(delay), dur(s.Now()-at), dur(to), err)
		}
		vsim.WaitFor("drained", func() bool { return b.Consumed() == len(a.Out()) })
		e.NonTrivial = true
	}
	t.Close()
}

// c08Server: the timeout of a server socket applies to the connections it
// accepts.
func c08Server(e *Env) {
	s := e.S
	s.Cfg.MaxTime = 100 * 365 * 24 * 3600 * sec
	e.Swarm(false)
	k := vwork.DrawStack(s)
	k.SrvNB = true
	k.CliTimeout = 0
	to := int64(0)
	if s.Draw(4) != 3 {
		to = e.drawTimeout() + 50*ms
	}
	k.SrvTimeout = to
	e.Desc("server %v", k)
	svc := vwork.NewSvc(s, k.JSON())
	g := e.Gen(k.GenProto())
	r := e.startServer(k, svc, "server")
	var fs []func()
	for i, n := 0, s.Range(1, 3); i < n; i++ {
		nc := s.Draw(4)
		part := s.Draw(2) == 1
		fs = append(fs, func() {
			c, err := vnet.Dial("tcp", vwork.TheAddr.String())
			if err != nil {
				s.Abort("harness", "%v", err)
			}
			tc := c.(*vnet.TCPConn)
			base := k.SockConn(c)
			t := k.Frame(base)
			cl := k.Client(svc, t, true)
			for j := 0; j < nc; j++ {
				w := to * int64(s.Draw(90)) / 100
				if to <= 0 {
					w = sec * int64(s.Draw(4000))
				}
				vsim.Sleep(dur(w))
				if err := cl.Do(svc.NewCall(vwork.KNormal, g)); err != nil {
					s.Abort("spurious-timeout", "a call %v after the previous one failed with server timeout %v: %v", dur(w), dur(to), err)
				}
			}
			if part {
				m := payload(1, 0, 1)
				if k.Framed {
					m = []byte{0, 0, 0, 9, 1}
				} else if vwork.IsJSON(k.Proto) {
					m = []byte("[")
				} else if k.Proto == vwork.Compact {
					m = []byte{0x82}
				} else {
					m = []byte{0x80, 1}
				}
				c.Write(m)
			}
			if to <= 0 {
				vsim.Sleep(time.Duration(1+s.Draw(1000)) * time.Hour)
				if tc.Peer.Closed {
					s.Abort("spurious-timeout", "the server closed an idle connection although it has no timeout")
				}
				c.Close()
				return
			}
			last := max(tc.Peer.LastRd, tc.Peer.Born)
			vsim.Sleep(dur(to - ms))
			last = max(tc.Peer.LastRd, tc.Peer.Born)
			if tc.Peer.Closed {
				s.Abort("early-timeout", "the server closed a silent connection less than %v after its last byte", dur(to))
			}
			vsim.Sleep(dur(3*ms + last + to - s.Now()))
			if !tc.Peer.Closed {
				s.Abort("no-timeout", "the server kept a connection that was silent for %v, its timeout is %v", dur(s.Now()-last), dur(to))
			}
			s.Probe("timed-out")
			e.NonTrivial = true
			c.Close()
		})
	}
	e.All("client", fs...)
	r.Stop()
	vsim.WaitFor("serve returned", func() bool { return r.Returned })
	_ = fmt.Sprint
}
