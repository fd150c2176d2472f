package vprops

import (
	"fmt"
	"net"
	"thrift"
	"time"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C19", "history", 8, c19History)
	reg("C19", "race", 5, c19Race)
	reg("C19", "refused", 1, c19Refused)
}

// srvSock is what the two server transports have in common.
type srvSock interface {
	thrift.TServerTransport
	Open() error
	IsOpen() bool
	Peek() bool
	Addr() net.Addr
}

// listenerFor makes a server transport in one of the ways there are. It may be
// listening already.
func (e *Env) listenerFor(addr net.Addr, to int64) (srvSock, bool, string) {
	s := e.S
	switch s.Draw(7) {
	case 1:
		t, _ := thrift.NewTNonblockingServerSocketAddrTimeout(addr, to)
		return t, true, "TNonblockingServerSocket"
	case 2:
		t := thrift.NewTServerSocketTransportFactory(addr, to).GetTransport(nil).(*thrift.TServerSocket)
		return t, false, "TServerSocket from a factory"
	case 3:
		t, _ := thrift.NewTNonblockingServerSocketAddrTimeout(addr, to)
		t2 := thrift.NewTNonblockingServerSocketTransportFactory(otherAddr).GetTransport(t).(*thrift.TNonblockingServerSocket)
		return t2, true, "TNonblockingServerSocket copied by a factory"
	case 4:
		t, _ := thrift.NewTServerSocketAddrTimeout(addr, to)
		t2 := thrift.NewTServerSocketTransportFactory(otherAddr, 1).GetTransport(t).(*thrift.TServerSocket)
		return t2, false, "TServerSocket copied by a factory"
	case 5:
		ln, err := vnet.Listen("tcp", addr.String())
		if err != nil {
			s.Abort("harness", "%v", err)
		}
		t, _ := thrift.NewTNonblockingServerSocketListener(ln)
		t.SetTimeout(to)
		return t, true, "TNonblockingServerSocket on a listener"
	case 6:
		t, _ := thrift.NewTNonblockingServerSocketAddr(addr)
		t.SetTimeout(to)
		return t, true, "TNonblockingServerSocket"
	}
	t, _ := thrift.NewTServerSocketAddrTimeout(addr, to)
	return t, false, "TServerSocket"
}

var otherAddr = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9999}

// useAccepted checks an accepted transport: it is open, belongs to the
// connection just made, carries bytes both ways, times out as configured and
// closes the connection.
func (e *Env) useAccepted(t thrift.TTransport, c *vnet.TCPConn, to int64) {
	s := e.S
	if t == nil {
		s.Abort("nil-accept", "Accept returned neither a transport nor an error")
	}
	if !t.IsOpen() {
		s.Abort("accept-state", "an accepted transport is not open")
	}
	flushed := false
	q := payload(5, 0, 1+s.Size(300))
	s.Go("writer", func() {
		if _, err := c.Write(q); err != nil {
			s.Abort("accept-dead", "writing to an accepted connection: %v", err)
		}
	})
	b := make([]byte, len(q))
	if n, err := t.ReadAll(b); err != nil || !eq(b[:n], q) {
		s.Abort("accept-dead", "reading %d bytes from an accepted transport: %d, %v", len(q), n, err)
	}
	s.Go("flusher", func() {
		if _, err := t.Write(q); err != nil {
			s.Abort("accept-dead", "writing to an accepted transport: %v", err)
		}
		if err := t.Flush(); err != nil {
			s.Abort("accept-dead", "flushing an accepted transport: %v", err)
		}
		flushed = true
	})
	for got := 0; got < len(q); {
		n, err := c.Read(b)
		if err != nil || !eq(b[:n], q[got:got+n]) {
			s.Abort("accept-dead", "the client of an accepted connection got %d bytes, %v", n, err)
		}
		got += n
	}
	vsim.WaitFor("flushed", func() bool { return flushed })
	if to > 0 && s.Draw(3) == 2 {
		at := s.Now()
		_, err := t.Read(b[:1])
		e.timedOut("read on an accepted transport", at, at, to, err, true)
	}
	if err := t.Close(); err != nil {
		s.Abort("close-failed", "closing an accepted transport: %v", err)
	}
	if !c.Peer.Closed {
		s.Abort("accept-leak", "an accepted transport was closed but its connection was not")
	}
	c.Close()
}

// c19History: one task drives a server transport through a random history.
func c19History(e *Env) {
	s := e.S
	e.Swarm(false)
	addr := net.Addr(vwork.TheAddr)
	to := []int64{0, 50 * ms, 3 * sec}[s.Draw(3)]
	t, nb, name := e.listenerFor(addr, to)
	e.Desc("%s, client timeout %v", name, dur(to))
	open := e.N.Bound(addr.String())
	interrupted := false
	unsure := false // whether Accept may listen by itself
	var foreign net.Listener
	check := func(after string) {
		if t.IsOpen() != open {
			s.Abort("state", "IsOpen is %v after %s", !open, after)
		}
		if t.Peek() != open {
			s.Abort("state", "Peek is %v after %s", !open, after)
		}
		if b := e.N.Bound(addr.String()); b != (open || foreign != nil) {
			s.Abort("address", "the address is bound=%v after %s", b, after)
		}
	}
	check("construction")
	if t.Addr() == nil || t.Addr().String() != addr.String() {
		s.Abort("state", "Addr is %v, made for %v", t.Addr(), addr)
	}
	for i := s.Range(3, 14); i > 0; i-- {
		op := s.Draw(13)
		what := []string{"Open", "Listen", "Accept", "Accept", "Accept with a later client", "Close", "Interrupt", "foreign", "Close while accepting", "several clients", "failing accept", "SetTimeout", "data operations"}[op]
		e.Desc("%s", what)
		switch op {
		case 0:
			err := t.Open()
			switch {
			case open:
				if typeOf(err) != thrift.ALREADY_OPEN {
					s.Abort("double-open", "Open of an open server transport returned %v (%s)", err, typeNames[typeOf(err)])
				}
			case foreign != nil:
				if err == nil {
					s.Abort("no-error", "Open succeeded on an address that is in use")
				}
				unsure = true
			default:
				if err != nil {
					s.Abort("open-failed", "Open: %v", err)
				}
				open, interrupted, unsure = true, false, false
			}
		case 1:
			err := t.Listen()
			switch {
			case open:
				if err != nil {
					s.Abort("open-failed", "Listen on an open server transport: %v", err)
				}
			case foreign != nil:
				if err == nil {
					s.Abort("no-error", "Listen succeeded on an address that is in use")
				}
				unsure = true
			default:
				if err != nil {
					s.Abort("open-failed", "Listen: %v", err)
				}
				open, interrupted, unsure = true, false, false
			}
		case 2, 3, 4:
			if !open {
				if !nb && (!interrupted || unsure) {
					break // listens by itself
				}
				x, err := t.Accept()
				if err == nil {
					s.Abort("accept-closed", "Accept on a transport that is not listening returned %v", x)
				}
				if typeOf(err) != thrift.NOT_OPEN {
					s.Abort("accept-closed", "Accept on a transport that is not listening reported %s: %v", typeNames[typeOf(err)], err)
				}
				break
			}
			var c *vnet.TCPConn
			if op == 4 {
				s.Go("client", func() {
					e.someTime(20 * ms)
					d, err := vnet.Dial("tcp", addr.String())
					if err != nil {
						s.Abort("open-failed", "dialing a listening address: %v", err)
					}
					c = d.(*vnet.TCPConn)
				})
			} else {
				d, err := vnet.Dial("tcp", addr.String())
				if err != nil {
					s.Abort("open-failed", "dialing a listening address: %v", err)
				}
				c = d.(*vnet.TCPConn)
			}
			x, err := t.Accept()
			if err != nil {
				s.Abort("accept-failed", "Accept with a client waiting: %v", err)
			}
			vsim.WaitFor("client", func() bool { return c != nil })
			e.useAccepted(x, c, to)
		case 9:
			// a queue of clients, each is accepted once
			if !open {
				break
			}
			cs := map[byte]*vnet.TCPConn{}
			for j := s.Range(2, 6); j > 0; j-- {
				d, err := vnet.Dial("tcp", addr.String())
				if err != nil {
					s.Abort("open-failed", "dialing a listening address: %v", err)
				}
				d.Write([]byte{byte(j)})
				cs[byte(j)] = d.(*vnet.TCPConn)
			}
			if s.Draw(3) == 2 {
				// opening it again keeps the clients that wait
				e.Desc("Listen and Open with clients waiting")
				if err := t.Listen(); err != nil {
					s.Abort("open-failed", "Listen on an open server transport: %v", err)
				}
				if err := t.Open(); typeOf(err) != thrift.ALREADY_OPEN {
					s.Abort("double-open", "Open of an open server transport returned %v (%s)", err, typeNames[typeOf(err)])
				}
				check("Listen and Open with clients waiting")
			}
			var xs []thrift.TTransport
			var of []*vnet.TCPConn
			for len(cs) > 0 {
				x, err := t.Accept()
				if err != nil || x == nil {
					s.Abort("accept-failed", "Accept with %d clients waiting: %v", len(cs), err)
				}
				var id [1]byte
				if _, err := x.ReadAll(id[:]); err != nil || cs[id[0]] == nil {
					s.Abort("accept-dead", "a transport accepted among several clients belongs to none of them (%d, %v)", id[0], err)
				}
				xs, of = append(xs, x), append(of, cs[id[0]])
				delete(cs, id[0])
			}
			for j := range xs {
				e.useAccepted(xs[j], of[j], to)
			}
		case 10:
			// an accept that fails, for want of descriptors say, loses nothing
			if !open {
				break
			}
			d, err := vnet.Dial("tcp", addr.String())
			if err != nil {
				s.Abort("open-failed", "dialing a listening address: %v", err)
			}
			e.N.Listener(addr.String()).Fails = 1
			x, err := t.Accept()
			if err != nil {
				check("an accept that failed")
				if x, err = t.Accept(); err != nil {
					s.Abort("accept-failed", "Accept after one that failed: %v", err)
				}
			}
			e.useAccepted(x, d.(*vnet.TCPConn), to)
		case 12:
			// it carries no data itself
			type io interface {
				Read([]byte) (int, error)
				ReadAll([]byte) (int, error)
				Write([]byte) (int, error)
				Flush() error
			}
			d := t.(io)
			at := s.Now()
			for k, f := range []func() (int, error){
				func() (int, error) { return d.Read(make([]byte, 3)) },
				func() (int, error) { return d.ReadAll(make([]byte, 3)) },
				func() (int, error) { return d.Write([]byte("abc")) },
				func() (int, error) { return 0, d.Flush() },
			} {
				if n, err := f(); n != 0 || err == nil {
					s.Abort("no-error", "%s on a server transport returned %d, %v", []string{"Read", "ReadAll", "Write", "Flush"}[k], n, err)
				}
			}
			if e.Timing && s.Now() != at {
				s.Abort("slow", "a data operation on a server transport took %v", time.Duration(s.Now()-at))
			}
		case 11:
			if ts, ok := t.(interface{ SetTimeout(int64) error }); ok {
				to = []int64{0, 50 * ms, 3 * sec}[s.Draw(3)]
				if err := ts.SetTimeout(to); err != nil {
					s.Abort("state", "SetTimeout: %v", err)
				}
			}
		case 5, 6:
			var err error
			if op == 5 {
				err = t.Close()
			} else {
				err = t.Interrupt()
				if !nb {
					interrupted, unsure = true, false
				}
			}
			if err != nil {
				s.Abort("close-failed", "%s: %v", what, err)
			}
			open = false
		case 7:
			if foreign != nil {
				foreign.Close()
				foreign = nil
			} else if !open {
				foreign, _ = vnet.Listen("tcp", addr.String())
			}
		case 8:
			if !open {
				break
			}
			ended := false
			intr := s.Draw(2) == 1
			s.Go("accepting", func() {
				x, err := t.Accept()
				if err == nil {
					s.Abort("accept-closed", "a blocked Accept returned %v after the transport was closed", x)
				}
				ended = true
			})
			vsim.WaitUntil("blocked", s.Now()+ms, func() bool { return false })
			if s.Draw(3) == 2 {
				// opening it again does not disturb an Accept that waits
				e.Desc("Listen while accepting")
				if err := t.Listen(); err != nil {
					s.Abort("open-failed", "Listen on an open server transport: %v", err)
				}
				vsim.WaitUntil("still blocked", s.Now()+ms, func() bool { return false })
				if ended {
					s.Abort("accept-failed", "a blocked Accept ended when Listen was called again")
				}
				check("Listen while accepting")
			}
			if intr {
				t.Interrupt()
				interrupted, unsure = interrupted || !nb, false
			} else {
				t.Close()
			}
			at := s.Now()
			vsim.WaitUntil("accept ended", at+sec, func() bool { return ended })
			if !ended {
				s.Abort("accept-goes-on", "a blocked Accept goes on after the transport was closed (interrupt=%v)", intr)
			}
			open = false
			if s.Now()-at > ms {
				s.Abort("accept-goes-on", "a blocked Accept took %v to notice the close", dur(s.Now()-at))
			}
		}
		check(what)
	}
	if foreign != nil {
		foreign.Close()
		foreign = nil
	}
	t.Close()
	open = false
	check("the final close")
	ln, err := vnet.Listen("tcp", addr.String())
	if err != nil {
		s.Abort("address", "the address cannot be used again: %v", err)
	}
	ln.Close()
	for _, l := range e.N.ListenAll {
		if !l.Closed {
			s.Abort("listener-leak", "the transport was closed but a listener is still open")
		}
	}
	e.NonTrivial = true
}

// c19Race: accepting, connecting, interrupting and asking for the state at
// the same time.
func c19Race(e *Env) {
	s := e.S
	e.Swarm(true)
	s.LookForRaces()
	addr := net.Addr(vwork.TheAddr)
	e.planAll()
	t, _, name := e.listenerFor(addr, 0)
	if err := t.Listen(); err != nil {
		s.Abort("open-failed", "Listen: %v", err)
	}
	e.Desc("%s", name)
	down := int64(-1)
	accepted, interrupting, began := 0, 0, false
	var fs []func()
	acceptors := s.Range(1, 2)
	var endAt int64
	for i := 0; i < acceptors; i++ {
		fs = append(fs, func() {
			for {
				x, err := t.Accept()
				if err != nil {
					if !began {
						s.Abort("accept-failed", "Accept failed before any interrupt: %v", err)
					}
					endAt = s.Now()
					return
				}
				if x == nil {
					s.Abort("nil-accept", "Accept returned neither a transport nor an error")
				}
				accepted++
				s.Go("conn", func() {
					b := make([]byte, 3)
					if n, err := x.ReadAll(b); err == nil {
						x.Write(b[:n])
						x.Flush()
					}
					x.Close()
				})
			}
		})
	}
	nc := s.Draw(6)
	for i := 0; i < nc; i++ {
		fs = append(fs, func() {
			e.someTime(20 * ms)
			after := down >= 0 && interrupting == 0
			c, err := vnet.Dial("tcp", addr.String())
			if err != nil {
				if !began {
					s.Abort("open-failed", "dialing a listening address: %v", err)
				}
				return
			}
			if after {
				s.Abort("address", "a client connected after the interrupt had returned")
			}
			c.Write([]byte("abc"))
			b := make([]byte, 3)
			for got := 0; got < 3; {
				n, err := c.Read(b[got:])
				if err != nil {
					if !began {
						s.Abort("accept-dead", "a connection made before any interrupt got %d bytes, %v", got, err)
					}
					break
				}
				got += n
			}
			c.Close()
		})
	}
	ni := s.Range(1, 3)
	for i := 0; i < ni; i++ {
		fs = append(fs, func() {
			e.someTime(30 * ms)
			at := s.Now()
			interrupting++
			began = true
			if err := t.Interrupt(); err != nil {
				s.Abort("close-failed", "Interrupt: %v", err)
			}
			interrupting--
			if d := s.Now() - at; e.Timing && d > ms {
				s.Abort("late", "Interrupt took %v", time.Duration(d))
			}
			down = max(down, s.Now())
			if t.IsOpen() {
				s.Abort("state", "open after an interrupt")
			}
			if interrupting == 0 && e.N.Bound(addr.String()) {
				s.Abort("address", "the address is still in use after an interrupt")
			}
		})
	}
	if s.Draw(2) == 1 {
		fs = append(fs, func() {
			for j := s.Draw(20); j > 0; j-- {
				t.IsOpen()
				t.Peek()
				t.Addr()
				vsim.Point()
			}
		})
	}
	e.All("task", fs...)
	if e.Timing && endAt-down > ms {
		s.Abort("accept-goes-on", "Accept returned %v after the interrupt", time.Duration(endAt-down))
	}
	vsim.WaitIdle()
	// usable again
	if err := t.Listen(); err != nil {
		s.Abort("open-failed", "Listen after an interrupt: %v", err)
	}
	c, err := vnet.Dial("tcp", addr.String())
	if err != nil {
		s.Abort("open-failed", "dialing after listening again: %v", err)
	}
	x, err := t.Accept()
	if err != nil {
		s.Abort("accept-failed", "Accept after listening again: %v", err)
	}
	e.useAccepted(x, c.(*vnet.TCPConn), 0)
	if err := t.Close(); err != nil {
		s.Abort("close-failed", "%v", err)
	}
	for _, l := range e.N.ListenAll {
		if !l.Closed {
			s.Abort("listener-leak", "the transport was closed but a listener is still open")
		}
	}
	s.Probe(fmt.Sprint("accepted-", min(accepted, 4)))
	e.NonTrivial = s.Switches > 3
}

// c19Refused: a server on an address that is in use says so, and works once
// the address is free. A server socket made from a connection closes it.
func c19Refused(e *Env) {
	s := e.S
	e.Swarm(true)
	if s.Draw(4) == 3 {
		a, b := e.N.Pair(e.Plan())
		var t *thrift.TServerSocket
		if s.Draw(2) == 1 {
			t = thrift.NewTServerSocketConn(a)
		} else {
			t = thrift.NewTServerSocketConnTimeout(a, 5*ms)
		}
		for i := s.Draw(3); i >= 0; i-- {
			var err error
			if s.Draw(2) == 1 {
				err = t.Close()
			} else {
				err = t.Interrupt()
			}
			if err != nil {
				s.Abort("close-failed", "closing a server socket on a connection: %v", err)
			}
			if !a.Closed {
				s.Abort("conn-leak", "a server socket was closed but its connection was not")
			}
		}
		b.Close()
		e.NonTrivial = true
		return
	}
	addr := vwork.TheAddr.String()
	foreign, _ := vnet.Listen("tcp", addr)
	k := vwork.DrawStack(s)
	k.FromLn = false
	svc := vwork.NewSvc(s, k.JSON())
	g := e.Gen(k.GenProto())
	e.Desc("%v", k)
	r := k.NewServer(svc, vwork.TheAddr, nil)
	r.Start(s, "refused")
	vsim.WaitUntil("refused", s.Now()+sec, func() bool { return r.Returned })
	if !r.Returned {
		s.Abort("no-error", "Serve goes on although the address is in use")
	}
	if r.Err == nil {
		s.Abort("no-error", "Serve returned no error although the address is in use")
	}
	foreign.Close()
	if s.Draw(2) == 1 {
		// the same server tries again
		r.Returned, r.Err = false, nil
		r.Start(s, "again")
	} else {
		r = k.NewServer(svc, vwork.TheAddr, nil)
		r.Start(s, "again")
	}
	e.waitServing(r)
	e.healthyClient(k, svc, []*vwork.Call{svc.NewCall(vwork.KNormal, g)}, 0, true, false)
	r.Stop()
	vsim.WaitIdle()
	if !r.Returned {
		s.Abort("serve-goes-on", "Serve goes on after Stop")
	}
	e.NonTrivial = true
}
