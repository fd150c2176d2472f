package vprops

import (
	"thrift"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C16", "duplex", 8, c16Duplex)
	reg("C16", "pipeline", 5, c16Pipeline)
	reg("C16", "interrupt", 8, c16Interrupt)
	reg("C16", "halves", 4, c16Halves)
	reg("C08", "duplex", 4, c08Duplex)
}

// c16Duplex: one task reads, another writes, on one transport.
func c16Duplex(e *Env) {
	s := e.S
	s.LookForRaces()
	e.Swarm(false)
	nb := s.Draw(2) == 1
	framed := s.Draw(3) == 2
	plan := e.Plan()
	to := []int64{0, 0, 3600 * sec}[s.Draw(3)]
	base, a, b := e.sockPair(nb, s.Draw(2) == 1, to, plan)
	t := base
	if framed {
		t = thrift.NewTFramedTransport(base)
	}
	mode := s.Draw(3) // 0 both free, 1 the peer reads only when all was read here, 2 the peer writes only when it has all
	in, out := 1+s.Size(3000), 1+s.Size(3000)
	if mode == 1 && s.Draw(2) == 1 {
		plan.C2S.Cap = 1 + s.Draw(20)
	}
	e.Desc("duplex %s framed=%v mode=%d in=%d out=%d %s", sockName(nb), framed, mode, in, out, planStr(plan))
	s.Probe([]string{"free", "peer-reads-last", "peer-writes-last"}[mode])
	inB, outB := payload(1, 0, in), payload(2, 0, out)
	gotIn, gotOut := 0, 0
	var wire []byte
	if framed {
		for i := 0; i < in; {
			n := min(in-i, 1+s.Draw(200))
			wire = append(wire, frame(inB[i:i+n])...)
			i += n
		}
	} else {
		wire = inB
	}
	opens := 0
	reader := func() {
		buf := make([]byte, 4096)
		for gotIn < in {
			want := 1 + s.Draw(min(in-gotIn, 300))
			vwork.Look(t)
			var n int
			var err error
			if s.Draw(2) == 1 {
				n, err = t.ReadAll(buf[:want])
			} else {
				n, err = t.Read(buf[:want])
			}
			if err != nil {
				s.Abort("read-failed", "reading while another task writes, after %d of %d bytes: %v", gotIn, in, err)
			}
			if !eq(buf[:n], inB[gotIn:gotIn+n]) {
				s.Abort("corrupt", "bytes %d..%d read differ from what the peer sent", gotIn, gotIn+n)
			}
			gotIn += n
			opens++
		}
		if late := s.Now() - a.LastIn(); e.Timing && late > ms {
			s.Abort("blocked", "the reader got its last byte %v after it had arrived, another task was writing", dur(late))
		}
	}
	writer := func() {
		sent := 0
		for sent < out {
			n := min(out-sent, 1+s.Draw(300))
			m := append([]byte(nil), outB[sent:sent+n]...)
			vwork.Look(t)
			k, err := t.Write(m)
			scribble(m)
			if err != nil || k != n {
				s.Abort("write-failed", "writing while another task reads: %d of %d, %v", k, n, err)
			}
			sent += n
			if s.Draw(3) == 0 || sent == out {
				if err := t.Flush(); err != nil {
					s.Abort("write-failed", "flushing while another task reads: %v", err)
				}
			}
			if s.Draw(4) == 3 {
				e.someTime(30 * ms)
			}
		}
	}
	peerW := func() {
		if mode == 2 {
			vsim.WaitFor("all received", func() bool { return gotOut == out })
		}
		for sent := 0; sent < len(wire); {
			n := min(len(wire)-sent, 1+s.Draw(300))
			if _, err := b.Write(wire[sent : sent+n]); err != nil {
				s.Abort("harness", "peer write: %v", err)
			}
			sent += n
			if s.Draw(4) == 3 {
				e.someTime(30 * ms)
			}
		}
	}
	peerR := func() {
		if mode == 1 {
			vsim.WaitFor("all read", func() bool { return gotIn == in })
		}
		buf := make([]byte, 4096)
		var raw []byte
		for gotOut < out {
			n, err := b.Read(buf[:1+s.Draw(2000)])
			if err != nil {
				s.Abort("corrupt", "the peer got %d of %d bytes, then %v", gotOut, out, err)
			}
			raw = append(raw, buf[:n]...)
			if !framed {
				gotOut = len(raw)
				if gotOut > out || !eq(raw, outB[:gotOut]) {
					s.Abort("corrupt", "the peer received other bytes than were written (%d)", gotOut)
				}
				continue
			}
			var body []byte
			r := raw
			for len(r) >= 4 {
				n := int(r[0])<<24 | int(r[1])<<16 | int(r[2])<<8 | int(r[3])
				if n > out {
					s.Abort("corrupt", "the peer received a frame of %d bytes, %d were written", n, out)
				}
				if len(r) < 4+n {
					break
				}
				body = append(body, r[4:4+n]...)
				r = r[4+n:]
			}
			if len(body) > out || !eq(body, outB[:len(body)]) {
				s.Abort("corrupt", "the peer received other frames than were written (%d)", len(body))
			}
			gotOut = len(body)
		}
	}
	e.All("duplex", reader, writer, peerW, peerR)
	if err := t.Close(); err != nil {
		s.Abort("close-failed", "%v", err)
	}
	e.NonTrivial = s.Switches > 3
}

// c16Halves: one direction ends (the peer finishes sending, or a read times
// out, or a write does) while the other is in use; the other one goes on.
func c16Halves(e *Env) {
	s := e.S
	s.LookForRaces()
	e.Swarm(false)
	nb := s.Draw(2) == 1
	framed := s.Draw(3) == 2
	plan := e.Plan()
	how := s.Draw(3) // 0 half close, 1 read timeout, 2 write timeout
	to := []int64{0, 3600 * sec}[s.Draw(2)]
	if how != 0 {
		to = 2 * sec
		plan.C2S.Cap = 0
	}
	stuck := 0
	if how == 2 {
		plan.C2S.Cap = 1 + s.Draw(40)
		stuck = plan.C2S.Cap*2 + 300
	}
	base, a, b := e.sockPair(nb, s.Draw(2) == 1, to, plan)
	t := base
	if framed {
		t = thrift.NewTFramedTransport(base)
	}
	in, out := s.Size(500), 1+s.Size(1500)
	e.Desc("halves %s framed=%v %s in=%d out=%d %s", sockName(nb), framed, []string{"half close", "read timeout", "write timeout"}[how], in, out, planStr(plan))
	inB, outB := payload(1, 0, in+8), payload(2, 0, out)
	ended := false
	wire := func(m []byte) []byte {
		if framed && len(m) > 0 {
			return frame(m)
		}
		return m
	}
	var raw []byte
	peerDone := false
	strip := func() []byte {
		if !framed {
			return raw
		}
		var body []byte
		for r := raw; len(r) >= 4; {
			n := int(r[0])<<24 | int(r[1])<<16 | int(r[2])<<8 | int(r[3])
			if n < 0 || n > out || len(r) < 4+n {
				break
			}
			body = append(body, r[4:4+n]...)
			r = r[4+n:]
		}
		return body
	}
	e.All("half", func() { // reader
		buf := make([]byte, 600)
		if in > 0 {
			vwork.Look(t)
			if n, err := t.ReadAll(buf[:in]); err != nil || !eq(buf[:n], inB[:in]) {
				s.Abort("read-failed", "reading %d bytes while another task writes: %d, %v", in, n, err)
			}
		}
		if how == 2 { // more comes after the writer has failed
			vsim.WaitFor("write failed", func() bool { return ended })
			if n, err := t.ReadAll(buf[:8]); err != nil || !eq(buf[:n], inB[in:]) {
				s.Abort("read-failed", "reading after a write of another task had timed out: %d, %v", n, err)
			}
			return
		}
		n, err := t.Read(buf)
		if err == nil || n > 0 {
			s.Abort("no-error", "a read behind the last byte returned %d, %v", n, err)
		}
		ended = true
		if how == 1 && s.Draw(2) == 1 { // and later data can still be read
			s.Probe("read-after-timeout")
			s.Go("peer-late", func() { b.Write(wire(inB[in:])) })
			if n, err := t.ReadAll(buf[:8]); err != nil || !eq(buf[:n], inB[in:]) {
				s.Abort("read-failed", "reading data that came after a timed-out read: %d, %v", n, err)
			}
		}
	}, func() { // writer
		if how == 2 {
			_, err := t.Write(payload(3, 0, stuck))
			if err == nil {
				err = t.Flush()
			}
			if err == nil {
				s.Abort("no-timeout", "%d bytes were written to a peer that takes %d", stuck, plan.C2S.Cap)
			}
			ended = true
			return
		}
		for sent := 0; sent < out; {
			if sent > out/2 {
				vsim.WaitFor("other direction ended", func() bool { return ended })
			}
			n := min(out-sent, 1+s.Draw(300))
			k, err := t.Write(outB[sent : sent+n])
			if err == nil && k == n {
				err = t.Flush()
			}
			if err != nil || k != n {
				s.Abort("write-failed", "writing bytes %d..%d, the other direction ended=%v: %d, %v", sent, sent+n, ended, k, err)
			}
			sent += n
		}
		vsim.WaitFor("ended", func() bool { return ended })
		if framed { // would be a frame
		} else if err := t.Flush(); err != nil {
			s.Abort("write-failed", "an empty flush after the other direction ended: %v", err)
		}
		if !t.IsOpen() {
			s.Abort("open-state", "the transport is not open although nobody closed it")
		}
	}, func() { // peer, sending
		for i := 0; i < in; {
			n := min(in-i, 1+s.Draw(200))
			b.Write(wire(inB[i : i+n]))
			i += n
		}
		switch how {
		case 0:
			e.someTime(30 * ms)
			s.Fault("half-close")
			b.CloseWrite()
		case 2:
			vsim.WaitFor("write failed", func() bool { return ended })
			s.Fault("write-timeout")
			b.Write(wire(inB[in:]))
		case 1:
			s.Fault("read-timeout")
		}
	}, func() { // peer, receiving
		if how == 2 {
			peerDone = true
			return
		}
		buf := make([]byte, 4096)
		for len(strip()) < out {
			n, err := b.Read(buf)
			if err != nil {
				s.Abort("corrupt", "the peer got %d of %d bytes, then %v", len(strip()), out, err)
			}
			raw = append(raw, buf[:n]...)
		}
		if !eq(strip(), outB) {
			s.Abort("corrupt", "the peer received other bytes than were written (%d)", len(raw))
		}
		peerDone = true
	})
	t.Close()
	if !a.Closed {
		s.Abort("close-state", "the connection is open after Close")
	}
	e.NonTrivial = peerDone
}

// c16Pipeline: requests are sent by one task, their replies read by another.
func c16Pipeline(e *Env) {
	s := e.S
	s.LookForRaces()
	e.Swarm(false)
	k := vwork.DrawStack(s)
	svc := vwork.NewSvc(s, k.JSON())
	g := e.Gen(k.GenProto())
	e.planAll()
	e.Desc("pipeline %v", k)
	e.startServer(k, svc, "server")
	t := k.Frame(k.Sock(vwork.TheAddr))
	if err := t.Open(); err != nil {
		s.Abort("open-failed", "%v", err)
	}
	w := k.Client(svc, t, false)
	conn := e.Conn[vsim.Cur()]
	n := s.Range(2, 8)
	var ks []*vwork.Call
	for i := 0; i < n; i++ {
		kind := vwork.KNormal
		switch s.Draw(10) {
		case 7:
			kind = vwork.KFail
		case 8:
			kind = vwork.KOneway
		case 9:
			if k.Proto != vwork.SimpleJSON { // cannot skip what it does not know
				kind = vwork.KUnknown
			}
		}
		c := svc.NewCall(kind, g)
		if s.Draw(5) == 4 {
			c.Work = ms * int64(1+s.Draw(30))
		}
		ks = append(ks, c)
	}
	seq0 := w.Seq
	window := n
	if s.Draw(2) == 1 {
		window = 1 + s.Draw(n)
	}
	sent, got := 0, 0
	e.Desc("%d calls, at most %d outstanding", n, window)
	e.All("pipe", func() {
		for _, c := range ks {
			vsim.WaitFor("window", func() bool { return sent-got < window })
			c.Started = s.Now()
			if err := w.Send(c); err != nil {
				s.Abort("call-failed", "sending request %d of a pipeline: %v", sent, err)
			}
			sent++
		}
	}, func() {
		for i, c := range ks {
			if c.Kind == vwork.KOneway {
				got++
				continue
			}
			err := w.Recv(c, seq0+int32(i)+1)
			c.Err, c.Done, c.Ended = err, true, s.Now()
			if err != nil {
				s.Abort("pipeline", "reply %d of %d pipelined requests: %v", i, n, err)
			}
			svc.Check(c)
			if e.Timing && s.Now()-conn.LastIn() > ms && s.Now() > c.Started+ms {
				s.Abort("late-reply", "reply %d was read %v after the last byte had arrived", i, dur(s.Now()-conn.LastIn()))
			}
			got++
		}
	})
	if err := t.Close(); err != nil {
		s.Abort("close-failed", "%v", err)
	}
	vsim.WaitIdle()
	for _, c := range ks {
		if c.Execs != 1 && c.Kind != vwork.KUnknown {
			s.Fail("not-executed", "call %s was executed %d times", c.Method, c.Execs)
		}
	}
	e.NonTrivial = s.Switches > 3
}

type interrupter interface{ Interrupt() error }

// c16Interrupt: a task interrupts a transport on which others work.
func c16Interrupt(e *Env) {
	s := e.S
	e.Swarm(false)
	nb := s.Draw(2) == 1
	framed := s.Draw(3) == 2
	viaOpen := s.Draw(2) == 1
	plan := e.Plan()
	block := s.Draw(4) // 0 reader blocks, 1 writer blocks, 2 both, 3 traffic
	plan.C2S.Cap = 1 + s.Draw(50)
	to := []int64{0, 0, 3600 * sec}[s.Draw(3)]
	base, a, b := e.sockPair(nb, viaOpen, to, plan)
	t := base
	if framed {
		t = thrift.NewTFramedTransport(base)
	}
	in, ok := base.(interrupter)
	if !ok {
		s.Abort("harness", "%T has no Interrupt", base)
	}
	e.Desc("interrupt %s framed=%v opened=%v block=%d %s", sockName(nb), framed, viaOpen, block, planStr(plan))
	var at int64 = -1 // when the interrupt began
	var fs []func()
	fin := func(op string, began int64, err error) {
		if at < 0 {
			s.Abort("spurious-error", "%s failed before the interrupt: %v", op, err)
		}
		if late := s.Now() - max(at, began); late > ms {
			s.Abort("interrupt-late", "%s returned %v after the interrupt: %v", op, dur(late), err)
		}
		s.Probe("interrupted-" + op)
		e.NonTrivial = true
	}
	stopped := false
	if block != 1 {
		fs = append(fs, func() {
			buf := make([]byte, 64)
			for {
				began := s.Now()
				var err error
				if s.Draw(2) == 1 {
					_, err = t.ReadAll(buf[:1+s.Draw(20)])
				} else {
					_, err = t.Read(buf[:1+s.Draw(20)])
				}
				if err != nil {
					if !stopped {
						fin("read", began, err)
					}
					return
				}
				if at >= 0 && s.Now() > at+sec {
					s.Abort("interrupt-ignored", "reads still succeed %v after the interrupt", dur(s.Now()-at))
				}
			}
		})
	}
	if block != 0 {
		fs = append(fs, func() {
			for {
				began := s.Now()
				_, err := t.Write(payload(1, 0, 1+s.Draw(200)))
				op := "write"
				if err == nil {
					began = s.Now()
					err = t.Flush()
					op = "flush"
				}
				if err != nil {
					if !stopped {
						fin(op, began, err)
					}
					return
				}
				if at >= 0 && s.Now() > at+sec {
					s.Abort("interrupt-ignored", "writes still succeed %v after the interrupt", dur(s.Now()-at))
				}
				if block == 3 {
					e.someTime(5 * ms)
				}
			}
		})
	}
	end := false
	if block == 3 {
		s.Go("peer-r", func() {
			buf := make([]byte, 500)
			for !end {
				if _, err := b.Read(buf); err != nil {
					return
				}
			}
		})
		s.Go("peer-w", func() {
			for !end {
				m := payload(3, 0, 1+s.Draw(40))
				if framed {
					m = frame(m)
				}
				if _, err := b.Write(m); err != nil {
					return
				}
				e.someTime(5 * ms)
			}
		})
	}
	times := 1
	if s.Draw(4) == 3 {
		times = 2
	}
	closeToo := s.Draw(4) == 3
	if !closeToo || !framed { // nobody promises that Close may meet a Read in a framed transport
		s.LookForRaces()
	}
	fs = append(fs, func() {
		e.someTime(200 * ms)
		for i := 0; i < times; i++ {
			if at < 0 {
				at = s.Now()
			}
			s.Fault("interrupt")
			err := in.Interrupt()
			if err != nil && i == 0 && !closeToo {
				s.Abort("interrupt-failed", "Interrupt: %v", err)
			}
			if i == 0 && !a.Closed && !closeToo {
				s.Abort("interrupt-ignored", "Interrupt returned %v and left the connection open", err)
			}
		}
	})
	if closeToo {
		// another task closes at the same time: nothing may panic
		fs = append(fs, func() {
			vsim.WaitFor("interrupt", func() bool { return at >= 0 })
			t.Close()
		})
	}
	e.All("int", fs...)
	stopped, end = true, true
	if block == 3 || block == 1 { // a read that starts after the interrupt ends too
		began := s.Now()
		if n, err := t.Read(make([]byte, 4)); err == nil && n > 0 && s.Now() > began+sec {
			s.Abort("interrupt-ignored", "a read still succeeds after the interrupt")
		}
	}
	t.Close()
	if t.IsOpen() {
		s.Abort("close-state", "open after Close")
	}
	if !a.Closed {
		s.Abort("close-state", "the connection is open after Interrupt and Close")
	}
	if viaOpen && s.Draw(2) == 1 {
		e.N.PlanConn = func(string, int) *vnet.Plan { return &vnet.Plan{} }
		ln, _ := vnet.Listen("tcp", vwork.TheAddr.String())
		defer ln.Close()
		if err := t.Open(); err != nil {
			s.Abort("reopen-failed", "Open after Interrupt and Close: %v", err)
		}
		x := e.N.Conns[len(e.N.Conns)-1]
		y := x.Peer
		if !x.Client {
			x, y = y, x
		}
		m := payload(7, 0, 30)
		w := m
		if framed {
			w = frame(m)
		}
		if _, err := y.Write(w); err != nil {
			s.Abort("harness", "%v", err)
		}
		buf := make([]byte, 30)
		if n, err := t.ReadAll(buf); err != nil || !eq(buf[:n], m) {
			s.Abort("reopen-failed", "reading after Interrupt, Close and Open: %d bytes %v", n, err)
		}
		if _, err := t.Write(m); err != nil {
			s.Abort("reopen-failed", "writing after Interrupt, Close and Open: %v", err)
		}
		if err := t.Flush(); err != nil {
			s.Abort("reopen-failed", "flushing after Interrupt, Close and Open: %v", err)
		}
		vsim.WaitIdle()
		if !eq(x.Out(), w) {
			s.Abort("reopen-failed", "after Interrupt, Close and Open the peer got %d bytes, %d were written", len(x.Out()), len(w))
		}
		t.Close()
	}
}

// c08Duplex: the timeout of one direction does not depend on the other.
func c08Duplex(e *Env) {
	s := e.S
	s.Cfg.MaxTime = 100 * 365 * 24 * 3600 * sec
	s.LookForRaces()
	e.Swarm(false)
	nb := s.Draw(2) == 1
	framed := s.Draw(3) == 2
	to := e.drawTimeout() + 20*ms
	readStuck := s.Draw(2) == 1
	expire := s.Draw(3) != 2
	p := &vnet.Plan{}
	p.C2S.Cap = 10 + s.Draw(100)
	base, a, b := e.sockPair(nb, s.Draw(2) == 1, to, p)
	t := base
	if framed {
		t = thrift.NewTFramedTransport(base)
	}
	e.Desc("duplex timeout %s framed=%v timeout=%v read-waits=%v expires=%v %s", sockName(nb), framed, dur(to), readStuck, expire, planStr(p))
	over := false
	wait := to*int64(10+s.Draw(80))/100 + 1
	gap := func() {
		w := to * int64(1+s.Draw(60)) / 100
		at := s.Now() + w
		vsim.WaitUntil("gap", at, func() bool { return over })
		vwork.Look(t)
	}
	if readStuck {
		s.Go("drain", func() {
			buf := make([]byte, 4096)
			for {
				if _, err := b.Read(buf); err != nil {
					return
				}
			}
		})
		e.All("d", func() {
			buf := make([]byte, 8)
			at := s.Now()
			vwork.Look(t)
			n, err := t.ReadAll(buf)
			over = true
			if expire {
				e.timedOut("read (another task is writing)", at, max(at, a.LastRd), to, err, true)
			} else if err != nil || n != 8 {
				s.Abort("spurious-timeout", "a read of data that came after %v failed after %v with timeout %v while another task was writing: %v", dur(wait), dur(s.Now()-at), dur(to), err)
			} else if d := s.Now() - at; d > wait+ms {
				s.Abort("late", "a read of data that came after %v took %v", dur(wait), dur(d))
			}
		}, func() {
			for !over {
				gap()
				if over {
					return
				}
				if _, err := t.Write(payload(1, 0, 1+s.Draw(200))); err != nil {
					s.Abort("spurious-timeout", "a write to a peer that takes everything failed: %v", err)
				}
				if err := t.Flush(); err != nil {
					s.Abort("spurious-timeout", "a flush to a peer that takes everything failed: %v", err)
				}
			}
		}, func() {
			if !expire {
				vsim.Sleep(dur(wait))
				m := payload(3, 0, 8)
				if framed {
					m = frame(m)
				}
				b.Write(m)
			}
		})
	} else {
		total := p.C2S.Cap*2 + 100
		hdr := 0
		if framed {
			hdr = 4
		}
		e.All("d", func() {
			at := s.Now()
			_, err := t.Write(payload(1, 0, total))
			if err == nil {
				at0 := at
				if !nb || framed {
					at0 = s.Now()
				}
				at = at0
				err = t.Flush()
			}
			over = true
			if expire {
				e.timedOut("write (another task is reading)", at, at, to, err, true)
			} else if err != nil {
				s.Abort("spurious-timeout", "a write the peer took after %v failed after %v with timeout %v while another task was reading: %v", dur(wait), dur(s.Now()-at), dur(to), err)
			}
		}, func() {
			buf := make([]byte, 64)
			for !over {
				n, err := t.Read(buf)
				if err != nil && !over {
					s.Abort("spurious-timeout", "a read that is served within the timeout failed: %d %v", n, err)
				}
			}
		}, func() {
			for !over {
				gap()
				m := payload(3, 0, 1+s.Draw(8))
				if framed {
					m = frame(m)
				}
				b.Write(m)
			}
			vsim.Sleep(dur(ms))
			m := payload(3, 0, 1)
			if framed {
				m = frame(m)
			}
			b.Write(m)
		}, func() {
			if !expire {
				vsim.Sleep(dur(wait))
				buf := make([]byte, 4096)
				for b.Consumed() < total+hdr {
					if _, err := b.Read(buf); err != nil {
						return
					}
				}
			}
		})
	}
	t.Close()
	e.NonTrivial = true
}
