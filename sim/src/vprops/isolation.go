package vprops

import (
	"crypto/sha256"
	"fmt"
	"net"
	"simple"
	"thrift"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C15", "jobs", 10, c15Jobs)
	reg("C15", "servers", 4, c15Servers)
}

// job is a deterministic piece of work on its own transports and protocols.
type job struct {
	name string
	run  func() string
	ref  string
}

// shared are the objects that several stacks may share: factories,
// processors and whatever the package holds itself.
type shared struct {
	pf [vwork.NumProto]thrift.TProtocolFactory
	ff thrift.TTransportFactory
	mf thrift.TTransportFactory
	hf thrift.TTransportFactory

	mem, http thrift.TTransport // patterns for the factories

	gp *simple.ContainerOfEnumsTestServiceProcessor
}

func sum(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%x", b)
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d:%x", len(b), h[:8])
}

func errStr(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func (e *Env) drawJob(sh *shared, i int) *job {
	s := e.S
	proto := s.Draw(vwork.NumProto)
	pf := sh.pf[proto]
	if s.Draw(3) == 2 {
		pf = vwork.Factory(proto)
	}
	g := e.Gen(proto)
	if g.Big > 0 {
		g.Big = 200
	}
	framed := s.Draw(3) == 2
	messy := s.Draw(3) == 2
	frame := func(t thrift.TTransport) thrift.TTransport {
		if messy {
			e.litter(sh, pf)
		}
		if framed {
			return sh.ff.GetTransport(t)
		}
		return t
	}
	fresh := func() *thrift.TMemoryBuffer { return thrift.NewTMemoryBuffer() }
	if sh.mf != nil && s.Draw(2) == 1 {
		pattern := []thrift.TTransport{nil, sh.mem}[s.Draw(2)]
		fresh = func() *thrift.TMemoryBuffer { return sh.mf.GetTransport(pattern).(*thrift.TMemoryBuffer) }
	}
	var msgs []*vwork.Message
	for k, n := 0, s.Range(1, 3); k < n; k++ {
		msgs = append(msgs, g.Message(i*10+k))
	}
	// the bytes are made in one piece, by one task, before anything else runs
	B, ends, err := vwork.Encode(proto, msgs...)
	if err != nil {
		s.Abort("encode-failed", "writing %v to memory: %v", msgs, err)
	}
	if framed {
		B, _ = frameUp(s, B, ends, false)
	}
	max := []int{0, 1, 3, 17}[s.Draw(4)]
	if max > 0 && len(B) > 20000 {
		max = 5000 // one byte at a time takes too many steps
	}
	kind := s.Draw(10)
	j := &job{}
	id := fmt.Sprintf("job%d %s framed=%v", i, vwork.ProtoNames[proto], framed)
	bad := func(f string, a ...interface{}) string { return "WRONG " + vsim.Sprintf(f, a...) }
	readAll := func(p thrift.TProtocol) string {
		var read []*vwork.Message
		for k, w := range msgs {
			m, err := vwork.ReadMessage(p, w.Sch, 200000)
			if err != nil {
				return bad("message %d (%v): %v", k, w, err)
			}
			if !m.Same(w, vwork.IsJSON(proto)) {
				return bad("message %d decoded as %v, written %v", k, m, w)
			}
			read = append(read, m)
		}
		for k, m := range read {
			if !m.Same(msgs[k], vwork.IsJSON(proto)) {
				return bad("message %d, read as %v, changed later", k, msgs[k])
			}
		}
		return "ok"
	}
	writeAll := func(p thrift.TProtocol) string {
		for k, w := range msgs {
			err := vwork.WriteMessage(p, w)
			if err == nil {
				if x := p.Flush(); x != nil {
					err = x
				}
			}
			if err != nil {
				return bad("writing message %d: %v", k, err)
			}
		}
		return "ok"
	}
	switch kind {
	case 0, 1: // encode
		j.name = id + " encode"
		j.run = func() string {
			buf := fresh()
			if r := writeAll(pf.GetProtocol(frame(buf))); r != "ok" {
				return r
			}
			if !eq(buf.Bytes(), B) {
				return bad("encoded %d bytes, alone it was %d; they differ at byte %d", buf.Len(), len(B), firstDiff(buf.Bytes(), B))
			}
			return sum(buf.Bytes())
		}
	case 2, 3: // decode
		j.name = id + " decode"
		carrier := s.Draw(3)
		j.run = func() string {
			var t thrift.TTransport
			switch carrier {
			case 0:
				m := fresh()
				m.Write(B)
				t = m
			case 1:
				t = thrift.NewTIOStreamTransportR(&vwork.Chunks{S: s, B: B, Max: max})
			case 2:
				t = thrift.NewTIOStreamTransportRW(rwJoin{&vwork.Chunks{S: s, B: B, Max: max}, &vwork.Sink{S: s, FailAt: -1}})
			}
			return readAll(pf.GetProtocol(frame(t)))
		}
	case 4: // broken bytes: the outcome is the same every time
		M := mutate(s, B)
		skip := s.Draw(2) == 1
		j.name = id + " garbage"
		j.run = func() string {
			p := pf.GetProtocol(frame(thrift.NewTIOStreamTransportR(&vwork.Chunks{S: s, B: M, Max: max})))
			out := ""
			for k := 0; k < 4; k++ {
				if skip {
					err := skipMessage(p, nil)
					out += errStr(err) + ";"
					if err != nil {
						break
					}
					continue
				}
				m, err := vwork.ReadMessage(p, msgs[min(k, len(msgs)-1)].Sch, 200000)
				if err != nil {
					out += errStr(err)
					break
				}
				out += fmt.Sprint(m) + ";"
			}
			return out
		}
	case 5: // exception
		typ, msg := int32(s.Draw(9)), vwork.ExcMsgs[s.Draw(len(vwork.ExcMsgs))]
		j.name = id + " exception"
		j.run = func() string {
			buf := fresh()
			p := pf.GetProtocol(frame(buf))
			x := vwork.NewExc(s, typ, msg)
			p.WriteMessageBegin("x", thrift.EXCEPTION, 9)
			if err := x.Write(p); err != nil {
				return bad("%v", err)
			}
			p.WriteMessageEnd()
			p.Flush()
			r := sum(buf.Bytes())
			p = pf.GetProtocol(frame(buf))
			if _, t, q, err := p.ReadMessageBegin(); err != nil || t != thrift.EXCEPTION || q != 9 {
				return bad("%v %v %v", t, q, err)
			}
			y, err := thrift.NewTApplicationExceptionDefault().Read(p)
			if err != nil {
				return bad("%v", err)
			}
			if y.TypeId() != typ || y.Error() != msg {
				return bad("exception %d %q read as %d %q", typ, msg, y.TypeId(), y.Error())
			}
			return r
		}
	case 6: // generated struct, processor shared by all
		m := simple.NewContainerOfEnums()
		m.First = simple.UndefinedValues(s.Draw(3))
		m.Second = simple.DefinedValues(s.Draw(3) + 1)
		m.Third = simple.HeterogeneousValues(s.Draw(4))
		j.name = id + " generated"
		j.run = func() string {
			in, out := fresh(), fresh()
			tin := frame(in)
			p := pf.GetProtocol(tin)
			a := simple.NewEchoArgs()
			a.Message = m
			p.WriteMessageBegin("echo", thrift.CALL, int32(i))
			if err := a.Write(p); err != nil {
				return bad("%v", err)
			}
			p.WriteMessageEnd()
			p.Flush()
			if ok, err := sh.gp.Process(pf.GetProtocol(frame(in)), pf.GetProtocol(frame(out))); !ok || err != nil {
				return bad("processor: %v %v", ok, err)
			}
			p = pf.GetProtocol(frame(out))
			if n, t, q, err := p.ReadMessageBegin(); err != nil || n != "echo" || t != thrift.REPLY || q != int32(i) {
				return bad("reply %v %v %v %v", n, t, q, err)
			}
			r := simple.NewEchoResult()
			if err := r.Read(p); err != nil {
				return bad("%v", err)
			}
			if goldStr(r.Success) != goldStr(m) {
				return bad("echo(%s) returned %s", goldStr(m), goldStr(r.Success))
			}
			return goldStr(m)
		}
	case 7: // a stream that fails
		at := s.Draw(len(B))
		j.name = id + " failing write"
		j.run = func() string {
			k := &vwork.Sink{S: s, FailAt: at}
			p := pf.GetProtocol(frame(thrift.NewTIOStreamTransportW(k)))
			out := ""
			for _, w := range msgs {
				err := vwork.WriteMessage(p, w)
				if err == nil {
					if x := p.Flush(); x != nil {
						err = x
					}
				}
				out += errStr(err) + ";"
				if err != nil {
					break
				}
			}
			return out + sum(k.B.Bytes())
		}
	case 8: // HTTP through the client that the package shares
		j.name = id + " http"
		q := payload(i, 0, 1+s.Size(500))
		proto_ := s.Draw(2)
		j.run = func() string {
			var t thrift.TTransport
			if sh.hf != nil {
				// made by a factory after the pattern of a client that others may use
				t = sh.hf.GetTransport([]thrift.TTransport{nil, sh.http}[proto_])
			} else {
				var err error
				if t, err = thrift.NewTHttpPostClient("http://sim.test/echo"); err != nil {
					return bad("%v", err)
				}
			}
			ft := frame(t)
			for k := 0; k < 2; k++ {
				if _, err := ft.Write(q); err != nil {
					return bad("%v", err)
				}
				if err := ft.Flush(); err != nil {
					return bad("%v", err)
				}
				b := make([]byte, len(q))
				if n, err := ft.ReadAll(b); err != nil || !eq(b[:n], q) {
					return bad("http echo of %d bytes returned %d, %v", len(q), n, err)
				}
			}
			t.Close()
			return "ok"
		}
	case 9: // socket pair, echo
		j.name = id + " socket"
		nb := s.Draw(2) == 1
		j.run = func() string {
			a, b := e.N.Pair(&vnet.Plan{C2S: vnet.Dir{Seg: max, Cap: 1 << 20}, S2C: vnet.Dir{MaxRead: max, Cap: 1 << 20}})
			s.Go("echo", func() {
				buf := make([]byte, 512)
				for {
					n, err := b.Read(buf)
					if err != nil {
						b.Close()
						return
					}
					if _, err := b.Write(buf[:n]); err != nil {
						return
					}
				}
			})
			k := &vwork.Stack{CliNB: nb}
			t := k.SockConn(a)
			ft := frame(t)
			p := pf.GetProtocol(ft)
			if r := writeAll(p); r != "ok" {
				return r
			}
			r := readAll(pf.GetProtocol(ft))
			t.Close()
			return r
		}
	}
	return j
}

// litter uses a stack for a while and gives it up in the middle of things.
func (e *Env) litter(sh *shared, pf thrift.TProtocolFactory) {
	s := e.S
	var t thrift.TTransport
	junk := payload(77, s.Draw(50), 1+s.Draw(40))
	switch s.Draw(4) {
	case 0, 1:
		m := thrift.NewTMemoryBuffer()
		m.Write([]byte{0, 0, 0, 9})
		m.Write(junk)
		m.Write(junk)
		t = m
	case 2:
		t = thrift.NewTIOStreamTransportRW(rwJoin{&vwork.Chunks{S: s, B: append([]byte{0, 0, 0, 9}, payload(78, 0, 40)...)}, &vwork.Sink{S: s, FailAt: -1}})
	case 3:
		a, b := e.N.Pair(&vnet.Plan{C2S: vnet.Dir{Cap: 1 << 20}, S2C: vnet.Dir{Cap: 1 << 20}})
		b.Write(append([]byte{0, 0, 0, 9}, payload(78, 0, 40)...))
		defer b.Close()
		t = (&vwork.Stack{CliNB: s.Draw(2) == 1}).SockConn(a)
	}
	ft := t
	if s.Draw(2) == 1 {
		ft = sh.ff.GetTransport(t)
	}
	p := pf.GetProtocol(ft)
	switch s.Draw(5) {
	case 0:
		ft.Write(junk)
	case 1: // in the middle of a message
		p.WriteMessageBegin("litter", thrift.CALL, 7)
		p.WriteStructBegin("s")
		p.WriteFieldBegin("f", thrift.LIST, 9)
		p.WriteListBegin(thrift.I32, 3)
		p.WriteI32(1)
	case 2:
		ft.Read(make([]byte, 1+s.Draw(5)))
	case 3:
		p.ReadMessageBegin()
	case 4:
		ft.Write(junk)
		ft.Flush()
		ft.Write(junk)
		ft.Read(make([]byte, 2))
	}
	if s.Draw(4) != 3 {
		ft.Close()
	}
	t.Close()
	s.Probe("litter")
}

func c15Jobs(e *Env) {
	s := e.S
	h := vwork.InstallHTTP(s)
	h.Serve = func(x *vwork.Exchange) { x.Resp = x.Req }
	sh := &shared{ff: thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory())}
	for i := range sh.pf {
		sh.pf[i] = vwork.Factory(i)
	}
	if s.Draw(2) == 1 {
		sh.mf = thrift.NewTMemoryBufferTransportFactory([]int{0, 1, 8, 30, 200, 5000}[s.Draw(6)])
		sh.mem = thrift.NewTMemoryBufferLen([]int{0, 16, 300}[s.Draw(3)])
	}
	if s.Draw(2) == 1 {
		sh.hf = thrift.NewTHttpPostClientTransportFactory("http://sim.test/echo")
		sh.http, _ = thrift.NewTHttpPostClient("http://sim.test/echo")
	}
	sh.gp = simple.NewContainerOfEnumsTestServiceProcessor(&goldenHandler{s: s, execs: map[string]int{}})
	n := s.Range(2, 5)
	var jobs []*job
	for i := 0; i < n; i++ {
		j := e.drawJob(sh, i)
		e.Desc("%s", j.name)
		jobs = append(jobs, j)
	}
	check := func(j *job, r, when string) {
		if len(r) > 6 && r[:6] == "WRONG " {
			s.Abort("interference", "%s, %s: %s", j.name, when, r[6:])
		}
		if r != j.ref {
			s.Abort("interference", "%s gives %q alone and %q %s", j.name, j.ref, r, when)
		}
	}
	if s.Draw(2) == 1 {
		s.LookForRaces()
	}
	// Some runs do the work together first: whatever the package sets up on
	// first use is then set up by several tasks at once.
	first := s.Draw(3) == 2
	if !first {
		for _, j := range jobs {
			j.ref = j.run()
			check(j, j.ref, "alone")
		}
	}
	together := map[*job][]string{}
	// now together
	switch s.Draw(4) {
	case 0:
		s.PreemptMax, s.PreemptPct = 1+s.Draw(3), 100
	case 1:
		s.PreemptMax, s.PreemptPct = 12, 100
	case 2:
		s.PreemptMax, s.PreemptPct = 60, 100
	case 3:
		s.PreemptMax, s.PreemptPct = 4, 30
	}
	var fs []func()
	for i := range jobs {
		j := jobs[i]
		if i > 0 && s.Draw(6) == 5 {
			j = jobs[i-1] // the same work twice at once
		}
		rounds := s.Range(1, 2)
		fs = append(fs, func() {
			for r := 0; r < rounds; r++ {
				if first {
					together[j] = append(together[j], j.run())
				} else {
					check(j, j.run(), "together with others")
				}
			}
		})
	}
	e.All("job", fs...)
	s.PreemptMax = 0
	if first {
		for _, j := range jobs {
			j.ref = j.run()
			check(j, j.ref, "alone")
			for _, r := range together[j] {
				check(j, r, "together with others")
			}
		}
		s.Probe("together-first")
	}
	for i := len(jobs) - 1; i >= 0; i-- {
		check(jobs[i], jobs[i].run(), "alone again")
	}
	e.NonTrivial = s.Preempts > 2
}

// c15Servers: servers of different stacks in one process, one of which stops.
func c15Servers(e *Env) {
	s := e.S
	e.Swarm(true)
	if s.Draw(2) == 1 {
		s.LookForRaces()
	}
	e.planAll()
	n := s.Range(2, 3)
	var fs []func()
	for i := 0; i < n; i++ {
		i := i
		k := vwork.DrawStack(s)
		k.FromLn = false
		addr := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9090 + i}
		svc := vwork.NewSvc(s, k.JSON())
		g := e.Gen(k.GenProto())
		e.Desc("server %d %v", i, k)
		r := k.NewServer(svc, addr, nil)
		r.Start(s, fmt.Sprint("server", i))
		vsim.WaitFor("server up", func() bool {
			l := e.N.Listener(addr.String())
			return r.Returned || l != nil && l.Calls > 0
		})
		if r.Returned {
			s.Abort("serve-failed", "server %d returned instead of serving: %v", i, r.Err)
		}
		stop := s.Draw(3) == 2
		cycle := s.Draw(3) == 2
		var ks []*vwork.Call
		for c := s.Range(1, 5); c > 0; c-- {
			kind := vwork.KNormal
			if s.Draw(6) == 5 {
				kind = vwork.KFail
			}
			ks = append(ks, svc.NewCall(kind, g))
		}
		fs = append(fs, func() {
			t := k.Frame(k.Sock(addr))
			if err := t.Open(); err != nil {
				s.Abort("open-failed", "client of server %d: %v", i, err)
			}
			cl := svc.NewClient(t, vwork.Factory(k.Proto), s.Draw(2) == 1)
			for _, c := range ks {
				if err := cl.Do(c); err != nil {
					s.Abort("call-failed", "call %s of server %d: %v", c.Method, i, err)
				}
				if cycle {
					t.Close()
					if err := t.Open(); err != nil {
						s.Abort("open-failed", "client of server %d: %v", i, err)
					}
					cl = svc.NewClient(t, vwork.Factory(k.Proto), s.Draw(2) == 1)
				}
			}
			t.Close()
			if stop {
				r.Stop()
				vsim.WaitFor("serve returned", func() bool { return r.Returned })
				s.Probe("one-server-stopped")
			} else if r.Returned {
				s.Abort("interference", "server %d ended although only another one was stopped: %v", i, r.Err)
			}
			for _, c := range ks {
				if c.Execs != 1 {
					s.Abort("interference", "call %s of server %d was executed %d times", c.Method, i, c.Execs)
				}
			}
		})
	}
	e.All("client", fs...)
	e.NonTrivial = s.Switches > 3
}
