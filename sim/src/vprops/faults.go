package vprops

import (
	"errors"
	"fmt"
	"io"
	"thrift"
	"time"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C02", "rpc-faults", 12, c02RPC)
	reg("C02", "http-faults", 3, c02HTTP)
}

const sec = int64(time.Second)

// faultDir adds a fault to a direction.
func (e *Env) faultDir(d *vnet.Dir, stall bool, forever bool) {
	s := e.S
	k := []int{vnet.FNone, vnet.FRst, vnet.FCut, vnet.FWriteErr, vnet.FStall}[s.Draw(5)]
	if k == vnet.FNone || (k == vnet.FStall && !stall) {
		return
	}
	off := s.Draw(40)
	switch s.Draw(3) {
	case 1:
		off = s.Draw(200)
	case 2:
		off = s.Draw(1500)
	}
	d.Fault = vnet.Fault{Kind: k, Off: off}
	if k == vnet.FStall {
		d.Fault.Dur = ms * int64(1+s.Draw(20000))
		if forever && s.Draw(3) == 2 {
			d.Fault.Dur = -1
		}
	}
}

// progress is the last time anything moved on the connection of the task.
func progress(c *vnet.TCPConn, at int64) int64 {
	if c != nil {
		at = max(at, c.LastRd, c.LastWr, c.Born)
	}
	return at
}

// caller performs calls, getting a new connection after every error, and
// checks that each call ends in time. It returns the number of failed calls.
func (e *Env) caller(k *vwork.Stack, svc *vwork.Svc, ks []*vwork.Call, shared bool) (failed int) {
	s := e.S
	var t thrift.TTransport
	var cl *vwork.Client
	fresh := s.Draw(2) == 1
	late := func(what string, since int64) {
		if k.CliTimeout <= 0 || !e.Timing {
			return
		}
		at := progress(e.Conn[vsim.Cur()], since)
		if d := s.Now() - at; d > k.CliTimeout+ms {
			s.Abort("unbounded", "%s ended %v after the last progress on its connection, the timeout is %v", what, time.Duration(d), time.Duration(k.CliTimeout))
		}
	}
	for _, c := range ks {
		if cl == nil {
			if t == nil || fresh {
				t = k.Frame(k.Sock(vwork.TheAddr))
			}
			at := s.Now()
			err := t.Open()
			late("open", at)
			if err != nil {
				failed++
				c.Err, c.Done = err, true
				if s.Draw(2) == 1 {
					vsim.Sleep(time.Duration(ms * int64(1+s.Draw(300))))
				}
				continue
			}
			cl = k.Client(svc, t, shared)
		}
		err := cl.Do(c)
		late("call "+c.Method, c.Started)
		if err != nil {
			failed++
			t.Close()
			if t.IsOpen() {
				s.Abort("still-open", "the transport reports open after Close")
			}
			cl = nil
		}
	}
	if cl != nil {
		t.Close()
	}
	return
}

func c02RPC(e *Env) {
	s := e.S
	e.Swarm(true)
	k := vwork.DrawStack(s)
	k.Asymmetric(s)
	k.CliTimeout = []int64{0, 300 * ms, 2 * sec, 20 * sec}[s.Draw(4)]
	k.SrvTimeout = []int64{0, 500 * ms, 5 * sec}[s.Draw(3)]
	crash := s.Draw(4) == 3
	dialFaults := s.Draw(4) == 3
	stall := k.CliTimeout > 0
	forever := stall && k.SrvTimeout > 0
	e.Desc("%v crash=%v dialFaults=%v", k, crash, dialFaults)
	svc := vwork.NewSvc(s, k.JSON())
	svc.Keep = s.Draw(4) != 3
	g := e.Gen(k.GenProto())
	faulty := true
	e.N.PlanConn = func(addr string, n int) *vnet.Plan {
		if !faulty {
			return nil
		}
		p := e.Plan()
		if faulty {
			switch s.Draw(3) {
			case 1:
				e.faultDir(&p.C2S, stall, forever)
			case 2:
				e.faultDir(&p.S2C, stall, forever)
			}
			p.RstOnUnread = s.Draw(2) == 1
		}
		e.Desc("conn %d %s rstOnUnread=%v", n, planStr(p), p.RstOnUnread)
		return p
	}
	if dialFaults {
		e.N.DialFault = func(string) (int, int64) {
			if !faulty {
				return 0, 0
			}
			switch s.Draw(6) {
			case 3:
				return 1, ms * int64(s.Draw(50))
			case 4:
				if k.CliTimeout > 0 {
					return 2, 0
				}
			case 5:
				return 0, ms * int64(s.Draw(1000))
			}
			return 0, 0
		}
	}
	e.startServer(k, svc, "server0")
	gen := 0
	nc := s.Range(1, 4)
	left := nc
	total := 0
	for c := 0; c < nc; c++ {
		n := s.Range(1, 5)
		var ks []*vwork.Call
		for i := 0; i < n; i++ {
			kind := []int{vwork.KNormal, vwork.KNormal, vwork.KNormal, vwork.KFail, vwork.KOneway, vwork.KUnknown}[s.Draw(6)]
			cl := svc.NewCall(kind, g)
			if s.Draw(8) == 7 {
				cl.Work = ms * int64(1+s.Draw(1000))
			}
			ks = append(ks, cl)
		}
		total += n
		shared := s.Draw(2) == 0
		s.Go(fmt.Sprintf("client%d", c), func() {
			e.caller(k, svc, ks, shared)
			left--
		})
	}
	if crash {
		for i := s.Range(1, 2); i > 0; i-- {
			if s.Draw(2) == 1 {
				// at a point of the schedule rather than of time
				n := s.Draw(60)
				vsim.WaitFor("crash-point", func() bool { n--; return n < 0 || left == 0 })
			} else {
				vsim.Sleep(time.Duration(ms * int64(s.Draw(200))))
			}
			if left == 0 {
				break
			}
			grp := fmt.Sprintf("server%d", gen)
			s.Fault("server-crash")
			s.Kill(grp)
			e.N.CrashNode(grp)
			if s.Draw(2) == 1 {
				vsim.Sleep(time.Duration(ms * int64(s.Draw(500))))
			}
			gen++
			e.startServer(k, svc, fmt.Sprintf("server%d", gen))
		}
	}
	vsim.WaitFor("clients", func() bool { return left == 0 })
	faulty = false
	s.StallPct = 0
	// after the faults a fresh connection works
	hk := *k
	hk.CliTimeout = 0
	t := hk.Frame(hk.Sock(vwork.TheAddr))
	if err := t.Open(); err != nil {
		s.Abort("no-recovery", "after the faults ended, open failed: %v", err)
	}
	cl := k.Client(svc, t, s.Draw(2) == 0)
	for i := 0; i < 2; i++ {
		if err := cl.Do(svc.NewCall(vwork.KNormal, g)); err != nil {
			s.Abort("no-recovery", "after the faults ended, a call on a fresh connection failed: %v", err)
		}
	}
	t.Close()
	bad := 0
	for _, c := range svc.Calls {
		if c.Err != nil {
			bad++
		}
	}
	s.Probes["calls-failed"] += bad
	s.Probes["calls-succeeded"] += len(svc.Calls) - bad
	e.NonTrivial = len(s.Faults) > 0
}

var errNet = errors.New("dial tcp: connection refused")

func c02HTTP(e *Env) {
	s := e.S
	e.Swarm(false)
	k := &vwork.Stack{Proto: s.Draw(vwork.NumProto), Framed: s.Draw(4) == 3}
	e.Desc("http %s framed=%v", vwork.ProtoNames[k.Proto], k.Framed)
	svc := vwork.NewSvc(s, k.JSON())
	g := e.Gen(k.GenProto())
	h := vwork.InstallHTTP(s)
	faulty := true
	h.Serve = func(x *vwork.Exchange) {
		e.httpShape(x)
		how := 0
		if faulty {
			how = s.Draw(6)
		}
		if how == 1 {
			s.Fault("http-no-response")
			x.Err = errNet
			return
		}
		serveHTTP(k, svc, x)
		switch how {
		case 2:
			s.Fault("http-response-lost")
			x.Err = io.ErrUnexpectedEOF
		case 3:
			s.Fault("http-status")
			x.Status = []int{201, 204, 206, 400, 404, 500, 502, 503}[s.Draw(8)]
			if s.Draw(2) == 1 {
				x.Resp = []byte("<html>error</html>")
			}
		case 4:
			if len(x.Resp) > 0 {
				x.Cut = s.Draw(len(x.Resp))
				x.CutErr = []error{io.ErrUnexpectedEOF, errBroken, io.EOF}[s.Draw(3)]
			}
		}
	}
	nc := s.Range(1, 3)
	var fs []func()
	for c := 0; c < nc; c++ {
		n := s.Range(1, 5)
		var ks []*vwork.Call
		for i := 0; i < n; i++ {
			kind := vwork.KNormal
			if s.Draw(5) == 4 {
				kind = vwork.KFail
			}
			ks = append(ks, svc.NewCall(kind, g))
		}
		shared, keep := s.Draw(2) == 0, s.Draw(2) == 1
		fs = append(fs, func() {
			var t thrift.TTransport
			var cl *vwork.Client
			for _, c := range ks {
				if t == nil {
					t0, err := thrift.NewTHttpPostClient("http://sim.test:8080/svc")
					if err != nil {
						s.Abort("open-failed", "NewTHttpPostClient: %v", err)
					}
					t = k.Frame(t0)
					t.Open()
				}
				if cl == nil {
					cl = k.Client(svc, t, shared)
				}
				if err := cl.Do(c); err != nil {
					cl = nil
					switch {
					case !keep:
						t.Close()
						t = nil
					case k.Framed || s.Draw(2) == 1:
						t.Close()
						t.Open()
					}
				}
			}
			if t != nil {
				t.Close()
			}
		})
	}
	e.All("client", fs...)
	faulty = false
	t0, _ := thrift.NewTHttpPostClient("http://sim.test:8080/svc")
	t := k.Frame(t0)
	cl := k.Client(svc, t, true)
	for i := 0; i < 2; i++ {
		if err := cl.Do(svc.NewCall(vwork.KNormal, g)); err != nil {
			s.Abort("no-recovery", "after the faults ended, a call over HTTP failed: %v", err)
		}
	}
	t.Close()
	e.NonTrivial = len(s.Faults) > 0
}
