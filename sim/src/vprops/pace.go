package vprops

import (
	"thrift"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C06", "pace", 3, c06Pace)
}

// c06Pace: both ends have timeouts and either may be too slow for the other.
// An operation that timed out has moved exactly as many bytes as it said, and
// the stream goes on from there.
func c06Pace(e *Env) {
	s := e.S
	e.Swarm(false)
	nb := s.Draw(2) == 1
	to := []int64{5 * ms, 100 * ms}[s.Draw(2)]
	plan := &vnet.Plan{C2S: vnet.Dir{Cap: 1 + s.Draw(300), Seg: []int{0, -7, 1}[s.Draw(3)]}, S2C: vnet.Dir{Cap: 1 + s.Draw(300), Seg: []int{0, -7, 1}[s.Draw(3)], Latency: latencies[s.Draw(4)]}}
	t, a, b := e.sockPair(nb, s.Draw(2) == 1, to, plan)
	e.Desc("%s timeout=%v %s", sockName(nb), dur(to), planStr(plan))
	slow := func() {
		switch s.Draw(4) {
		case 2:
			vsim.Sleep(dur(to * int64(s.Draw(95)) / 100))
		case 3:
			vsim.Sleep(dur(to * int64(101+s.Draw(300)) / 100))
		}
	}
	if s.Draw(2) == 0 {
		// the transport writes, the peer reads slowly
		stop := false
		var got []byte
		s.Go("peer", func() {
			buf := make([]byte, 4096)
			for !stop {
				slow()
				n, err := b.Read(buf[:1+s.Draw(400)])
				got = append(got, buf[:n]...)
				if err != nil {
					return
				}
			}
		})
		var model []byte // what has been accepted from the caller
		ok := true
		for i := s.Range(2, 12); i > 0; i-- {
			m := payload(1, len(model), s.Size(900))
			n, err := t.Write(m)
			if n < 0 || n > len(m) || (err == nil && n != len(m)) {
				s.Abort("bad-count", "Write(%d) returned %d, %v", len(m), n, err)
			}
			model = append(model, m[:n]...)
			scribble(m)
			if err != nil {
				s.Probe("write-timed-out")
				ok = false
			}
			flush := s.Draw(3) > 0
			if flush {
				ok = t.Flush() == nil
				if !ok {
					s.Probe("flush-timed-out")
				}
			}
			out := a.Out()
			if len(out) > len(model) || !eq(out, model[:len(out)]) {
				s.Abort("altered", "%d bytes were accepted from the caller, but the wire has %d; they differ at %d", len(model), len(out), firstDiff(out, model))
			}
			if (nb || flush && ok) && len(out) != len(model) {
				s.Abort("lost", "%d bytes were accepted from the caller and flushed without an error, but only %d are on the wire", len(model), len(out))
			}
		}
		t.Close()
		vsim.WaitUntil("peer reads all", s.Now()+3600*sec, func() bool { return len(got) == len(a.Out()) })
		stop = true
		if len(got) > len(model) || !eq(got, model[:len(got)]) {
			s.Abort("altered", "the peer received bytes that were not written")
		}
		e.NonTrivial = len(got) > 0
		return
	}
	// the peer writes in pieces with pauses, the transport reads
	all := payload(2, 0, 1+s.Size(2000))
	s.Go("peer", func() {
		for sent := 0; sent < len(all); {
			n := min(len(all)-sent, 1+s.Draw(300))
			slow()
			if _, err := b.Write(all[sent : sent+n]); err != nil {
				return
			}
			sent += n
		}
	})
	got, timeouts := 0, 0
	buf := make([]byte, 1000)
	for got < len(all) {
		want := 1 + s.Draw(400)
		vwork.Look(t)
		var n int
		var err error
		what := "Read"
		if s.Draw(2) == 1 {
			what = "ReadAll"
			want = min(want, len(all)-got)
			n, err = t.ReadAll(buf[:want])
		} else {
			n, err = t.Read(buf[:want])
		}
		if n < 0 || n > want || got+n > len(all) || !eq(buf[:n], all[got:got+n]) {
			s.Abort("altered", "%s(%d) at offset %d returned %d bytes that are not the ones sent (error %v)", what, want, got, n, err)
		}
		if err == nil && what == "ReadAll" && n != want {
			s.Abort("short", "ReadAll(%d) returned %d bytes without an error", want, n)
		}
		got += n
		if err != nil {
			if typeOf(err) != thrift.TIMED_OUT {
				s.Abort("read-failed", "%s after %d of %d bytes: %v", what, got, len(all), err)
			}
			s.Probe("read-timed-out")
			if timeouts++; timeouts > 5000 {
				s.Abort("lost", "only %d of %d bytes can be read", got, len(all))
			}
		}
	}
	t.Close()
	e.NonTrivial = got > 0
}
