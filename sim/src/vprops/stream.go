package vprops

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"thrift"
	"time"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C03", "large", 1, large(func(e *Env) { streamRead(e, false) }))
	reg("C04", "large", 1, large(func(e *Env) { streamCut(e, false) }))
	reg("C05", "large", 1, large(streamWrite))
	reg("C17", "large", 1, large(func(e *Env) { streamRead(e, true) }))
	reg("C03", "stream", 100, func(e *Env) { streamRead(e, false) })
	reg("C17", "skip", 80, func(e *Env) { streamRead(e, true) })
	reg("C17", "depth", 10, skipDepth)
	reg("C17", "skip-cut", 40, func(e *Env) { streamCut(e, true) })
	reg("C04", "cut", 100, func(e *Env) { streamCut(e, false) })
	reg("C04", "exception-cut", 20, exceptionCut)
	reg("C04", "fails-once", 40, failsOnce)
	reg("C05", "write", 100, streamWrite)
}

// carriers of a byte stream towards a reader
const (
	carIOR = iota
	carIORW
	carIORandW
	carSock
	carNBSock
	carHTTP
	carMem
	numCar
)

var carNames = []string{"TIOStreamTransport(R)", "TIOStreamTransport(RW)", "TIOStreamTransport(R,W)", "TSocket", "TNonblockingSocket", "THttpClient", "TMemoryBuffer"}

// source is the sending side of a carrier.
type source struct {
	B     []byte
	limit int // bytes allowed to arrive
	T     thrift.TTransport
	raw   thrift.TTransport
	ch    *vwork.Chunks
	conn  *vnet.TCPConn // reader side
	x     *vwork.Exchange
	kind  int
}

// how the stream ends
const (
	endEOF = iota
	endEOFWith
	endErr
	endReset
	endTimeout
	endOpen // never ends
)

var endNames = []string{"eof", "eof-with-data", "error", "reset", "timeout", "open"}

var errBroken = errors.New("input/output error")

type rwJoin struct {
	io.Reader
	io.Writer
}

// source makes a transport that reads B, gated by limit.
func (e *Env) source(kind int, B []byte, framed bool, end int, timeout int64) *source {
	s := e.S
	src := &source{B: B, limit: len(B), kind: kind}
	var base thrift.TTransport
	mk := func() *vwork.Chunks {
		c := &vwork.Chunks{S: s, B: B, Limit: func() int { return src.limit }}
		switch s.Draw(5) {
		case 1:
			c.Max = 1
		case 2:
			c.Max = -4
		case 3:
			c.Max = -40
		case 4:
			c.Max = 1 + s.Draw(12)
		}
		if e.Coarse {
			c.Max *= 5000
		}
		if s.Draw(4) == 3 {
			c.Gap = ms * int64(1+s.Draw(30))
		}
		if kind == carIORW && s.Draw(3) == 2 {
			c.Zero = 50 + s.Draw(700)
		}
		c.EOFWith = end == endEOFWith
		if end == endErr {
			c.Err = errBroken
		}
		if end == endOpen {
			c.Limit = func() int {
				if src.limit == len(B) && c.Pos == len(B) {
					return len(B)
				}
				return src.limit
			}
		}
		src.ch = c
		return c
	}
	var rd io.Reader
	hold := func(c *vwork.Chunks) io.Reader {
		if end == endOpen {
			return openEnd{c}
		}
		return c
	}
	fac := kind <= carIORandW && s.Draw(4) == 3
	switch kind {
	case carIOR:
		rd = hold(mk())
		if base = thrift.NewTIOStreamTransportR(rd); fac {
			base = thrift.NewTIOStreamTransportFactory(rd, nil, false).GetTransport(nil)
		}
	case carIORW:
		rw := rwJoin{hold(mk()), &vwork.Sink{S: s, FailAt: -1}}
		if base = thrift.NewTIOStreamTransportRW(rw); fac {
			base = thrift.NewTIOStreamTransportFactory(rw, nil, true).GetTransport(nil)
		}
	case carIORandW:
		r, w := hold(mk()), &vwork.Sink{S: s, FailAt: -1}
		if base = thrift.NewTIOStreamTransportRAndW(r, w); fac {
			base = thrift.NewTIOStreamTransportFactory(r, w, false).GetTransport(nil)
		}
	case carSock, carNBSock:
		p := e.Plan()
		cc, sc := e.N.Pair(p)
		e.Desc("conn %s", planStr(p))
		src.conn = cc
		if kind == carSock {
			t, _ := thrift.NewTSocketConnTimeout(cc, timeout)
			base = t
		} else {
			t, _ := thrift.NewTNonblockingSocketConn(cc)
			t.SetTimeout(timeout)
			base = t
		}
		s.Go("feeder", func() {
			sent := 0
			for sent < len(B) {
				vsim.WaitFor("feeder-gate", func() bool { return src.limit > sent })
				n, err := sc.Write(B[sent:src.limit])
				sent += n
				if err != nil {
					return
				}
			}
			switch end {
			case endEOF, endEOFWith, endErr:
				sc.Close()
			case endReset:
				// the reset must not overtake the data in this scenario
				if d := cc.LastIn() - s.Now(); d > 0 {
					vsim.Sleep(time.Duration(d))
				}
				vsim.WaitFor("consumed", func() bool { return cc.Consumed() == len(B) || cc.Closed })
				s.Fault("conn-reset")
				sc.Reset(0)
			}
		})
	case carHTTP:
		h := vwork.InstallHTTP(s)
		h.Serve = func(x *vwork.Exchange) {
			src.x = x
			x.Resp = B
			e.httpShape(x)
			x.EOFWith = end == endEOFWith
			if end == endErr {
				x.Cut, x.CutErr = len(B), io.ErrUnexpectedEOF
				x.Resp = append(append([]byte(nil), B...), 0)
			}
		}
		t, err := thrift.NewTHttpPostClient("http://sim.test/x")
		if err != nil {
			s.Abort("open-failed", "%v", err)
		}
		t.Write([]byte("req"))
		if err := t.Flush(); err != nil {
			s.Abort("open-failed", "flush over healthy HTTP: %v", err)
		}
		base = t
	case carMem:
		t := thrift.NewTMemoryBuffer()
		switch s.Draw(6) {
		case 4:
			t = thrift.NewTMemoryBufferLen(s.Draw(len(B) + 100))
		case 5:
			t = thrift.NewTMemoryBufferTransportFactory(s.Draw(100)).GetTransport(nil).(*thrift.TMemoryBuffer)
		}
		t.Write(B)
		s.Received += int64(len(B))
		base = t
	}
	base = vwork.Again(s, base)
	src.raw = base
	src.T = base
	if framed {
		src.T = thrift.NewTFramedTransport(base)
	}
	return src
}

// openEnd never ends: reading past the bytes blocks.
type openEnd struct{ c *vwork.Chunks }

func (o openEnd) Read(p []byte) (int, error) {
	if len(p) > 0 && o.c.Pos >= len(o.c.B) {
		vsim.WaitFor("stream-open-end", func() bool { return false })
	}
	return o.c.Read(p)
}

// live reports whether the carrier delivers in time steps.
func liveCar(kind int) bool { return kind <= carNBSock }

// frames wraps every message into a frame, or splits the stream anywhere.
func frameUp(s *vsim.Sim, B []byte, ends []int, wild bool) ([]byte, []int) {
	var out []byte
	var fe []int
	put := func(b []byte) {
		var h [4]byte
		binary.BigEndian.PutUint32(h[:], uint32(len(b)))
		out = append(append(out, h[:]...), b...)
	}
	pos := 0
	for _, end := range ends {
		for pos < end {
			n := end - pos
			if wild {
				if s.Draw(6) == 5 {
					s.Probe("empty-frame")
					put(nil)
				}
				if k := 1 + s.Draw(40); n > k {
					n = k
				}
			}
			put(B[pos : pos+n])
			pos += n
		}
		fe = append(fe, len(out))
	}
	return out, fe
}

func leaves(v *vwork.Value, f func(*vwork.Value)) {
	switch v.T {
	case thrift.STRUCT:
		for _, x := range v.F {
			leaves(x.V, f)
		}
	case thrift.LIST, thrift.SET, thrift.MAP:
		for i := range v.E {
			if v.T == thrift.MAP {
				leaves(v.K[i], f)
			}
			leaves(v.E[i], f)
		}
	default:
		f(v)
	}
}

// streamRead: messages written back to back are decoded whatever the delivery.
func streamRead(e *Env, prune bool) {
	s := e.S
	e.Swarm(false)
	protos := vwork.NumProto
	proto := s.Draw(protos)
	if prune {
		proto = []int{vwork.Binary, vwork.Compact, vwork.JSON, vwork.BinaryLax}[s.Draw(4)]
	}
	kind := s.Draw(numCar)
	framed := s.Draw(3) == 2
	live := liveCar(kind) && s.Draw(2) == 1
	end := endEOF
	switch {
	case liveCar(kind) && s.Draw(2) == 1:
		end = endOpen
	case s.Draw(2) == 1:
		end = endEOFWith
	}
	g := e.Gen(proto)
	var msgs, want []*vwork.Message
	n := s.Range(1, 4)
	for i := 0; i < n; i++ {
		m := g.Message(i)
		msgs = append(msgs, m)
		w := *m
		if prune {
			w.Body, w.Sch = vwork.Prune(s, m.Body, m.Sch, 200+s.Draw(600))
		}
		want = append(want, &w)
	}
	var B []byte
	var ends []int
	var err error
	if e.Prop == "C20" {
		B, ends, err = foreignEncode(s, proto, msgs...)
	} else {
		B, ends, err = vwork.Encode(proto, msgs...)
	}
	if err != nil {
		s.Abort("encode-failed", "writing %v to memory: %v", msgs, err)
	}
	wild := framed && s.Draw(3) == 2
	if framed {
		B, ends = frameUp(s, B, ends, wild)
	}
	e.Desc("%s over %s framed=%v wild=%v live=%v end=%s, %d messages, %d bytes %s", vwork.ProtoNames[proto], carNames[kind], framed, wild, live, endNames[end], n, len(B), vwork.Hex(B))
	for _, m := range msgs {
		e.Desc("message %v", m)
	}
	src := e.source(kind, B, framed, end, 0)
	if live {
		src.limit = ends[0]
	}
	p := vwork.Factory(proto).GetProtocol(src.T)
	skipAll := prune && s.Draw(4) == 3
	var read []*vwork.Message
	var wrote []*vwork.Message
	for i, w := range want {
		if skipAll && s.Draw(2) == 1 {
			if err := skipMessage(p, w); err != nil {
				s.Abort("skip-failed", "skipping message %d of %d (%v): %v", i, n, msgs[i], err)
			}
		} else {
			m, err := vwork.ReadMessage(p, w.Sch, 200000)
			if err != nil {
				s.Abort("read-failed", "message %d of %d (%v) arrived whole but reading it failed: %v", i, n, msgs[i], err)
			}
			if !m.Same(w, vwork.IsJSON(proto)) {
				s.Abort("decoded-wrong", "message %d of %d decoded as %v, written %v", i, n, m, w)
			}
			read, wrote = append(read, m), append(wrote, w)
		}
		if src.conn != nil && src.conn.Consumed() > 0 {
			e.NonTrivial = true
		}
		if live && i+1 < n {
			src.limit = ends[i+1]
		}
	}
	e.NonTrivial = e.NonTrivial || len(B) > 8
	if end != endOpen {
		// behind the last message there is nothing
		if m, err := vwork.ReadMessage(p, &vwork.Schema{T: thrift.STRUCT}, 10); err == nil {
			s.Abort("invented", "after the end of the stream a message %v was read", m)
		}
	}
	for i, m := range read {
		if !m.Same(wrote[i], vwork.IsJSON(proto)) {
			s.Abort("changed-later", "message %d of %d, read as %v, changed while later messages were read", i, n, wrote[i])
		}
	}
}

// depthOf is how deep skipping a value must go: 1 for a simple type or
// an empty container.
func depthOf(v *vwork.Value) int {
	d := 0
	for _, f := range v.F {
		d = max(d, depthOf(f.V))
	}
	for i := range v.E {
		if v.T == thrift.MAP {
			d = max(d, depthOf(v.K[i]))
		}
		d = max(d, depthOf(v.E[i]))
	}
	return 1 + d
}

// skipDepth: skipping goes exactly as deep as it was allowed to.
func skipDepth(e *Env) {
	s := e.S
	e.Swarm(false)
	proto := []int{vwork.Binary, vwork.Compact, vwork.JSON, vwork.BinaryLax}[s.Draw(4)]
	g := e.Gen(proto)
	m, m2 := g.Message(0), g.Message(1)
	B, _, err := vwork.Encode(proto, m, m2)
	if err != nil {
		s.Abort("encode-failed", "writing %v to memory: %v", m, err)
	}
	kind := s.Draw(numCar)
	src := e.source(kind, B, false, endEOF, 0)
	p := vwork.Factory(proto).GetProtocol(src.T)
	d := depthOf(m.Body)
	limit := s.Draw(d + 3)
	if s.Draw(2) == 1 {
		limit = d - s.Draw(2)
	}
	e.Desc("%s over %s, depth %d, limit %d: %v", vwork.ProtoNames[proto], carNames[kind], d, limit, m)
	if _, _, _, err := p.ReadMessageBegin(); err != nil {
		s.Abort("read-failed", "ReadMessageBegin: %v", err)
	}
	var x thrift.TProtocolException
	switch s.Draw(3) {
	case 0:
		x = thrift.Skip(p, thrift.STRUCT, limit)
	case 1:
		thrift.SetMaxSkipDepth(limit)
		x = thrift.SkipDefaultDepth(p, thrift.STRUCT)
	case 2:
		thrift.SetMaxSkipDepth(limit)
		x = p.Skip(thrift.STRUCT)
	}
	e.NonTrivial = true
	if limit < d {
		if x == nil {
			s.Abort("too-deep", "a value of depth %d was skipped with a limit of %d", d, limit)
		}
		return
	}
	if x != nil {
		s.Abort("skip-failed", "skipping a value of depth %d with a limit of %d: %v", d, limit, x)
	}
	if err := p.ReadMessageEnd(); err != nil {
		s.Abort("skip-failed", "ReadMessageEnd: %v", err)
	}
	r, e2 := vwork.ReadMessage(p, m2.Sch, 200000)
	if e2 != nil || !r.Same(m2, vwork.IsJSON(proto)) {
		s.Abort("decoded-wrong", "the message after a skipped one was read as %v (%v), written %v", r, e2, m2)
	}
}

func skipMessage(p thrift.TProtocol, w *vwork.Message) error {
	name, typ, seq, e := p.ReadMessageBegin()
	if e != nil {
		return e
	}
	if w != nil && (name != w.Name || byte(typ) != w.Type || seq != w.Seq) {
		return fmt.Errorf("header read as %s/%d/%d", name, typ, seq)
	}
	if e := p.Skip(thrift.STRUCT); e != nil {
		return e
	}
	if e := p.ReadMessageEnd(); e != nil {
		return e
	}
	return nil
}

func onlySpace(b []byte) bool {
	for _, c := range b {
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return false
		}
	}
	return true
}

// streamCut: a stream that ends inside a message yields an error.
func streamCut(e *Env, prune bool) {
	s := e.S
	e.Swarm(false)
	proto := s.Draw(vwork.NumProto)
	if prune {
		proto = []int{vwork.Binary, vwork.Compact, vwork.JSON, vwork.BinaryLax}[s.Draw(4)]
	}
	kind := s.Draw(numCar)
	framed := s.Draw(3) == 2
	g := e.Gen(proto)
	g.Big = 0
	n := s.Range(1, 3)
	var msgs []*vwork.Message
	for i := 0; i < n; i++ {
		msgs = append(msgs, g.Message(i))
	}
	B, ends, err := vwork.Encode(proto, msgs...)
	if err != nil {
		s.Abort("encode-failed", "writing %v to memory: %v", msgs, err)
	}
	start := 0
	if n > 1 {
		start = ends[n-2]
	}
	innerCut := framed && s.Draw(2) == 1 // a whole frame holding a cut message
	wild := framed && s.Draw(3) == 2
	cutAt := func() int {
		lo, hi := start, ends[n-1]
		switch s.Draw(3) {
		case 1:
			return hi - 1 - s.Draw(min(hi-lo, 12))
		}
		return lo + s.Draw(hi-lo)
	}
	var cut int
	if !framed || innerCut {
		cut = cutAt()
		for cut > start && onlySpace(B[cut:ends[n-1]]) {
			cut--
		}
		B = B[:cut]
		ends[n-1] = cut
		if cut == start {
			ends = ends[:n-1]
		}
		if framed {
			B, ends = frameUp(s, B, ends, wild)
		}
	} else {
		B, ends = frameUp(s, B, ends, wild)
		start = 0
		if n > 1 {
			start = ends[n-2]
		}
		cut = cutAt()
		B = B[:cut]
	}
	end := s.Draw(3)
	timeout := int64(0)
	if kind == carSock || kind == carNBSock {
		end = []int{endEOF, endReset, endTimeout}[s.Draw(3)]
		if end == endTimeout {
			timeout = ms * int64(200+s.Draw(2000))
		}
	}
	if kind == carMem {
		end = endEOF
	}
	skip := s.Draw(3) == 2
	e.Desc("%s over %s framed=%v wild=%v innerCut=%v end=%s, %d messages cut at byte %d: %s", vwork.ProtoNames[proto], carNames[kind], framed, wild, innerCut, endNames[end], n, cut, vwork.Hex(B))
	src := e.source(kind, B, framed, end, timeout)
	s.Fault("stream-cut-" + endNames[end])
	p := vwork.Factory(proto).GetProtocol(src.T)
	for i, m := range msgs {
		e.Desc("message %v", m)
		sch := m.Sch
		w := m
		if prune {
			x := *m
			x.Body, x.Sch = vwork.Prune(s, m.Body, m.Sch, 500)
			w, sch = &x, x.Sch
		}
		last := i == n-1
		if skip && last {
			if err := skipMessage(p, nil); err == nil {
				s.Abort("cut-not-reported", "message %v cut at byte %d of the stream (%d of it arrived) was skipped without an error", m, cut, len(B)-start)
			}
			break
		}
		var got []*vwork.Value
		r, err := readLeaves(p, sch, &got)
		if !last {
			if err != nil {
				s.Abort("read-failed", "message %d of %d (%v) arrived whole but reading it failed: %v", i, n, m, err)
			}
			if !r.Same(w, vwork.IsJSON(proto)) {
				s.Abort("decoded-wrong", "message %d decoded as %v, written %v", i, r, w)
			}
			continue
		}
		if err == nil {
			s.Abort("cut-not-reported", "message %v cut at byte %d of the stream was returned as %v", m, cut, r)
		}
		var all []*vwork.Value
		leaves(w.Body, func(v *vwork.Value) { all = append(all, v) })
		for j, v := range got {
			if j >= len(all) || !vwork.Equal(v, all[j], vwork.IsJSON(proto)) {
				wr := "<none>"
				if j < len(all) {
					wr = all[j].String()
				}
				s.Abort("cut-value", "of message %v cut at byte %d, leaf value %d was returned as %v, written %s", m, cut, j, v, wr)
			}
		}
		if end == endTimeout && e.Timing {
			// nothing to check here: C08
		}
	}
	e.NonTrivial = true
}

// exceptionCut: an application exception that ends too early is not an
// exception. What is behind the cut never shows up in it.
func exceptionCut(e *Env) {
	s := e.S
	e.Swarm(false)
	proto := s.Draw(vwork.NumProto)
	kind := s.Draw(numCar)
	framed := s.Draw(3) == 2
	g := e.Gen(proto)
	g.Big = 0
	msg, typ := g.Str(), int32(s.Draw(12))
	buf := thrift.NewTMemoryBuffer()
	w := vwork.Factory(proto).GetProtocol(buf)
	seq := int32(s.Draw(100000))
	if err := w.WriteMessageBegin("call", thrift.EXCEPTION, seq); err != nil {
		s.Abort("encode-failed", "%v", err)
	}
	if s.Draw(2) == 1 {
		v := &vwork.Value{T: thrift.STRUCT, Name: "TApplicationException"}
		if proto != vwork.SimpleJSON {
			x, _ := g.Struct()
			v.F = append(v.F, vwork.Field{ID: 9, Name: "extra", V: x})
		}
		v.F = append(v.F, vwork.Field{ID: 2, Name: "type", V: &vwork.Value{T: thrift.I32, I: int64(typ)}})
		if msg != "" {
			v.F = append(v.F, vwork.Field{ID: 1, Name: "message", V: &vwork.Value{T: thrift.STRING, S: msg}})
		}
		if err := vwork.Write(w, v); err != nil {
			s.Abort("encode-failed", "%v", err)
		}
	} else if err := thrift.NewTApplicationException(typ, msg).Write(w); err != nil {
		s.Abort("encode-failed", "%v", err)
	}
	if err := w.WriteMessageEnd(); err != nil {
		s.Abort("encode-failed", "%v", err)
	}
	if err := w.Flush(); err != nil {
		s.Abort("encode-failed", "%v", err)
	}
	B := append([]byte(nil), buf.Bytes()...)
	full := len(B)
	cut := s.Draw(full)
	for cut > 0 && onlySpace(B[cut:]) {
		cut--
	}
	if framed {
		if s.Draw(2) == 1 {
			B, _ = frameUp(s, B[:cut], []int{cut}, false)
		} else {
			B, _ = frameUp(s, B, []int{full}, s.Draw(2) == 1)
			cut = s.Draw(len(B))
			for cut > 0 && onlySpace(B[cut:]) {
				cut--
			}
			B = B[:cut]
		}
	} else {
		B = B[:cut]
	}
	end := s.Draw(3)
	if kind == carSock || kind == carNBSock {
		end = []int{endEOF, endReset}[s.Draw(2)]
	}
	e.Desc("exception %d %q, %s over %s framed=%v end=%s, cut at byte %d: %s", typ, msg, vwork.ProtoNames[proto], carNames[kind], framed, endNames[end], cut, vwork.Hex(B))
	src := e.source(kind, B, framed, end, 0)
	s.Fault("stream-cut-" + endNames[end])
	p := vwork.Factory(proto).GetProtocol(src.T)
	e.NonTrivial = true
	nm, ty, sq, err := p.ReadMessageBegin()
	if err != nil {
		return
	}
	if nm != "call" || ty != thrift.EXCEPTION || sq != seq {
		s.Abort("cut-value", "header read as %q/%d/%d", nm, ty, sq)
	}
	x, er := thrift.NewTApplicationExceptionDefault().Read(p)
	if er != nil {
		return
	}
	if x.TypeId() != typ || x.Error() != msg {
		s.Abort("cut-value", "exception %d %q cut at byte %d was returned as %d %q", typ, msg, cut, x.TypeId(), x.Error())
	}
	if err := p.ReadMessageEnd(); err == nil {
		s.Abort("cut-not-reported", "exception %d %q cut at byte %d was read without an error", typ, msg, cut)
	}
}

type onceTimeout struct{}

func (onceTimeout) Error() string   { return "i/o timeout" }
func (onceTimeout) Timeout() bool   { return true }
func (onceTimeout) Temporary() bool { return true }

// failsOnce: one read fails inside a message and the stream goes on behind
// that, as after a timeout. The message is not returned as if nothing had
// happened and some of it were not there.
func failsOnce(e *Env) {
	s := e.S
	e.Swarm(false)
	proto := s.Draw(vwork.NumProto)
	kind := []int{carIOR, carIORW, carIORandW, carSock, carNBSock}[s.Draw(5)]
	framed := s.Draw(4) == 3
	g := e.Gen(proto)
	g.Big = 0
	m := g.Message(0)
	exc := s.Draw(3) == 2
	buf := thrift.NewTMemoryBuffer()
	w := vwork.Factory(proto).GetProtocol(buf)
	x := thrift.NewTApplicationException(int32(1+s.Draw(12)), g.Str())
	var err error
	if exc {
		if err = w.WriteMessageBegin(m.Name, thrift.EXCEPTION, m.Seq); err == nil {
			if err = x.Write(w); err == nil {
				err = w.WriteMessageEnd()
			}
		}
	} else {
		err = vwork.WriteMessage(w, m)
	}
	if err == nil {
		err = w.Flush()
	}
	if err != nil {
		s.Abort("encode-failed", "%v", err)
	}
	B := append([]byte(nil), buf.Bytes()...)
	if framed {
		B, _ = frameUp(s, B, []int{len(B)}, s.Draw(2) == 1)
	}
	ats := []int{1 + s.Draw(len(B))}
	if kind <= carIORandW {
		// several places, or all of them
		for k := min(len(B)-1, 24); len(ats) < k; {
			if k == len(B)-1 {
				ats = append(ats, len(ats))
				continue
			}
			ats = append(ats, 1+s.Draw(len(B)-1))
		}
	}
	e.NonTrivial = true
	for _, at := range ats {
		if at = min(at, len(B)-1); at > 0 {
			e.failOnce(proto, kind, framed, B, at, m, x, exc)
		}
	}
}

func (e *Env) failOnce(proto, kind int, framed bool, B []byte, at int, m *vwork.Message, x thrift.TApplicationException, exc bool) {
	s := e.S
	timeout := int64(0)
	if kind == carSock || kind == carNBSock {
		timeout = ms * int64(200+s.Draw(2000))
	}
	e.Desc("%s over %s framed=%v exception=%v, one failure at byte %d of %d: %s", vwork.ProtoNames[proto], carNames[kind], framed, exc, at, len(B), vwork.Hex(B))
	src := e.source(kind, B, framed, endEOF, timeout)
	if c := src.ch; c != nil {
		c.Hick, c.HickErr, c.HickWith = at, errBroken, s.Draw(3) == 2
		if s.Draw(2) == 1 {
			c.HickErr = onceTimeout{}
		}
	} else {
		src.limit = at
		s.Go("pause", func() {
			vsim.Sleep(time.Duration(timeout*2 + ms*int64(s.Draw(3000))))
			s.Fault("read-fails-once")
			src.limit = len(B)
		})
	}
	p := vwork.Factory(proto).GetProtocol(src.T)
	if !exc {
		var got []*vwork.Value
		r, err := readLeaves(p, m.Sch, &got)
		if err == nil {
			if !r.Same(m, vwork.IsJSON(proto)) {
				s.Abort("failure-not-reported", "a read failed at byte %d of message %v, which was returned as %v", at, m, r)
			}
			return
		}
		var all []*vwork.Value
		leaves(m.Body, func(v *vwork.Value) { all = append(all, v) })
		for j, v := range got {
			if j >= len(all) || !vwork.Equal(v, all[j], vwork.IsJSON(proto)) {
				s.Abort("failed-value", "a read failed at byte %d of message %v, and leaf value %d was returned as %v", at, m, j, v)
			}
		}
		return
	}
	nm, ty, sq, err := p.ReadMessageBegin()
	if err != nil {
		return
	}
	if nm != m.Name || ty != thrift.EXCEPTION || sq != m.Seq {
		s.Abort("failure-not-reported", "a read failed at byte %d, header %q/%d read as %q/%d/%d", at, m.Name, m.Seq, nm, ty, sq)
	}
	y, er := thrift.NewTApplicationExceptionDefault().Read(p)
	if er != nil {
		return
	}
	if y.TypeId() != x.TypeId() || y.Error() != x.Error() {
		s.Abort("failure-not-reported", "a read failed at byte %d of exception %d %q, which was returned as %d %q", at, x.TypeId(), x.Error(), y.TypeId(), y.Error())
	}
}

func readLeaves(p thrift.TProtocol, sc *vwork.Schema, got *[]*vwork.Value) (*vwork.Message, error) {
	name, t, seq, e := p.ReadMessageBegin()
	if e != nil {
		return nil, e
	}
	m := &vwork.Message{Name: name, Type: byte(t), Seq: seq, Sch: sc}
	r := &vwork.Reader{P: p, Limit: 200000, OnLeaf: func(v *vwork.Value) { *got = append(*got, v) }}
	v, err := r.Read(sc)
	if err != nil {
		return nil, err
	}
	m.Body = v
	if e := p.ReadMessageEnd(); e != nil {
		return nil, e
	}
	return m, nil
}

// ---- C05 ----

const (
	wIOW = iota
	wIORW
	wIORandW
	wIOFlush
	wRaw
	wSock
	wNBSock
	wHTTP
	numW
)

var wNames = []string{"TIOStreamTransport(W)", "TIOStreamTransport(RW)", "TIOStreamTransport(R,W)", "TIOStreamTransport(RW with Flush)", "unbuffered transport", "TSocket", "TNonblockingSocket", "THttpClient"}

func streamWrite(e *Env) {
	s := e.S
	e.Swarm(false)
	proto := s.Draw(vwork.NumProto)
	kind := s.Draw(numW)
	framed := s.Draw(3) == 2
	g := e.Gen(proto)
	if s.Draw(3) == 2 {
		g.Big = 300 // more than the buffers hold
	}
	n := s.Range(1, 3)
	var msgs []*vwork.Message
	for i := 0; i < n; i++ {
		msgs = append(msgs, g.Message(i))
	}
	B, ends, err := vwork.Encode(proto, msgs...)
	if err != nil {
		s.Abort("encode-failed", "writing %v to memory: %v", msgs, err)
	}
	if framed {
		B, ends = frameUp(s, B, ends, false)
	}
	fail := -1
	if s.Draw(8) != 7 {
		fail = s.Draw(len(B) + 1)
		if s.Draw(3) == 2 {
			fail = max(0, len(B)-1-s.Draw(min(len(B), 6)))
		}
	}
	viaProto := s.Draw(2) == 1
	e.Desc("%s over %s framed=%v, %d messages, %d bytes, failure at %d, flush via protocol=%v", vwork.ProtoNames[proto], wNames[kind], framed, n, len(B), fail, viaProto)
	var base thrift.TTransport
	var wire func() []byte
	var sink *vwork.FSink
	var fault func() bool
	mkSink := func() *vwork.FSink {
		sink = &vwork.FSink{Sink: vwork.Sink{S: s, FailAt: fail, Once: s.Draw(2) == 1}}
		if s.Draw(3) == 2 {
			sink.Err = io.EOF
		}
		wire = sink.B.Bytes
		fault = func() bool { return sink.Failed > 0 }
		return sink
	}
	isHTTP := false
	var lostConn *vnet.TCPConn
	var httpBodies [][]byte
	fac := kind <= wIORandW && s.Draw(4) == 3
	switch kind {
	case wIOW:
		k := &mkSink().Sink
		if base = thrift.NewTIOStreamTransportW(k); fac {
			base = thrift.NewTIOStreamTransportFactory(nil, k, false).GetTransport(nil)
		}
		base = vwork.Again(s, base)
	case wIORW:
		rw := rwJoin{&vwork.Chunks{S: s}, &mkSink().Sink}
		if base = thrift.NewTIOStreamTransportRW(rw); fac {
			base = thrift.NewTIOStreamTransportFactory(rw, nil, true).GetTransport(nil)
		}
		base = vwork.Again(s, base)
	case wIORandW:
		r, k := &vwork.Chunks{S: s}, &mkSink().Sink
		if base = thrift.NewTIOStreamTransportRAndW(r, k); fac {
			base = thrift.NewTIOStreamTransportFactory(r, k, false).GetTransport(nil)
		}
		base = vwork.Again(s, base)
	case wRaw:
		base = &rawW{&mkSink().Sink}
	case wIOFlush:
		k := mkSink()
		if s.Draw(2) == 1 {
			k.FailAt = -1
			k.FlushErr = errBroken
		}
		base = thrift.NewTIOStreamTransportRW(flushRW{&vwork.Chunks{S: s}, k})
	case wSock, wNBSock:
		p := e.Plan()
		to := int64(0)
		if fail >= 0 {
			k := []int{vnet.FWriteErr, vnet.FRst, vnet.FCut}[s.Draw(3)]
			p.C2S.Fault = vnet.Fault{Kind: k, Off: fail}
		}
		noread := false
		if s.Draw(6) == 5 {
			// the peer stops reading: the window fills and the write times out
			p.C2S.Fault = vnet.Fault{}
			p.C2S.Cap = max(1, fail)
			noread = true
			to = ms * int64(50+s.Draw(500))
		}
		cc, sc := e.N.Pair(p)
		e.Desc("conn %s timeout=%v peer-reads=%v", planStr(p), time.Duration(to), !noread)
		if kind == wSock {
			t, _ := thrift.NewTSocketConnTimeout(cc, to)
			base = t
		} else {
			var c net.Conn = cc
			if s.Draw(4) == 3 {
				c = &bufConn{cc, bufio.NewWriterSize(cc, 16+s.Draw(5000))}
				e.Desc("the connection has a buffer and a Flush of its own")
			}
			t, _ := thrift.NewTNonblockingSocketConn(c)
			t.SetTimeout(to)
			base = t
		}
		lostConn = cc
		wire = cc.Out
		fault = func() bool { return cc.WriteErr || cc.Lost() }
		if !noread {
			s.Go("peer", func() {
				b := make([]byte, 4096)
				for {
					if _, err := sc.Read(b); err != nil {
						return
					}
				}
			})
		}
		defer cc.Close()
		_ = sc
	case wHTTP:
		isHTTP = true
		h := vwork.InstallHTTP(s)
		bad := -1
		if fail >= 0 {
			bad = s.Draw(n)
		}
		how := s.Draw(6)
		h.Serve = func(x *vwork.Exchange) {
			if x.N != bad {
				httpBodies = append(httpBodies, x.Req)
				x.Resp = []byte("ok")
				return
			}
			if how == 0 {
				s.Fault("http-no-response")
				x.Err = errBroken
				return
			}
			s.Fault("http-status")
			x.Status = []int{0, 201, 204, 400, 404, 500}[how]
			x.Resp = []byte("nope")
		}
		t, err := thrift.NewTHttpPostClient("http://sim.test/x")
		if err != nil {
			s.Abort("open-failed", "%v", err)
		}
		base = t
	}
	t := base
	if framed {
		t = thrift.NewTFramedTransport(base)
	}
	p := vwork.Factory(proto).GetProtocol(t)
	for i, m := range msgs {
		err := vwork.WriteMessage(p, m)
		if err == nil {
			if viaProto {
				if x := p.Flush(); x != nil {
					err = x
				}
			} else {
				err = p.Transport().Flush()
			}
		}
		if err != nil {
			if fail < 0 && (kind < wSock || kind == wHTTP) && !(kind == wIOFlush && sink.FlushErr != nil) {
				s.Abort("spurious-error", "message %d of %d on a stream that takes everything: %v", i, n, err)
			}
			s.Probe("reported")
			e.NonTrivial = true
			return
		}
		if isHTTP {
			st := 0
			if i > 0 {
				st = ends[i-1]
			}
			if len(httpBodies) != i+1 || !eq(httpBodies[i], B[st:ends[i]]) {
				s.Abort("loss-not-reported", "message %d of %d was flushed without an error, but %d requests were accepted and the last is not the message", i, n, len(httpBodies))
			}
			continue
		}
		if conn := kind == wSock || kind == wNBSock; conn {
			if lost := fault(); lost && !eq(trunc(wire(), ends[i]), B[:ends[i]]) {
				// bytes the kernel took and then lost with the connection cannot be known
				if lostConn.Lost() {
					return
				}
			}
		}
		if w := wire(); !eq(trunc(w, ends[i]), B[:ends[i]]) {
			s.Abort("loss-not-reported", "message %d of %d: every write and flush succeeded, but the stream holds %d bytes of %d and differs at byte %d", i, n, len(w), ends[i], firstDiff(w, B))
		}
		if kind == wIOFlush && sink.FlushErr != nil {
			s.Abort("loss-not-reported", "message %d of %d: the stream's flush failed, but no call reported it", i, n)
		}
		if w := wire(); len(w) > ends[i] {
			s.Abort("invented", "message %d of %d: the stream holds %d bytes, %d were written", i, n, len(w), ends[i])
		}
	}
	e.NonTrivial = true
}

// bufConn is a connection that sends only what is flushed.
type bufConn struct {
	net.Conn
	w *bufio.Writer
}

func (c *bufConn) Write(b []byte) (int, error) { return c.w.Write(b) }
func (c *bufConn) Flush() error                { return c.w.Flush() }

type flushRW struct {
	io.Reader
	*vwork.FSink
}

func trunc(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}
