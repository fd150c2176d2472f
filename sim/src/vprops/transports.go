package vprops

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"thrift"
	"time"
	"vnet"
	"vsim"
	"vwork"
)

func init() {
	reg("C06", "bytes", 10, c06Bytes)
	reg("C06", "memory", 1, c06Memory)
	reg("C06", "large", 1, large(c06Bytes))
	reg("C07", "writer", 60, c07Writer)
	reg("C07", "reader", 60, c07Reader)
	reg("C07", "large", 1, large(func(e *Env) {
		if e.S.Draw(2) == 1 {
			c07Reader(e)
		} else {
			c07Writer(e)
		}
	}))
	reg("C07", "reopen", 40, func(e *Env) { reopenMachine(e, true) })
	reg("C09", "reopen", 8, func(e *Env) { reopenMachine(e, false) })
	reg("C09", "memory", 1, c06Memory)
	reg("C09", "never-open", 1, c09NeverOpen)
	reg("C09", "http", 2, func(e *Env) { httpMachine(e, true) })
	reg("C13", "http", 10, func(e *Env) { httpMachine(e, false) })
	reg("C13", "get", 1, c13Get)
}

// typeOf is the transport exception type of an error, -1 if it has none.
func typeOf(err error) int {
	if x, ok := err.(thrift.TTransportException); ok && x != nil {
		return x.TypeId()
	}
	return -1
}

var typeNames = map[int]string{-1: "no transport exception", 0: "UNKNOWN", 1: "NOT_OPEN", 2: "ALREADY_OPEN", 3: "TIMED_OUT", 4: "END_OF_FILE"}

// payload makes bytes that identify their stream and position.
func payload(id, from, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		p := from + i
		x := uint32(p)*2654435761 + uint32(id)*40503
		b[i] = byte(x>>24) ^ byte(p)
	}
	return b
}

// scribble is what a caller does with a buffer that was accepted: use it for
// something else.
func scribble(b []byte) {
	for i := range b {
		b[i] ^= 0x5A
	}
}

func (e *Env) someSize() int {
	s := e.S
	if e.Coarse {
		switch s.Draw(5) {
		case 1:
			return s.Draw(200000)
		case 2:
			return 65536*(1+s.Draw(5)) + s.Draw(3) - 1
		case 3:
			switch s.Draw(100) {
			case 99:
				return 16384000 + s.Draw(1<<20)
			case 92, 93, 94, 95, 96, 97, 98:
				return 1<<20 + s.Draw(1<<20)
			}
			return s.Draw(1 << 20)
		}
	}
	switch s.Draw(8) {
	case 0:
		return s.Draw(4)
	case 5:
		return s.Draw(300)
	case 6:
		return s.Draw(6000)
	case 7:
		if s.Draw(4) == 3 {
			return 65530 + s.Draw(20000)
		}
		return 4090 + s.Draw(12)
	}
	return 1 + s.Draw(20)
}

// maxSize is more than someSize returns.
func (e *Env) maxSize() int {
	if e.Coarse {
		return 18000000
	}
	return 90000
}

// ends of a byte stream
type bytesPair struct {
	w, r  thrift.TTransport
	name  string
	wire  func() []byte // everything the writer has put on the wire
	close func()        // the writer's side ends
}

func (e *Env) bytesPair() *bytesPair {
	s := e.S
	bp := &bytesPair{}
	wrap := func(c *vnet.TCPConn, nb bool) thrift.TTransport {
		if nb {
			t, _ := thrift.NewTNonblockingSocketConn(c)
			return t
		}
		t, _ := thrift.NewTSocketConn(c)
		return t
	}
	switch k := s.Draw(6); k {
	case 0, 1, 2:
		p := e.Plan()
		a, b := e.N.Pair(p)
		if s.Draw(2) == 1 {
			a, b = b, a
		}
		wn, rn := s.Draw(2) == 1, s.Draw(2) == 1
		bp.w, bp.r = wrap(a, wn), wrap(b, rn)
		bp.name = fmt.Sprintf("%s -> %s %s", sockName(wn), sockName(rn), planStr(p))
		bp.wire = a.Out
		w := bp.w
		bp.close = func() {
			if err := w.Close(); err != nil {
				s.Abort("close-failed", "close: %v", err)
			}
		}
	default:
		p := &vwork.Pipe{S: s, Max: []int{0, 1, -5, -50, 7}[s.Draw(5)]}
		if e.Coarse {
			p.Max *= 10000
		}
		if s.Draw(4) == 3 {
			p.Zero = 100 + s.Draw(600)
		}
		bp.wire = func() []byte { return p.B }
		wc := vwork.PipeW{Pipe: p}
		var back vwork.Pipe
		back.S = s
		switch s.Draw(3) {
		case 0:
			bp.w = thrift.NewTIOStreamTransportW(wc)
		case 1:
			bp.w = thrift.NewTIOStreamTransportRW(struct {
				io.Reader
				io.WriteCloser
			}{&back, wc})
		case 2:
			bp.w = thrift.NewTIOStreamTransportRAndW(&back, wc)
		}
		rc := vwork.PipeR{Pipe: p}
		switch s.Draw(3) {
		case 0:
			bp.r = thrift.NewTIOStreamTransportR(rc)
		case 1:
			bp.r = thrift.NewTIOStreamTransportRW(struct {
				io.Writer
				io.ReadCloser
			}{&back, rc})
		case 2:
			bp.r = thrift.NewTIOStreamTransportRAndW(rc, &back)
		}
		bp.name = fmt.Sprintf("TIOStreamTransport -> TIOStreamTransport pieces=%d", p.Max)
		bp.r, bp.w = vwork.Again(s, bp.r), vwork.Again(s, bp.w)
		w := bp.w
		bp.close = func() { w.Close(); p.Closed = true }
	}
	return bp
}

func sockName(nb bool) string {
	if nb {
		return "TNonblockingSocket"
	}
	return "TSocket"
}

// c06Bytes: a byte stream through a pair of transports.
func c06Bytes(e *Env) {
	s := e.S
	e.Swarm(true)
	bp := e.bytesPair()
	framed := s.Draw(3) == 2
	if framed {
		bp.w, bp.r = thrift.NewTFramedTransport(bp.w), thrift.NewTFramedTransport(bp.r)
	}
	e.Desc("%s framed=%v", bp.name, framed)
	var written []byte
	flushed, got := 0, 0
	done := false
	nops := s.Range(1, 14)
	ack := s.Draw(2) == 1
	writer := func() {
		for i := 0; i < nops; i++ {
			if s.Draw(4) < 3 {
				b := payload(1, len(written), e.someSize())
				keep := append([]byte(nil), b...)
				written = append(written, b...)
				vwork.Look(bp.w)
				n, err := bp.w.Write(b)
				if err != nil || n != len(b) {
					s.Abort("write-failed", "Write(%d bytes) returned %d, %v on a healthy stream", len(b), n, err)
				}
				if !eq(b, keep) {
					s.Abort("buffer-changed", "Write changed the caller's buffer")
				}
				for j := range b {
					b[j] = 0xee // the caller may reuse its buffer
				}
			}
			if s.Draw(3) == 2 || i == nops-1 {
				if err := bp.w.Flush(); err != nil {
					s.Abort("write-failed", "Flush: %v on a healthy stream", err)
				}
				flushed = len(written)
				if ack {
					vsim.WaitFor("ack", func() bool { return got >= flushed })
				}
			}
		}
		vsim.Point()
		bp.close()
		done = true
	}
	reader := func() {
		buf := make([]byte, e.maxSize())
		idle := 0
		for {
			var n int
			var err error
			size := e.someSize()
			all := s.Draw(3) == 2
			if all && !done {
				if k := max(0, flushed-got); size > k {
					size = k
				}
			}
			b := buf[:size]
			for i := range b {
				b[i] = 0xa5
			}
			what := "Read"
			vwork.Look(bp.r)
			if all {
				what = "ReadAll"
				n, err = bp.r.ReadAll(b)
			} else {
				n, err = bp.r.Read(b)
			}
			if n < 0 || n > size {
				s.Abort("bad-count", "%s(%d) returned %d, %v", what, size, n, err)
			}
			want := payload(1, got, n)
			if got+n > len(written) || !eq(b[:n], want) {
				s.Abort("altered", "%s(%d) at offset %d returned %d bytes that were not the ones written (differ at %d, %d bytes written so far): %s", what, size, got, n, firstDiff(b[:n], want), len(written), vwork.Hex(b[:n]))
			}
			got += n
			if all && err == nil && n != size {
				s.Abort("short", "ReadAll(%d) returned %d bytes without an error", size, n)
			}
			if err != nil {
				if all && n == size && size > 0 {
					s.Abort("read-failed", "ReadAll(%d) returned all bytes and the error %v", size, err)
				}
				if !done {
					// the close may still be in progress, but everything has been sent
					vsim.WaitFor("writer-closing", func() bool { return done })
				}
				if got != len(written) {
					s.Abort("lost", "%s(%d) failed with %v after %d of %d bytes", what, size, err, got, len(written))
				}
				if typeOf(err) != thrift.END_OF_FILE && err != io.EOF {
					s.Abort("end-type", "the end of the stream was reported as %s: %v", typeNames[typeOf(err)], err)
				}
				return
			}
			if n == 0 {
				if idle++; idle > 2000 {
					s.Abort("no-progress", "%s returned nothing 2000 times", what)
				}
			} else {
				idle = 0
			}
		}
	}
	e.All("end", writer, reader)
	bp.r.Close()
	e.NonTrivial = got > 0
}

// c06Memory: a memory buffer is a queue of bytes.
func c06Memory(e *Env) {
	s := e.S
	e.Swarm(false)
	var t *thrift.TMemoryBuffer
	switch s.Draw(4) {
	case 0:
		t = thrift.NewTMemoryBuffer()
	case 1:
		t = thrift.NewTMemoryBufferLen(s.Draw(100))
	case 2:
		t = thrift.NewTMemoryBufferTransportFactory(s.Draw(100)).GetTransport(nil).(*thrift.TMemoryBuffer)
	case 3:
		t = thrift.NewTMemoryBufferTransportFactory(s.Draw(100)).GetTransport(thrift.NewTMemoryBufferLen(s.Draw(50))).(*thrift.TMemoryBuffer)
	}
	var model []byte
	pos := 0
	for i, n := 0, s.Range(5, 40); i < n; i++ {
		b := payload(3, pos, e.someSize()%5000)
		switch op := s.Draw(9); op {
		case 0, 1:
			k, err := t.Write(b)
			if k != len(b) || err != nil {
				s.Abort("write-failed", "Write(%d): %d %v", len(b), k, err)
			}
			model = append(model, b...)
			scribble(b)
			pos += len(b)
		case 2:
			k, err := t.WriteString(string(b))
			if k != len(b) || err != nil {
				s.Abort("write-failed", "WriteString(%d): %d %v", len(b), k, err)
			}
			model = append(model, b...)
			pos += len(b)
		case 3, 4:
			k, err := t.Read(b)
			if k > len(model) || !eq(b[:k], model[:k]) || (k == 0 && err == nil && len(b) > 0) || (err != nil && len(model) > 0 && len(b) > 0) {
				s.Abort("altered", "Read(%d) of %d bytes returned %d %v", len(b), len(model), k, err)
			}
			model = model[k:]
		case 5:
			k, err := t.ReadAll(b)
			if k > len(model) || !eq(b[:k], model[:k]) || (err == nil) != (len(model) >= len(b)) || (err == nil && k != len(b)) {
				s.Abort("altered", "ReadAll(%d) of %d bytes returned %d %v", len(b), len(model), k, err)
			}
			model = model[k:]
		case 6:
			c, err := t.ReadByte()
			if (err == nil) != (len(model) > 0) || (err == nil && c != model[0]) {
				s.Abort("altered", "ReadByte of %d bytes returned %v %v", len(model), c, err)
			}
			if err == nil {
				model = model[1:]
			}
		case 7:
			k, err := t.ReadFrom(&vwork.Chunks{S: s, B: b, Max: -9})
			if k != int64(len(b)) || err != nil {
				s.Abort("write-failed", "ReadFrom(%d): %d %v", len(b), k, err)
			}
			model = append(model, b...)
			pos += len(b)
		case 8:
			if s.Draw(4) == 3 {
				t.Reset()
			} else if s.Draw(2) == 1 {
				// what a closed buffer held is gone
				if err := t.Close(); err != nil {
					s.Abort("close-failed", "Close of a buffer: %v", err)
				}
				if err := t.Open(); err != nil {
					s.Abort("open-failed", "Open of a buffer: %v", err)
				}
			} else {
				var o bytes.Buffer
				if k, err := t.WriteTo(&o); err != nil || int(k) != len(model) || !eq(o.Bytes(), model) {
					s.Abort("altered", "WriteTo of %d bytes: %d %v", len(model), k, err)
				}
			}
			model = nil
		}
		if err := t.Flush(); err != nil {
			s.Abort("write-failed", "Flush: %v", err)
		}
		if t.Len() != len(model) || !eq(t.Bytes(), model) || t.String() != string(model) {
			s.Abort("altered", "the buffer holds %d bytes, %d are right", t.Len(), len(model))
		}
	}
	e.NonTrivial = true
}

func frame(b []byte) []byte {
	var h [4]byte
	binary.BigEndian.PutUint32(h[:], uint32(len(b)))
	return append(h[:], b...)
}

// c07Writer: what reaches the stream is whole frames, one per flush.
func c07Writer(e *Env) {
	s := e.S
	e.Swarm(true)
	var base thrift.TTransport
	var wire func() []byte
	var bodies [][]byte
	kind := s.Draw(6)
	fail := -1
	if s.Draw(3) == 2 {
		fail = s.Draw(60)
		if s.Draw(3) == 2 {
			fail = s.Draw(9000)
		}
	}
	var sink *vwork.FSink
	var conn *vnet.TCPConn
	name := ""
	badPost := -1
	switch kind {
	case 0, 1:
		sink = &vwork.FSink{Sink: vwork.Sink{S: s, FailAt: fail, Once: true}}
		wire = sink.B.Bytes
		if kind == 0 {
			base, name = thrift.NewTIOStreamTransportW(&sink.Sink), "TIOStreamTransport(W)"
		} else {
			base, name = thrift.NewTIOStreamTransportRW(flushRW{&vwork.Chunks{S: s}, sink}), "TIOStreamTransport(RW)"
		}
	case 2, 3:
		p := e.Plan()
		if fail >= 0 {
			p.C2S.Fault = vnet.Fault{Kind: []int{vnet.FWriteErr, vnet.FRst}[s.Draw(2)], Off: fail}
		}
		a, b := e.N.Pair(p)
		conn = a
		wire = a.Out
		if kind == 2 {
			t, _ := thrift.NewTSocketConn(a)
			base = t
		} else {
			t, _ := thrift.NewTNonblockingSocketConn(a)
			base = t
		}
		name = sockName(kind == 3) + " " + planStr(p)
		s.Go("peer", func() {
			buf := make([]byte, 5000)
			for {
				if _, err := b.Read(buf); err != nil {
					return
				}
			}
		})
		defer a.Close()
	case 4:
		m := thrift.NewTMemoryBuffer()
		base, name, wire = m, "TMemoryBuffer", m.Bytes
	case 5:
		h := vwork.InstallHTTP(s)
		if fail >= 0 {
			badPost = s.Draw(4)
		}
		h.Serve = func(x *vwork.Exchange) {
			if x.N == badPost {
				s.Fault("http-status")
				x.Status = 500
				return
			}
			bodies = append(bodies, x.Req)
		}
		t, err := thrift.NewTHttpPostClient("http://sim.test/f")
		if err != nil {
			s.Abort("open-failed", "%v", err)
		}
		base, name = t, "THttpClient"
		wire = func() []byte { return bytes.Join(bodies, nil) }
	}
	t := thrift.NewTFramedTransport(base)
	if s.Draw(3) == 2 {
		t = thrift.NewTFramedTransportFactory(thrift.NewTTransportFactory()).GetTransport(base).(*thrift.TFramedTransport)
	}
	e.Desc("framed over %s, failure at %d", name, fail)
	var want, cur []byte
	pos, flushes := 0, 0
	for i, n := 0, s.Range(2, 14); i < n; i++ {
		if s.Draw(3) < 2 {
			b := payload(2, pos, e.someSize())
			pos += len(b)
			before := len(wire())
			if k, err := t.Write(b); err != nil || k != len(b) {
				s.Abort("write-failed", "Write(%d) to a frame returned %d, %v", len(b), k, err)
			}
			cur = append(cur, b...)
			for j := range b {
				b[j] = 0xee
			}
			if len(wire()) != before {
				s.Abort("sent-early", "%d bytes were sent before the flush", len(wire())-before)
			}
			continue
		}
		err := t.Flush()
		flushes++
		f := frame(cur)
		if err != nil {
			if fail < 0 {
				s.Abort("flush-failed", "Flush of a %d byte frame on a healthy stream: %v", len(cur), err)
			}
			s.Probe("flush-failed")
			w := wire()
			if len(w) < len(want) || !eq(w[:len(want)], want) {
				s.Abort("frame-wrong", "a failed flush changed what had been sent")
			}
			e.NonTrivial = true
			if kind != 5 && kind != 1 {
				return
			}
			// the stream goes on: the failed frame must not come back
			if kind == 1 {
				want = append([]byte(nil), w...)
			}
			cur = nil
			continue
		}
		want = append(want, f...)
		if conn != nil && conn.Lost() {
			return
		}
		if kind == 5 && len(bodies) != flushes-badHit(badPost, flushes) {
			s.Abort("frame-wrong", "%d flushes made %d requests", flushes, len(bodies))
		}
		if w := wire(); !eq(w, want) {
			s.Abort("frame-wrong", "after flush %d of %d bytes the stream holds %d bytes, expected %d, different at byte %d", flushes, len(cur), len(w), len(want), firstDiff(w, want))
		}
		cur = nil
		e.NonTrivial = true
	}
}

func badHit(bad, n int) int {
	if bad >= 0 && bad < n {
		return 1
	}
	return 0
}

// c07Reader: only bytes of frames that have arrived completely are returned.
func c07Reader(e *Env) {
	s := e.S
	e.Swarm(false)
	kind := s.Draw(numCar)
	type fr struct{ start, end, from int }
	var fs []fr
	var B []byte
	pos := 0
	for i, n := 0, s.Range(1, 6); i < n; i++ {
		k := 0
		switch s.Draw(6) {
		case 0, 1, 2:
			k = 1 + s.Draw(20)
		case 3:
			k = s.Draw(2)
		case 4:
			k = e.someSize()
		}
		st := len(B)
		B = append(B, frame(payload(4, pos, k))...)
		fs = append(fs, fr{st, len(B), pos})
		pos += k
	}
	total := pos
	how := s.Draw(3) // 0 whole, 1 cut, 2 negative length
	if kind == carHTTP && how == 0 && len(fs) == 0 {
		how = 0
	}
	switch how {
	case 1:
		last := fs[len(fs)-1]
		if s.Draw(3) == 2 {
			last = fs[s.Draw(len(fs))]
		}
		cut := last.start + s.Draw(last.end-last.start)
		if s.Draw(3) == 2 {
			cut = max(last.start, last.end-1-s.Draw(3))
		}
		if cut == last.start && cut > 0 {
			how = 0
		}
		B = B[:cut]
	case 2:
		at := s.Draw(len(fs))
		B = B[:fs[at].start]
		k := uint32(1<<31) | uint32(s.Draw(1<<30))<<1
		if s.Draw(2) == 1 {
			k = 0xffffffff - uint32(s.Draw(3))
		}
		var h [4]byte
		binary.BigEndian.PutUint32(h[:], k)
		B = append(append(B, h[:]...), payload(9, 0, 40)...)
	}
	complete := 0 // payload bytes of complete frames in B
	nComplete := 0
	for i, f := range fs {
		if f.end <= len(B) && (how != 2 || f.end <= len(B)-44) {
			complete = total
			nComplete = i + 1
			if i+1 < len(fs) {
				complete = fs[i+1].from
			}
		}
	}
	if how == 2 {
		// nothing after the bad header counts
		complete = 0
		for i, f := range fs {
			if f.end <= len(B)-44 {
				complete = total
				nComplete = i + 1
				if i+1 < len(fs) {
					complete = fs[i+1].from
				}
			}
		}
	}
	end := endEOF
	if kind != carMem && s.Draw(2) == 1 {
		end = endEOFWith
		if kind == carSock || kind == carNBSock {
			end = []int{endEOF, endReset}[s.Draw(2)]
		}
	}
	if how == 1 && s.Draw(3) == 2 && kind != carMem {
		end = endErr
	}
	live := liveCar(kind) && s.Draw(2) == 1
	e.Desc("framed over %s, %d frames, %d payload bytes, how=%d, complete %d bytes in %d frames, end=%s live=%v stream of %d bytes", carNames[kind], len(fs), total, how, complete, nComplete, endNames[end], live, len(B))
	src := e.source(kind, B, false, end, 0)
	t := thrift.NewTFramedTransport(src.T)
	visible := func() int {
		v := 0
		for i, f := range fs {
			if f.end <= src.limit && i < nComplete {
				v = total
				if i+1 < len(fs) {
					v = fs[i+1].from
				}
			}
		}
		return v
	}
	if live {
		src.limit = 0
		s.Go("gate", func() {
			for src.limit < len(B) {
				vsim.Sleep(time.Duration(ms * int64(1+s.Draw(60))))
				src.limit = min(len(B), src.limit+1+s.Draw(1+len(B)/2))
			}
		})
	}
	got := 0
	idle := 0
	buf := make([]byte, e.maxSize())
	for {
		size := e.someSize()
		if s.Draw(3) == 0 {
			size = 1 + s.Draw(8)
		}
		b := buf[:size]
		n, err := t.Read(b)
		if !eq(b[:n], payload(4, got, n)) || got+n > complete {
			s.Abort("frame-wrong", "Read(%d) at payload offset %d returned %d bytes (%v); only %d bytes are in complete frames", size, got, n, err, complete)
		}
		got += n
		if got > visible() {
			s.Abort("partial-frame", "payload byte %d was returned when only %d bytes of the stream had arrived", got, src.limit)
		}
		if err != nil {
			if got != complete {
				s.Abort("lost", "Read failed with %v after %d bytes, %d are in complete frames", err, got, complete)
			}
			break
		}
		if n == 0 {
			if size == 0 {
				continue
			}
			if idle++; idle > 300 {
				s.Abort("no-progress", "Read keeps returning nothing")
			}
		} else {
			idle = 0
		}
	}
	// still nothing to be had
	for i := 0; i < 2; i++ {
		if how == 2 {
			break
		}
		if n, err := t.Read(buf[:7]); n != 0 || err == nil {
			s.Abort("invented", "after the end, Read returned %d, %v", n, err)
		}
	}
	s.Probe(fmt.Sprintf("reader-how-%d", how))
	e.NonTrivial = true
}

// reopenMachine: random open/close/read/write sequences on one transport
// object against peers that say who they are.
func reopenMachine(e *Env, framed bool) {
	s := e.S
	e.Swarm(false)
	if !framed {
		framed = s.Draw(3) == 2
	}
	nb := s.Draw(2) == 1
	addr := vwork.TheAddr
	k := &vwork.Stack{CliNB: nb, CliTimeout: []int64{0, 0, 800 * ms}[s.Draw(3)]}
	ln, err := vnet.Listen("tcp", addr.String())
	if err != nil {
		s.Abort("harness", "%v", err)
	}
	type peer struct {
		c      *vnet.TCPConn
		sent   int // bytes of the peer's stream
		wire   []byte
		cut    bool
		closed bool
		reset  bool
	}
	var peers []*peer
	e.N.PlanConn = func(a string, n int) *vnet.Plan {
		p := e.Plan()
		p.RstOnUnread = s.Draw(2) == 1
		if s.Draw(4) == 3 {
			f := vnet.Fault{Kind: []int{vnet.FRst, vnet.FWriteErr}[s.Draw(2)], Off: s.Draw(80)}
			p.C2S.Fault = f
		}
		return p
	}
	refuse, calm := false, false
	e.N.DialFault = func(string) (int, int64) {
		if refuse {
			return 1, 0
		}
		return 0, 0
	}
	// the peer of connection i sends its own bytes, in frames if framed, and
	// may stop in the middle of one
	s.Go("acceptor", func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			p := &peer{c: c.(*vnet.TCPConn)}
			id := 100 + len(peers)
			peers = append(peers, p)
			s.Go(fmt.Sprintf("peer%d", id), func() {
				s.Go("drain", func() {
					b := make([]byte, 3000)
					for {
						if _, err := p.c.Read(b); err != nil {
							return
						}
					}
				})
				if calm {
					return
				}
				for i, n := 0, s.Draw(4); i < n; i++ {
					if s.Draw(3) == 2 {
						vsim.Sleep(time.Duration(ms * int64(s.Draw(300))))
					}
					k := 1 + s.Draw(40)
					b := payload(id, p.sent, k)
					if framed {
						b = frame(b)
						if i == n-1 && s.Draw(2) == 1 {
							b = b[:s.Draw(len(b))]
							k, p.cut = 0, true
						}
					}
					p.sent += k
					if _, err := p.c.Write(b); err != nil {
						p.closed = true
						p.c.Close()
						return
					}
				}
				if calm {
					return
				}
				switch s.Draw(5) {
				case 3:
					p.closed = true
					p.c.Close()
				case 4:
					p.reset = true
					p.c.Reset(0)
					s.Fault("conn-reset")
				}
			})
		}
	})
	var base thrift.TTransport
	open := false
	var conn *vnet.TCPConn // of the open transport
	var wrote []byte       // since it was opened
	broken := false        // a write or flush has failed on it
	gotN := 0
	n := -1 // number of the current connection
	if s.Draw(4) == 3 {
		c, err := vnet.Dial("tcp", addr.String())
		if err != nil {
			s.Abort("harness", "%v", err)
		}
		base = k.SockConn(c)
		open, conn, n = true, c.(*vnet.TCPConn), 0
	} else {
		k.CliCtor = s.Draw(4)
		base = k.Sock(addr)
	}
	t := base
	if framed {
		t = thrift.NewTFramedTransport(base)
	}
	e.Desc("%s timeout=%v framed=%v from-conn=%v", sockName(nb), time.Duration(k.CliTimeout), framed, open)
	wireOK := func(i int, c *vnet.TCPConn, w []byte) {
		if broken {
			return // what follows a failed write is not specified
		}
		out := c.Out()
		if len(out) > len(w) || !eq(out, w[:len(out)]) {
			s.Abort("mixed", "connection %d carries %d bytes that were not the ones written to it after it was opened (different at byte %d of %d): %s", i, len(out), firstDiff(out, w), len(w), vwork.Hex(out))
		}
	}
	var pend []byte // framed: written since the last flush
	need := func(op string, err error, ty int) {
		if err == nil {
			s.Abort("no-error", "%s on a closed transport succeeded", op)
		}
		if typeOf(err) != ty {
			s.Abort("error-type", "%s reported %s (%v), expected %s", op, typeNames[typeOf(err)], err, typeNames[ty])
		}
	}
	pos := 0
	steps := s.Range(4, 30)
	for i := 0; i < steps; i++ {
		if t.IsOpen() != open || t.Peek() != open {
			s.Abort("open-state", "IsOpen is %v and Peek %v after step %d, expected %v", t.IsOpen(), t.Peek(), i, open)
		}
		switch op := s.Draw(8); op {
		case 0: // Open
			refuse = s.Draw(5) == 4
			before := e.N.Dials
			err := t.Open()
			wasRefused := refuse
			refuse = false
			e.Desc("Open (open=%v refuse=%v): %v", open, wasRefused, err)
			switch {
			case open:
				need("Open of an open transport", err, thrift.ALREADY_OPEN)
				if e.N.Dials != before {
					s.Abort("open-state", "Open of an open transport dialed")
				}
			case wasRefused:
				if err == nil {
					s.Abort("no-error", "Open succeeded although the connection was refused")
				}
			case err != nil:
				s.Abort("open-failed", "Open failed: %v", err)
			default:
				open, broken, gotN = true, false, 0
				wrote, pend = nil, nil
				conn = e.Conn[vsim.Cur()]
				n = len(e.N.Conns) - 1
			}
		case 1: // Close
			was := open
			err := t.Close()
			e.Desc("Close (open=%v): %v", was, err)
			if was && !conn.Closed {
				s.Abort("not-closed", "Close left the connection open")
			}
			if err != nil && !broken && (conn == nil || !conn.WasReset()) {
				s.Abort("close-failed", "Close: %v", err)
			}
			if was {
				wireOK(n, conn, wrote)
			}
			open, pend = false, nil
		case 2, 3: // Write
			b := payload(50+n, pos, 1+s.Draw(30))
			if s.Draw(5) == 4 {
				b = payload(50+n, pos, e.someSize())
			}
			pos += len(b)
			if open && !framed {
				wrote = append(wrote, b...)
			}
			w := append([]byte(nil), b...)
			_, err := t.Write(w)
			scribble(w)
			e.Desc("Write %d (open=%v): %v", len(b), open, err)
			if !open {
				if !framed {
					need("Write", err, thrift.NOT_OPEN)
				} else {
					if err != nil {
						need("Write", err, thrift.NOT_OPEN)
					}
					if s.Draw(2) == 1 {
						need("Flush", t.Flush(), thrift.NOT_OPEN)
					}
				}
				break
			}
			if framed {
				if err != nil {
					s.Abort("write-failed", "Write to an open framed transport: %v", err)
				}
				pend = append(pend, b...)
			} else if err != nil {
				if typeOf(err) == thrift.NOT_OPEN {
					s.Abort("open-state", "Write on an open transport reported NOT_OPEN")
				}
				broken = true
			}
		case 4: // Flush
			if framed && open {
				wrote = append(wrote, frame(pend)...)
				pend = nil
			}
			err := t.Flush()
			e.Desc("Flush (open=%v): %v", open, err)
			if !open {
				need("Flush", err, thrift.NOT_OPEN)
				break
			}
			if err != nil {
				if typeOf(err) == thrift.NOT_OPEN {
					s.Abort("open-state", "Flush on an open transport reported NOT_OPEN")
				}
				broken = true
			} else if !broken && !conn.Lost() {
				if w := conn.Out(); !eq(w, wrote) {
					s.Abort("lost", "after a successful Flush connection %d carries %d of %d bytes", n, len(w), len(wrote))
				}
			}
		case 5, 6: // Read
			b := make([]byte, 1+s.Draw(30))
			if !open {
				k, err := t.Read(b)
				need("Read", err, thrift.NOT_OPEN)
				if k != 0 {
					s.Abort("invented", "Read on a closed transport returned %d bytes", k)
				}
				break
			}
			if n >= len(peers) {
				vsim.Sleep(time.Duration(ms * 50))
			}
			if n >= len(peers) {
				break
			}
			p := peers[n]
			if k.CliTimeout == 0 && !p.closed && !p.reset && !conn.WasReset() && p.sent <= gotN {
				// would wait for ever
				break
			}
			kk, err := t.Read(b)
			e.Desc("Read (open): %d %v", kk, err)
			if gotN+kk > p.sent || !eq(b[:kk], payload(100+n, gotN, kk)) {
				s.Abort("mixed", "connection %d: Read at offset %d returned %d bytes that its peer did not send (it sent %d)", n, gotN, kk, p.sent)
			}
			gotN += kk
			if err != nil && typeOf(err) == thrift.NOT_OPEN {
				s.Abort("open-state", "Read on an open transport reported NOT_OPEN")
			}
			if err == nil && kk == 0 {
				s.Abort("no-progress", "Read returned nothing without an error")
			}
			if err != nil && framed {
				broken = broken || typeOf(err) != thrift.TIMED_OUT
			}
		case 7:
			vsim.Sleep(time.Duration(ms * int64(1+s.Draw(400))))
		}
	}
	if open {
		wireOK(n, conn, wrote)
	}
	t.Close()
	if t.IsOpen() {
		s.Abort("open-state", "IsOpen after Close")
	}
	// whatever happened, it can be opened again and works
	e.N.DialFault = nil
	e.N.PlanConn = nil
	calm = true
	if err := t.Open(); err != nil {
		s.Abort("open-failed", "Open after Close: %v", err)
	}
	conn = e.Conn[vsim.Cur()]
	last := payload(77, 0, 25)
	t.Write(last)
	if err := t.Flush(); err != nil {
		s.Abort("write-failed", "Flush on a fresh connection: %v", err)
	}
	if framed {
		last = frame(last)
	}
	if !eq(conn.Out(), last) {
		s.Abort("mixed", "a fresh connection carries %s, expected %s", vwork.Hex(conn.Out()), vwork.Hex(last))
	}
	t.Close()
	ln.Close()
	e.NonTrivial = len(e.N.Conns) > 1
}

var _ net.Conn

// httpMachine: random sequences of operations on an HTTP client.
func httpMachine(e *Env, closes bool) {
	s := e.S
	e.Swarm(false)
	h := vwork.InstallHTTP(s)
	how := 0
	var respLen int
	h.Serve = func(x *vwork.Exchange) {
		e.httpShape(x)
		e.httpTail(x)
		x.Resp = payload(300+x.N, 0, respLen)
		switch how {
		case 1:
			s.Fault("http-no-response")
			x.Err = errNet
		case 2:
			s.Fault("http-status")
			x.Status = []int{201, 202, 204, 206, 400, 401, 403, 404, 500, 502, 503}[s.Draw(11)]
		case 3:
			if respLen > 0 {
				x.Cut = s.Draw(respLen)
				x.CutErr = []error{io.ErrUnexpectedEOF, errBroken}[s.Draw(2)]
			}
		}
	}
	const url = "http://sim.test:8080/path?x=1"
	t, err := thrift.NewTHttpPostClient(url)
	if s.Draw(4) == 3 {
		t = thrift.NewTHttpPostClientTransportFactory(url).GetTransport(nil)
		switch s.Draw(4) {
		case 2:
			t = thrift.NewTHttpPostClientTransportFactory("http://other.test/").GetTransport(t)
		case 3:
			t = thrift.NewTHttpClientTransportFactory("http://other.test/").GetTransport(t)
		}
	}
	if err != nil || t == nil {
		s.Abort("open-failed", "NewTHttpPostClient: %v", err)
	}
	if s.Draw(2) == 1 {
		if err := t.Open(); err != nil {
			s.Abort("open-failed", "Open: %v", err)
		}
	}
	open := true
	var pend []byte
	var x *vwork.Exchange // of the current response
	rd := 0
	pos := 0
	var opens []*vwork.Exchange
	_ = opens
	steps := s.Range(4, 24)
	for i := 0; i < steps; i++ {
		if t.IsOpen() != open || t.Peek() != open {
			s.Abort("open-state", "IsOpen is %v and Peek %v, expected %v", t.IsOpen(), t.Peek(), open)
		}
		op := s.Draw(9)
		if op == 7 && !closes {
			op = 3
		}
		switch op {
		case 0, 1:
			b := payload(200, pos, e.someSize())
			n, err := t.Write(b)
			e.Desc("Write %d (open=%v): %v", len(b), open, err)
			if !open {
				if err == nil {
					s.Abort("no-error", "Write to a closed HTTP client succeeded")
				}
				if typeOf(err) != thrift.NOT_OPEN {
					s.Abort("error-type", "Write to a closed HTTP client reported %s: %v", typeNames[typeOf(err)], err)
				}
				break
			}
			if err != nil || n != len(b) {
				s.Abort("write-failed", "Write(%d): %d %v", len(b), n, err)
			}
			pend = append(pend, b...)
			for j := range b {
				b[j] = 0xee
			}
			pos += len(b)
		case 2, 3:
			how = []int{0, 0, 1, 2, 3}[s.Draw(5)]
			respLen = e.someSize()
			before := len(h.Log)
			old := x
			at := s.Now()
			err := t.Flush()
			e.noTail(at, "Flush")
			e.Desc("Flush of %d (open=%v how=%d resp=%d): %v", len(pend), open, how, respLen, err)
			if !open {
				if err == nil {
					s.Abort("no-error", "Flush of a closed HTTP client succeeded")
				}
				if typeOf(err) != thrift.NOT_OPEN {
					s.Abort("error-type", "Flush of a closed HTTP client reported %s: %v", typeNames[typeOf(err)], err)
				}
				if len(h.Log) != before {
					s.Abort("mixed", "a closed HTTP client sent a request")
				}
				break
			}
			if len(h.Log) != before+1 {
				s.Abort("request-count", "one Flush made %d requests", len(h.Log)-before)
			}
			q := h.Log[before]
			if q.Method != "POST" || q.URL != url {
				s.Abort("request-wrong", "the request is %s %s", q.Method, q.URL)
			}
			if !eq(q.Req, pend) {
				s.Abort("mixed", "the request body holds %d bytes, %d were written since the last flush (different at %d)", len(q.Req), len(pend), firstDiff(q.Req, pend))
			}
			pend, x, rd = nil, nil, 0
			if (how == 1 || how == 2) != (err != nil) {
				s.Abort("status", "a flush answered with status %d (transport error %v) returned %v", q.Status, q.Err, err)
			}
			if err == nil {
				x = q
			}
			_ = old
		case 4, 5, 6:
			b := make([]byte, 1+s.Draw(12))
			if s.Draw(3) == 2 {
				b = make([]byte, 1+e.someSize())
			}
			all := s.Draw(4) == 3
			var n int
			var err error
			if all {
				n, err = t.ReadAll(b)
			} else {
				n, err = t.Read(b)
			}
			if x == nil {
				if n != 0 || err == nil {
					s.Abort("stale", "Read without a reply returned %d bytes, %v", n, err)
				}
				if !open && typeOf(err) != thrift.NOT_OPEN {
					s.Abort("error-type", "Read from a closed HTTP client reported %s: %v", typeNames[typeOf(err)], err)
				}
				break
			}
			end := len(x.Resp)
			if x.Cut >= 0 && x.Cut < end {
				end = x.Cut
			}
			if rd+n > end || !eq(b[:n], x.Resp[rd:rd+n]) {
				s.Abort("stale", "Read at offset %d of response %d returned %d bytes that are not its body", rd, x.N, n)
			}
			rd += n
			if err == nil && n == 0 {
				s.Abort("no-progress", "Read returned nothing")
			}
			if all && err == nil && n != len(b) {
				s.Abort("short", "ReadAll returned %d of %d bytes without an error", n, len(b))
			}
			if err != nil && rd < end {
				s.Abort("lost", "Read failed with %v after %d of %d bytes of the response", err, rd, end)
			}
		case 7:
			at := s.Now()
			err := t.Close()
			e.noTail(at, "Close")
			e.Desc("Close (open=%v): %v", open, err)
			if err != nil {
				s.Abort("close-failed", "Close: %v", err)
			}
			open, pend, x = false, nil, nil
		case 8:
			err := t.Open()
			e.Desc("Open (open=%v): %v", open, err)
			if err != nil && !(open && typeOf(err) == thrift.ALREADY_OPEN) {
				s.Abort("open-failed", "Open: %v", err)
			}
			open = true
		}
		if e.Prop == "C12" {
			for _, q := range h.Log {
				if q != x && q.Body != nil && !q.Body.Closed {
					s.Abort("body-leak", "the body of response %d (status %d) is still open although it is not read from any more", q.N, q.Status)
				}
			}
		}
	}
	at := s.Now()
	t.Close()
	e.noTail(at, "Close")
	if o := h.OpenBodies(); len(o) > 0 {
		if e.Prop == "C12" {
			s.Abort("body-leak", "response bodies never closed: %s", vwork.Join(o))
		}
	}
	e.NonTrivial = len(h.Log) > 0
}

// c13Get: a client made for reading only.
func c13Get(e *Env) {
	s := e.S
	e.Swarm(false)
	h := vwork.InstallHTTP(s)
	n := e.someSize()
	const url = "http://sim.test/get"
	h.Serve = func(x *vwork.Exchange) {
		e.httpShape(x)
		x.Resp = payload(7, 0, n)
		if x.Method != "GET" || x.URL != url || len(x.Req) > 0 {
			s.Abort("request-wrong", "the request is %s %s", x.Method, x.URL)
		}
	}
	var t thrift.TTransport
	var err error
	switch s.Draw(3) {
	case 0:
		t, err = thrift.NewTHttpClient(url)
	case 1:
		t = thrift.NewTHttpClientTransportFactory(url).GetTransport(nil)
	case 2:
		// nobody is there
		h.Serve = func(x *vwork.Exchange) { x.Err = errNet }
		if t, err := thrift.NewTHttpClient(url); err == nil {
			s.Abort("no-error", "a client for an unreachable server was made: %v", t)
		}
		if t, err := thrift.NewTHttpClient("http://sim.test/%zz"); err == nil {
			s.Abort("no-error", "a client for a malformed URL was made: %v", t)
		}
		if t, err := thrift.NewTHttpPostClient("http://sim.test/%zz"); err == nil {
			s.Abort("no-error", "a client for a malformed URL was made: %v", t)
		}
		return
	}
	if err != nil || t == nil {
		s.Abort("open-failed", "%v", err)
	}
	if !t.IsOpen() {
		s.Abort("open-state", "not open")
	}
	if _, err := t.Write([]byte("x")); typeOf(err) != thrift.NOT_OPEN {
		s.Abort("error-type", "Write to a GET client: %v", err)
	}
	if err := t.Flush(); typeOf(err) != thrift.NOT_OPEN {
		s.Abort("error-type", "Flush of a GET client: %v", err)
	}
	b := make([]byte, n)
	if k, err := t.ReadAll(b); err != nil || k != n || !eq(b, payload(7, 0, n)) {
		s.Abort("lost", "ReadAll(%d) of the response: %d %v", n, k, err)
	}
	if k, err := t.Read(make([]byte, 3)); k != 0 || err == nil {
		s.Abort("invented", "Read past the end: %d %v", k, err)
	}
	t.Close()
	if len(h.Log) != 1 {
		s.Abort("request-count", "%d requests", len(h.Log))
	}
	e.NonTrivial = true
}

// oddAddr is an address nothing can be opened with.
type oddAddr struct{ net, addr string }

func (a oddAddr) Network() string { return a.net }
func (a oddAddr) String() string  { return a.addr }

// c09NeverOpen: transports that cannot be opened, or were not, report that.
func c09NeverOpen(e *Env) {
	s := e.S
	e.Swarm(false)
	type opener interface {
		Interrupt() error
	}
	var t thrift.TTransport
	openable := false
	addr := []net.Addr{nil, oddAddr{"", "127.0.0.1:9090"}, oddAddr{"tcp", ""}, vwork.TheAddr}[s.Draw(4)]
	kind := s.Draw(4)
	switch kind {
	case 0:
		t = thrift.NewTSocket(addr, ms*int64(s.Draw(50)))
	case 1:
		t, _ = thrift.NewTNonblockingSocketAddrTimeout(addr, ms*int64(s.Draw(50)))
	case 2:
		t = thrift.NewTSocketAddr(addr)
	case 3:
		t = thrift.NewTIOStreamTransportDefault()
		if s.Draw(2) == 1 {
			t = thrift.NewTIOStreamTransportFactory(nil, nil, false).GetTransport(nil)
		}
		openable = true
	}
	e.Desc("kind %d address %v", kind, addr)
	if s.Draw(3) == 2 {
		t = thrift.NewTFramedTransport(t)
	}
	for i := s.Range(1, 10); i > 0; i-- {
		if !openable && (t.IsOpen() || t.Peek()) {
			s.Abort("open-state", "a transport that was never opened is open")
		}
		switch s.Draw(6) {
		case 0:
			err := t.Open()
			if openable != (err == nil) {
				s.Abort("no-error", "Open of a transport that cannot be opened (%v) returned %v", addr, err)
			}
		case 1:
			n, err := t.Read(make([]byte, 1+s.Draw(5)))
			if n != 0 || typeOf(err) != thrift.NOT_OPEN {
				s.Abort("error-type", "Read on a transport without a connection returned %d, %s (%v)", n, typeNames[typeOf(err)], err)
			}
		case 2:
			n, err := t.ReadAll(make([]byte, 1+s.Draw(5)))
			if n != 0 || typeOf(err) != thrift.NOT_OPEN {
				s.Abort("error-type", "ReadAll on a transport without a connection returned %d, %s (%v)", n, typeNames[typeOf(err)], err)
			}
		case 3, 4:
			_, framed := t.(*thrift.TFramedTransport)
			_, err := t.Write([]byte("abc"))
			if !framed && typeOf(err) != thrift.NOT_OPEN || framed && err != nil && typeOf(err) != thrift.NOT_OPEN {
				s.Abort("error-type", "Write on a transport without a connection returned %s (%v)", typeNames[typeOf(err)], err)
			}
			if err := t.Flush(); typeOf(err) != thrift.NOT_OPEN {
				s.Abort("error-type", "Flush on a transport without a connection returned %s (%v)", typeNames[typeOf(err)], err)
			}
		case 5:
			if o, ok := t.(opener); ok && s.Draw(2) == 1 {
				o.Interrupt()
			} else if err := t.Close(); err != nil {
				s.Abort("close-failed", "Close of a transport without a connection: %v", err)
			}
		}
	}
	if len(e.N.Conns) > 0 {
		s.Abort("open-state", "a connection was made")
	}
	e.NonTrivial = true
}
