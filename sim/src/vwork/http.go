package vwork

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"
	"vsim"
)

func timeDur(n int64) time.Duration { return time.Duration(n) }

// HTTPSim replaces http.DefaultTransport: the network and the server behind
// the real net/http client.
type HTTPSim struct {
	S   *vsim.Sim
	Log []*Exchange
	// Serve decides the reply.
	Serve func(x *Exchange)
}

// Exchange is one request with its simulated reply.
type Exchange struct {
	N        int
	Method   string
	URL      string
	CType    string
	Req      []byte
	Err      error // no response at all
	Delay    int64
	Status   int
	Resp     []byte
	Cut      int // body fails after this many bytes, -1 never
	CutErr   error
	Chunk    int   // bytes per read, 0 = as many as fit
	Gap      int64 // delay between chunks
	EOFWith  bool  // last bytes come together with io.EOF
	ReadReq  int   // bytes of the request read before failing, -1 all
	Body     *SimBody
	ErrIsOut bool  // the error was injected
	Length   bool  // the reply announces its length
	Tail     int64 // the body stays open so long after its last byte

	ctx context.Context
}

type SimBody struct {
	X      *Exchange
	S      *vsim.Sim
	Pos    int
	Closed bool
	Done   bool // EOF or error delivered
	nextAt int64
	slow   int
}

var errBodyClosed = errors.New("http: read on closed response body")

func (b *SimBody) Read(p []byte) (int, error) {
	vsim.Point()
	if b.Closed {
		return 0, errBodyClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	x := b.X
	end := len(x.Resp)
	cut := false
	if x.Cut >= 0 && x.Cut < end {
		end, cut = x.Cut, true
	}
	fin := func() error {
		b.Done = true
		if cut {
			b.S.Fault("http-body-cut")
			return x.CutErr
		}
		return io.EOF
	}
	if b.Pos >= end {
		if x.Tail > 0 && !cut {
			at := b.S.Now() + x.Tail
			x.Tail = 0
			if err := x.wait(at - b.S.Now()); err != nil {
				return 0, err
			}
			if b.Closed {
				return 0, errBodyClosed
			}
		}
		return 0, fin()
	}
	if x.Gap > 0 {
		if now := b.S.Now(); b.nextAt > now {
			if err := x.wait(b.nextAt - now); err != nil {
				return 0, err
			}
			if b.slow++; x.Gap > int64(time.Second) && b.slow == 4 {
				x.Gap = 0 // enough of that
			}
		}
		if b.Closed {
			return 0, errBodyClosed
		}
		b.nextAt = b.S.Now() + 1 + int64(b.S.Draw(1000))*x.Gap/1000
	}
	n := end - b.Pos
	if n > len(p) {
		n = len(p)
	}
	if x.Chunk > 0 && n > x.Chunk {
		n = x.Chunk
	} else if x.Chunk < 0 {
		if k := 1 + b.S.Draw(-x.Chunk); n > k {
			n = k
		}
	}
	copy(p, x.Resp[b.Pos:b.Pos+n])
	b.Pos += n
	b.S.Received += int64(n)
	b.S.Ev("http-rd", int64(x.N), int64(n))
	if b.Pos == end && x.EOFWith && (x.Tail == 0 || cut) {
		return n, fin()
	}
	return n, nil
}

func (b *SimBody) Close() error {
	if !b.Closed {
		b.Closed = true
		b.S.Ev("http-close", int64(b.X.N), 0)
	}
	return nil
}

func (h *HTTPSim) RoundTrip(req *http.Request) (*http.Response, error) {
	s := h.S
	vsim.Point()
	x := &Exchange{ctx: req.Context(), N: len(h.Log), Method: req.Method, URL: req.URL.String(), CType: req.Header.Get("Content-Type"), Cut: -1, Status: 200, ReadReq: -1}
	h.Log = append(h.Log, x)
	if req.Body != nil {
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		x.Req = b
	}
	s.Ev("http-req", int64(x.N), int64(len(x.Req)))
	if h.Serve != nil {
		h.Serve(x)
	}
	if x.Delay > 0 {
		if err := x.wait(x.Delay); err != nil {
			return nil, err
		}
	}
	if x.Err != nil {
		return nil, x.Err
	}
	body := &SimBody{X: x, S: s}
	x.Body = body
	length := int64(-1)
	if x.Length {
		length = int64(len(x.Resp))
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", x.Status, http.StatusText(x.Status)), StatusCode: x.Status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/x-thrift"}},
		Body: body, ContentLength: length, Request: req,
	}, nil
}

// wait lets time pass, but not beyond a deadline the client has set.
func (x *Exchange) wait(d int64) error {
	if at, ok := x.ctx.Deadline(); ok && time.Until(at) < timeDur(d) {
		vsim.Sleep(time.Until(at))
		return context.DeadlineExceeded
	}
	vsim.Sleep(timeDur(d))
	return nil
}

// InstallHTTP puts the simulated transport in place for this run.
func InstallHTTP(s *vsim.Sim) *HTTPSim {
	h := &HTTPSim{S: s}
	http.DefaultTransport = h
	http.DefaultClient = &http.Client{}
	return h
}

// OpenBodies lists response bodies that were never closed.
func (h *HTTPSim) OpenBodies() (out []string) {
	for _, x := range h.Log {
		if x.Body != nil && !x.Body.Closed {
			out = append(out, fmt.Sprintf("#%d %s status %d", x.N, x.Method, x.Status))
		}
	}
	return
}

// ---- raw byte streams ----

// Chunks is an io.Reader over fixed bytes, delivered in seeded pieces.
type Chunks struct {
	S       *vsim.Sim
	B       []byte
	Pos     int
	Max     int   // k>0 pieces of k, k<0 random pieces up to -k, 0 all
	Gap     int64 // pause before each piece
	Zero    int   // permille of reads that return 0,nil
	EOFWith bool  // the last bytes come with the error
	Err     error // at the end of B (nil: io.EOF)
	Limit   func() int
	Ended   bool // the error has been delivered
	After   int  // reads after the error
	zeros   int

	// a single failure after Hick bytes (0: none), after which the stream goes on
	Hick     int
	HickErr  error
	HickWith bool // it comes with the bytes before it
	Hicked   bool
}

func (c *Chunks) Read(p []byte) (int, error) {
	vsim.Point()
	if len(p) == 0 {
		return 0, nil
	}
	e := c.Err
	if e == nil {
		e = io.EOF
	}
	if c.Pos >= len(c.B) {
		if c.Ended {
			c.After++
		}
		c.Ended = true
		return 0, e
	}
	if c.Zero > 0 && c.zeros < 3 && c.S.Flip(c.Zero) {
		c.zeros++
		c.S.Fault("zero-read")
		return 0, nil
	}
	c.zeros = 0
	if c.Gap > 0 {
		vsim.Sleep(timeDur(1 + int64(c.S.Draw(1000))*c.Gap/1000))
	}
	n := len(c.B) - c.Pos
	if c.Hick > 0 && !c.Hicked {
		if c.Pos == c.Hick {
			c.Hicked = true
			c.S.Fault("read-fails-once")
			return 0, c.HickErr
		}
		n = c.Hick - c.Pos
	}
	if c.Limit != nil {
		// bytes beyond the limit have not arrived yet
		for c.Limit() <= c.Pos {
			vsim.WaitFor("stream-read", func() bool { return c.Limit() > c.Pos })
		}
		if k := c.Limit() - c.Pos; n > k {
			n = k
		}
	}
	if c.Max > 0 && n > c.Max {
		n = c.Max
	} else if c.Max < 0 {
		if k := 1 + c.S.Draw(-c.Max); n > k {
			n = k
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.B[c.Pos:c.Pos+n])
	c.Pos += n
	c.S.Received += int64(n)
	if c.Pos == c.Hick && c.HickWith && !c.Hicked {
		c.Hicked = true
		c.S.Fault("read-fails-once")
		return n, c.HickErr
	}
	if c.Pos == len(c.B) && c.EOFWith {
		c.Ended = true
		return n, e
	}
	return n, nil
}

// Sink is an io.Writer that fails at a byte position.
type Sink struct {
	S        *vsim.Sim
	B        bytes.Buffer
	FailAt   int // -1 never
	Once     bool
	Err      error
	Failed   int
	Flushes  int
	FlushErr error
	Closed   bool
	Marks    []int // B.Len() at every flush
}

func (k *Sink) Write(p []byte) (int, error) {
	vsim.Point()
	if k.FailAt >= 0 && k.B.Len()+len(p) > k.FailAt && !(k.Once && k.Failed > 0) {
		n := k.FailAt - k.B.Len()
		if n < 0 {
			n = 0
		}
		k.B.Write(p[:n])
		k.Failed++
		k.S.Ev("sink-fail", int64(n), int64(len(p)))
		k.S.Fault("write-error")
		e := k.Err
		if e == nil {
			e = errors.New("no space left on device")
		}
		return n, e
	}
	k.S.Ev("sink", int64(k.B.Len()), int64(len(p)))
	return k.B.Write(p)
}

// FSink is a Sink with its own Flush.
type FSink struct{ Sink }

func (k *FSink) Flush() error {
	vsim.Point()
	k.Flushes++
	k.S.Ev("sink-flush", int64(k.B.Len()), 0)
	k.Marks = append(k.Marks, k.B.Len())
	if k.FlushErr != nil {
		k.S.Fault("flush-error")
		k.Failed++
		return k.FlushErr
	}
	return nil
}

// Hex renders bytes for messages.
func Hex(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("%q", b)
}

func Join(a []string) string { return strings.Join(a, ", ") }

// Pipe is an in-memory byte stream between two tasks.
type Pipe struct {
	S      *vsim.Sim
	B      []byte
	Pos    int
	Max    int
	Zero   int  // permille of reads that return 0,nil
	Closed bool // by the writer
	RClose bool // by the reader
	zeros  int
}

func (p *Pipe) Write(b []byte) (int, error) {
	vsim.Point()
	if p.Closed || p.RClose {
		return 0, io.ErrClosedPipe
	}
	p.B = append(p.B, b...)
	p.S.Ev("pipe-wr", 0, int64(len(b)))
	return len(b), nil
}

func (p *Pipe) Read(b []byte) (int, error) {
	vsim.Point()
	if len(b) == 0 {
		return 0, nil
	}
	vsim.WaitFor("pipe", func() bool { return p.Pos < len(p.B) || p.Closed || p.RClose })
	if p.RClose {
		return 0, io.ErrClosedPipe
	}
	n := len(p.B) - p.Pos
	if n == 0 {
		return 0, io.EOF
	}
	if p.Max > 0 && n > p.Max {
		n = p.Max
	} else if p.Max < 0 {
		if k := 1 + p.S.Draw(-p.Max); n > k {
			n = k
		}
	}
	if p.Zero > 0 && p.zeros < 3 && p.S.Flip(p.Zero) {
		p.zeros++
		p.S.Fault("zero-read")
		return 0, nil
	}
	p.zeros = 0
	n = copy(b, p.B[p.Pos:p.Pos+n])
	p.Pos += n
	p.S.Received += int64(n)
	p.S.Ev("pipe-rd", 0, int64(n))
	return n, nil
}

// PipeR and PipeW are the ends of a pipe.
type PipeR struct{ *Pipe }

func (p PipeR) Close() error                { p.RClose = true; return nil }
func (p PipeR) Write(b []byte) (int, error) { return 0, io.ErrClosedPipe }

type PipeW struct{ *Pipe }

func (p PipeW) Close() error { p.Closed = true; return nil }
