package vnet

import (
	"context"
	"errors"
	"io"
	"net"
	"net/netip"
	"os"
	"syscall"
	"time"
	"vsim"
)

// Fault kinds of one direction of a connection.
const (
	FNone     = iota
	FRst      // connection reset once Off bytes have been accepted
	FCut      // clean close by the network side once Off bytes have been accepted
	FStall    // bytes after Off are delivered only after Dur (forever if Dur<0)
	FWriteErr // write fails once at Off bytes, stream continues afterwards (a hole)
	FFlip     // flip bit Dur%8 of byte Off
)

var faultNames = []string{"none", "conn-reset", "conn-cut", "stall", "write-error", "bit-flip"}

type Fault struct {
	Kind int
	Off  int
	Dur  int64
	hit  bool
}

// Dir configures one direction of a connection.
type Dir struct {
	Seg     int   // 0 whole writes, k>0 pieces of k bytes, -k random pieces of 1..k bytes
	Latency int64 // before the first piece
	Gap     int64 // between pieces (0 none), random up to Gap
	Cap     int   // send window in bytes (0 = 64 KiB)
	MaxRead int   // at most this many bytes per Read (0 = unlimited)
	Fault   Fault
}

// Plan configures a connection. C2S is client to server.
type Plan struct {
	C2S, S2C    Dir
	RstOnUnread bool // closing with unread data resets the connection
}

// Net is the network of one run.
type Net struct {
	S         *vsim.Sim
	listeners map[string]*TCPListener
	Conns     []*TCPConn // all client-side endpoints
	ListenAll []*TCPListener
	// PlanConn is asked for every new connection.
	PlanConn func(addr string, n int) *Plan
	// OnConnect is told of every new connection, in the dialing task.
	OnConnect func(c *TCPConn)
	// DialFault is asked for every dial: 0 connect, 1 refuse, 2 blackhole, and
	// the connect latency.
	DialFault func(addr string) (int, int64)
	nport     int
	Dials     int
}

type netKey struct{}

// N returns the network of the current run.
func N() *Net {
	s := vsim.S
	if s == nil {
		panic("vnet: network used outside a run")
	}
	if n, ok := s.Values[netKey{}]; ok {
		return n.(*Net)
	}
	n := &Net{S: s, listeners: map[string]*TCPListener{}, nport: 40000}
	s.Values[netKey{}] = n
	return n
}

// ---- one direction of a connection ----

type seg struct {
	end int
	at  int64
}

type half struct {
	Dir
	data     []byte
	rd       int
	segs     []seg
	lastAt   int64
	first    bool
	finAt    int64 // -1 none
	dead     bool  // nothing accepted any more (cut)
	stallAt  int   // first byte offset subject to the stall, -1 none
	stallDur int64
}

func newHalf(d Dir) *half {
	if d.Cap <= 0 {
		d.Cap = 65536
	}
	return &half{Dir: d, finAt: -1, stallAt: -1}
}

const never = int64(1) << 62

func (h *half) accept(s *vsim.Sim, b []byte) {
	now := s.Now()
	pos := len(h.data)
	h.data = append(h.data, b...)
	at := now + h.Latency
	if at < h.lastAt {
		at = h.lastAt
	}
	for len(b) > 0 {
		n := len(b)
		if h.Seg > 0 && n > h.Seg {
			n = h.Seg
		} else if h.Seg < 0 {
			if k := 1 + s.Draw(-h.Seg); n > k {
				n = k
			}
		}
		if h.stallAt >= 0 && pos < h.stallAt && pos+n > h.stallAt {
			n = h.stallAt - pos
		}
		if h.stallAt >= 0 && pos == h.stallAt {
			if h.stallDur < 0 {
				at = never
			} else if at < never {
				at += h.stallDur
			}
		}
		pos += n
		b = b[n:]
		if len(h.segs) > 0 && h.segs[len(h.segs)-1].at == at && h.Seg == 0 {
			h.segs[len(h.segs)-1].end = pos
		} else {
			h.segs = append(h.segs, seg{pos, at})
		}
		h.lastAt = at
		if h.Gap > 0 && at < never && len(b) > 0 {
			at += int64(s.Draw(1000)) * h.Gap / 999
		}
	}
}

// arrived returns the readable end offset and the next arrival time (-1 none).
func (h *half) arrived(now int64) (int, int64) {
	end := h.rd
	for len(h.segs) > 0 && h.segs[0].end <= h.rd {
		h.segs = h.segs[1:]
	}
	for _, g := range h.segs {
		if g.at > now {
			if g.at >= never {
				return end, -1
			}
			return end, g.at
		}
		end = g.end
		if h.Seg != 0 {
			// pieces are delivered one per read
			if end > h.rd {
				return end, -1
			}
		}
	}
	return end, -1
}

func (h *half) fin(s *vsim.Sim) {
	if h.finAt >= 0 {
		return
	}
	at := s.Now() + h.Latency
	if h.lastAt > at {
		at = h.lastAt
	}
	h.finAt = at
}

// ---- connection endpoint ----

type TCPConn struct {
	N           *Net
	ID          int
	Client      bool
	Peer        *TCPConn
	in, out     *half
	laddr       net.Addr
	raddr       net.Addr
	Closed      bool
	Closes      int
	reset       bool
	resetAt     int64
	rdl, wdl    int64 // deadlines, 0 none
	plan        *Plan
	Accepted    bool // server side: returned by Accept
	Group       string
	WriteErr    bool // a write on this endpoint has failed
	ReadErr     error
	DeliveredOK bool
	Reads       int
	readCut     bool
	LastRd      int64 // when bytes were last read by this endpoint
	LastWr      int64 // when bytes of this endpoint were last accepted
	Born        int64
	ClosedAt    int64
}

// Out is everything accepted from this endpoint's writer, in order.
func (c *TCPConn) Out() []byte { return c.out.data }

// In is everything the peer has put on the wire towards this endpoint.
func (c *TCPConn) In() []byte { return c.in.data }

// LastIn is when the last byte sent so far towards this endpoint arrives.
func (c *TCPConn) LastIn() int64 { return c.in.lastAt }

// LastOut is when the last byte sent so far by this endpoint arrives.
func (c *TCPConn) LastOut() int64 { return c.out.lastAt }

// Consumed is how many incoming bytes have been read.
func (c *TCPConn) Consumed() int { return c.in.rd }

func FaultName(k int) string { return faultNames[k] }

func (c *TCPConn) InFault() *Fault  { return &c.in.Fault }
func (c *TCPConn) OutFault() *Fault { return &c.out.Fault }
func (f *Fault) Hit() bool          { return f.hit }
func (c *TCPConn) WasReset() bool   { return c.reset }

// Lost reports whether a write was accepted and then lost by the network.
func (c *TCPConn) Lost() bool { return c.readCut }

func dead() bool {
	t := vsim.Cur()
	return t == nil || t.Killed() || t.S.Stopping()
}

type timeoutError struct{}

func (timeoutError) Error() string     { return "i/o timeout" }
func (timeoutError) Timeout() bool     { return true }
func (timeoutError) Temporary() bool   { return true }
func (timeoutError) Is(err error) bool { return err == context.DeadlineExceeded }

func (c *TCPConn) operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.laddr, Addr: c.raddr, Err: err}
}

type readWaiter struct{ c *TCPConn }

func (w readWaiter) Ready(now int64) bool {
	c := w.c
	if c.Closed || (c.rdl != 0 && now >= c.rdl) {
		return true
	}
	end, _ := c.in.arrived(now)
	if end > c.in.rd {
		return true
	}
	if c.reset && now >= c.resetAt {
		return true
	}
	return c.in.finAt >= 0 && now >= c.in.finAt && c.in.rd == len(c.in.data)
}

func (w readWaiter) NextAt(now int64) int64 {
	c := w.c
	_, next := c.in.arrived(now)
	add := func(t int64) {
		if t > now && t < never && (next < 0 || t < next) {
			next = t
		}
	}
	if c.rdl != 0 {
		add(c.rdl)
	}
	if c.reset {
		add(c.resetAt)
	}
	if c.in.finAt >= 0 && c.in.rd == len(c.in.data) {
		add(c.in.finAt)
	}
	return next
}

func (c *TCPConn) Read(b []byte) (int, error) {
	vsim.SyncOp()
	defer vsim.SyncOp()
	s := c.N.S
	if c.Closed || dead() {
		return 0, c.operr("read", net.ErrClosed)
	}
	vsim.Point()
	c.Reads++
	if len(b) == 0 {
		return 0, nil
	}
	for {
		now := s.Now()
		if c.Closed {
			return 0, c.operr("read", net.ErrClosed)
		}
		if c.rdl != 0 && now >= c.rdl {
			s.Ev("rd-timeout", int64(c.ID), 0)
			s.Faults["deadline-hit"]++
			return 0, c.operr("read", os.ErrDeadlineExceeded)
		}
		end, _ := c.in.arrived(now)
		if n := end - c.in.rd; n > 0 {
			if n > len(b) {
				n = len(b)
			}
			if c.in.MaxRead > 0 && n > c.in.MaxRead {
				n = c.in.MaxRead
			}
			copy(b, c.in.data[c.in.rd:c.in.rd+n])
			c.in.rd += n
			c.LastRd = now
			s.Received += int64(n)
			s.Ev("rd", int64(c.ID), int64(n))
			return n, nil
		}
		if c.reset && now >= c.resetAt {
			s.Ev("rd-reset", int64(c.ID), 0)
			return 0, c.operr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if c.in.finAt >= 0 && now >= c.in.finAt && c.in.rd == len(c.in.data) {
			s.Ev("rd-eof", int64(c.ID), 0)
			return 0, io.EOF
		}
		vsim.Wait("conn-read", readWaiter{c})
	}
}

type writeWaiter struct{ c *TCPConn }

func (w writeWaiter) Ready(now int64) bool {
	c := w.c
	return c.Closed || c.reset || c.Peer.Closed || c.out.dead || (c.wdl != 0 && now >= c.wdl) ||
		len(c.out.data)-c.out.rd < c.out.Cap
}
func (w writeWaiter) NextAt(now int64) int64 {
	if w.c.wdl != 0 {
		return w.c.wdl
	}
	return -1
}

func (c *TCPConn) Reset(latency int64) {
	s := c.N.S
	for _, e := range []*TCPConn{c, c.Peer} {
		if !e.reset {
			e.reset = true
			e.resetAt = s.Now() + latency
		}
	}
}

func (c *TCPConn) Write(b []byte) (int, error) {
	vsim.SyncOp()
	defer vsim.SyncOp()
	s := c.N.S
	if c.Closed || dead() {
		return 0, c.operr("write", net.ErrClosed)
	}
	vsim.Point()
	done := 0
	fail := func(e error) (int, error) {
		c.WriteErr = true
		s.Ev("wr-err", int64(c.ID), int64(done))
		return done, c.operr("write", e)
	}
	for {
		now := s.Now()
		if c.Closed {
			return fail(net.ErrClosed)
		}
		if c.wdl != 0 && now >= c.wdl {
			s.Faults["deadline-hit"]++
			return fail(os.ErrDeadlineExceeded)
		}
		if c.reset {
			return fail(os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if c.out.dead || c.Peer.Closed {
			return fail(os.NewSyscallError("write", syscall.EPIPE))
		}
		if done == len(b) {
			return done, nil
		}
		space := c.out.Cap - (len(c.out.data) - c.out.rd)
		if space <= 0 {
			s.Probe("write-blocked")
			vsim.Wait("conn-write", writeWaiter{c})
			continue
		}
		n := len(b) - done
		if n > space {
			n = space
		}
		f := &c.out.Fault
		pos := len(c.out.data)
		chunk := b[done : done+n]
		if f.Kind != FNone && !f.hit && pos+n >= f.Off {
			k := f.Off - pos
			if k < 0 {
				k = 0
			}
			switch f.Kind {
			case FRst:
				c.out.accept(s, chunk[:k])
				done += k
				f.hit = true
				s.Fault(faultNames[f.Kind])
				c.Reset(c.out.Latency)
				return fail(os.NewSyscallError("write", syscall.ECONNRESET))
			case FCut:
				c.out.accept(s, chunk[:k])
				done += k
				f.hit = true
				s.Fault(faultNames[f.Kind])
				c.out.dead = true
				c.out.fin(s)
				// what the writer already handed over beyond the cut may look
				// accepted to it
				if s.Flip(500) {
					c.WriteErr = false
					s.Ev("wr-lost", int64(c.ID), int64(n-k))
					c.readCut = true
					return len(b), nil
				}
				return fail(os.NewSyscallError("write", syscall.EPIPE))
			case FWriteErr:
				c.out.accept(s, chunk[:k])
				done += k
				f.hit = true
				s.Fault(faultNames[f.Kind])
				return fail(os.NewSyscallError("write", syscall.ENOBUFS))
			case FStall:
				f.hit = true
				s.Fault(faultNames[f.Kind])
				c.out.stallAt = f.Off
				if c.out.stallAt < pos {
					c.out.stallAt = pos
				}
				c.out.stallDur = f.Dur
			case FFlip:
				if k < n {
					chunk = append([]byte(nil), chunk...)
					chunk[k] ^= 1 << uint(f.Dur%8)
					f.hit = true
					s.Fault(faultNames[f.Kind])
				}
			}
		}
		c.out.accept(s, chunk)
		c.LastWr = now
		s.Ev("wr", int64(c.ID), int64(n))
		done += n
		if done == len(b) {
			return done, nil
		}
	}
}

func (c *TCPConn) Close() error {
	vsim.SyncOp()
	defer vsim.SyncOp()
	c.Closes++
	if c.Closed {
		return c.operr("close", net.ErrClosed)
	}
	s := c.N.S
	c.Closed = true
	c.ClosedAt = s.Now()
	s.Ev("close", int64(c.ID), 0)
	if c.plan.RstOnUnread && c.in.rd < len(c.in.data) && !c.reset {
		c.Peer.reset = true
		c.Peer.resetAt = s.Now() + c.out.Latency
		// data in flight to the peer is lost with the reset
		s.Fault("close-resets")
	} else {
		c.out.fin(s)
	}
	if !dead() {
		vsim.Point()
	}
	return nil
}

func (c *TCPConn) LocalAddr() net.Addr  { return c.laddr }
func (c *TCPConn) RemoteAddr() net.Addr { return c.raddr }

func (c *TCPConn) abs(t time.Time) int64 { return abs(c.N.S, t) }

func abs(s *vsim.Sim, t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := s.Now() + int64(time.Until(t))
	if d <= 0 {
		d = 1
	}
	return d
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	if e := c.SetReadDeadline(t); e != nil {
		return e
	}
	return c.SetWriteDeadline(t)
}

func (c *TCPConn) SetReadDeadline(t time.Time) error {
	if c.Closed {
		return c.operr("set", net.ErrClosed)
	}
	c.rdl = c.abs(t)
	return nil
}

func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	if c.Closed {
		return c.operr("set", net.ErrClosed)
	}
	c.wdl = c.abs(t)
	return nil
}

func (c *TCPConn) SetNoDelay(bool) error                        { return nil }
func (c *TCPConn) SetKeepAlive(bool) error                      { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error       { return nil }
func (c *TCPConn) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }
func (c *TCPConn) SetLinger(int) error                          { return nil }
func (c *TCPConn) SetReadBuffer(int) error                      { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                     { return nil }
func (c *TCPConn) CloseWrite() error                            { c.out.fin(c.N.S); c.out.dead = true; return nil }
func (c *TCPConn) CloseRead() error                             { return nil }

// ---- listener ----

type TCPListener struct {
	N       *Net
	addr    net.Addr
	key     string
	Closed  bool
	backlog []*TCPConn
	Group   string
	Accepts int
	Calls   int // Accept calls
	Fails   int // Accepts that fail with a passing error

	FailTime int64 // how long such an accept takes

	dl int64
}

type acceptWaiter struct{ l *TCPListener }

func (w acceptWaiter) Ready(now int64) bool {
	return w.l.Closed || len(w.l.backlog) > 0 || w.l.dl > 0 && now >= w.l.dl
}
func (w acceptWaiter) NextAt(int64) int64 {
	if w.l.dl > 0 {
		return w.l.dl
	}
	return -1
}

func (l *TCPListener) Accept() (net.Conn, error) {
	vsim.SyncOp()
	defer vsim.SyncOp()
	if l == nil {
		return nil, syscall.EINVAL
	}
	l.Calls++
	for {
		if l.Closed || dead() {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
		}
		vsim.Point()
		if l.Closed {
			continue
		}
		if l.Fails > 0 {
			l.Fails--
			l.N.S.Fault("accept-error")
			if l.FailTime > 0 {
				vsim.Sleep(time.Duration(l.FailTime))
			}
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("accept4", syscall.EMFILE)}
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			c.Accepted = true
			c.Group = l.Group
			l.Accepts++
			l.N.S.Ev("accept", int64(c.ID), 0)
			return c, nil
		}
		if l.dl > 0 && l.N.S.Now() >= l.dl {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: timeoutError{}}
		}
		vsim.Wait("accept", acceptWaiter{l})
	}
}

func (l *TCPListener) Addr() net.Addr { return l.addr }

func (l *TCPListener) SetDeadline(t time.Time) error {
	if l.Closed {
		return &net.OpError{Op: "set", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.dl = abs(l.N.S, t)
	return nil
}

func (l *TCPListener) Close() error {
	vsim.SyncOp()
	defer vsim.SyncOp()
	if l == nil {
		return syscall.EINVAL
	}
	if l.Closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.Closed = true
	l.N.S.Ev("lclose", 0, 0)
	if l.N.listeners[l.key] == l {
		delete(l.N.listeners, l.key)
	}
	for _, c := range l.backlog {
		c.Closed = true
		c.Reset(0)
	}
	l.backlog = nil
	if !dead() {
		vsim.Point()
	}
	return nil
}

// Listener returns the listener bound to addr.
func (n *Net) Listener(addr string) *TCPListener { return n.listeners[addr] }

// Bound reports whether something listens on addr.
func (n *Net) Bound(addr string) bool { return n.listeners[addr] != nil }

func parseAddr(address string) (net.Addr, error) {
	ap, err := netip.ParseAddrPort(address)
	if err != nil {
		host, port, e := net.SplitHostPort(address)
		if e != nil {
			return nil, e
		}
		if host == "" || host == "localhost" {
			host = "127.0.0.1"
		}
		ap, err = netip.ParseAddrPort(host + ":" + port)
		if err != nil {
			return nil, &net.DNSError{Err: "no such host", Name: host}
		}
	}
	return net.TCPAddrFromAddrPort(ap), nil
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	a, err := parseAddr(address)
	if err != nil {
		return nil, err
	}
	return a.(*net.TCPAddr), nil
}

func Listen(network, address string) (net.Listener, error) {
	n := N()
	if dead() {
		return nil, &net.OpError{Op: "listen", Net: network, Err: syscall.EINVAL}
	}
	vsim.Point()
	a, err := parseAddr(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	ta := a.(*net.TCPAddr)
	if ta.Port == 0 {
		n.nport++
		ta.Port = n.nport
	}
	key := a.String()
	if n.listeners[key] != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: a, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &TCPListener{N: n, addr: a, key: key}
	if t := vsim.Cur(); t != nil {
		l.Group = t.Group
	}
	n.listeners[key] = l
	n.ListenAll = append(n.ListenAll, l)
	n.S.Ev("listen", int64(ta.Port), 0)
	return l, nil
}

func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

// ---- dial ----

func Dial(network, address string) (net.Conn, error) { return dial(network, address, 0) }

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	if d < 0 {
		return nil, &net.OpError{Op: "dial", Net: network, Err: timeoutError{}}
	}
	return dial(network, address, int64(d))
}

func DialTCP(network string, l, r *net.TCPAddr) (*TCPConn, error) {
	c, err := dial(network, r.String(), 0)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Cancel          <-chan struct{}
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	t := int64(0)
	min := func(x int64) {
		if x <= 0 {
			x = 1
		}
		if t == 0 || x < t {
			t = x
		}
	}
	if d.Timeout != 0 {
		min(int64(d.Timeout))
	}
	if !d.Deadline.IsZero() {
		min(int64(time.Until(d.Deadline)))
	}
	if dl, ok := ctx.Deadline(); ok {
		min(int64(time.Until(dl)))
	}
	return dial(network, address, t)
}

type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (l *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

// SynRetry is how long an unanswered dial without timeout lasts.
const SynRetry = int64(127 * time.Second)

func dial(network, address string, timeout int64) (net.Conn, error) {
	n := N()
	s := n.S
	if dead() {
		return nil, &net.OpError{Op: "dial", Net: network, Err: net.ErrClosed}
	}
	vsim.Point()
	switch network {
	case "tcp", "tcp4", "tcp6":
	default:
		return nil, &net.OpError{Op: "dial", Net: network, Err: net.UnknownNetworkError(network)}
	}
	a, err := parseAddr(address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	n.Dials++
	kind, lat := 0, int64(0)
	if n.DialFault != nil {
		kind, lat = n.DialFault(a.String())
	}
	refused := &net.OpError{Op: "dial", Net: network, Addr: a, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	if kind == 2 {
		s.Fault("dial-blackhole")
		lat = SynRetry
	}
	if lat > 0 {
		if timeout > 0 && lat >= timeout {
			vsim.Sleep(time.Duration(timeout))
			s.Faults["dial-timeout"]++
			return nil, &net.OpError{Op: "dial", Net: network, Addr: a, Err: timeoutError{}}
		}
		vsim.Sleep(time.Duration(lat))
	}
	if kind == 2 {
		return nil, &net.OpError{Op: "dial", Net: network, Addr: a, Err: os.NewSyscallError("connect", syscall.ETIMEDOUT)}
	}
	if kind == 1 {
		s.Fault("dial-refused")
		return nil, refused
	}
	l := n.listeners[a.String()]
	if l == nil {
		s.Probe("dial-no-listener")
		return nil, refused
	}
	c := n.connect(l)
	if t := vsim.Cur(); t != nil {
		c.Group = t.Group
	}
	return c, nil
}

func (n *Net) connect(l *TCPListener) *TCPConn {
	id := len(n.Conns)
	var p *Plan
	if n.PlanConn != nil {
		p = n.PlanConn(l.addr.String(), id)
	}
	if p == nil {
		p = &Plan{}
	}
	c, sv := n.pair(id, p, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000 + id}, l.addr)
	l.backlog = append(l.backlog, sv)
	if n.OnConnect != nil {
		n.OnConnect(c)
	}
	return c
}

func (n *Net) pair(id int, p *Plan, ca, sa net.Addr) (*TCPConn, *TCPConn) {
	up, down := newHalf(p.C2S), newHalf(p.S2C)
	c := &TCPConn{N: n, ID: 2 * id, Client: true, in: down, out: up, laddr: ca, raddr: sa, plan: p, Born: n.S.Now()}
	sv := &TCPConn{N: n, ID: 2*id + 1, in: up, out: down, laddr: sa, raddr: ca, plan: p, Born: n.S.Now()}
	c.Peer, sv.Peer = sv, c
	n.Conns = append(n.Conns, c)
	n.S.Ev("connect", int64(id), 0)
	return c, sv
}

// Pair makes a connected pair without a listener.
func (n *Net) Pair(p *Plan) (client, server *TCPConn) {
	if p == nil {
		p = &Plan{}
	}
	id := len(n.Conns)
	c, s := n.pair(id, p, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000 + id}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000})
	s.Accepted = true
	return c, s
}

// CrashNode drops everything a node has open: its connections are reset and
// its listeners vanish.
func (n *Net) CrashNode(group string) {
	for _, l := range n.ListenAll {
		if l.Group == group && !l.Closed {
			l.Closed = true
			if n.listeners[l.key] == l {
				delete(n.listeners, l.key)
			}
			for _, c := range l.backlog {
				c.Closed = true
				c.Reset(0)
			}
			l.backlog = nil
		}
	}
	for _, c := range n.Conns {
		for _, e := range []*TCPConn{c, c.Peer} {
			if e.Group == group && !e.Closed {
				e.Closed = true
				e.Reset(e.out.Latency)
			}
		}
	}
}

// OpenEndpoints lists the endpoints that are still open.
func (n *Net) OpenEndpoints(f func(*TCPConn) bool) (out []*TCPConn) {
	for _, c := range n.Conns {
		for _, e := range []*TCPConn{c, c.Peer} {
			if !e.Closed && f(e) {
				out = append(out, e)
			}
		}
	}
	return
}

var errUnused = errors.New("unused")
