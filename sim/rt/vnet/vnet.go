// Package vnet stands in for net: a simulated TCP with segmentation, latency,
// back-pressure and failures under the control of the run.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/rt"
)

type (
	Conn       = net.Conn
	Listener   = net.Listener
	Addr       = net.Addr
	Error      = net.Error
	OpError    = net.OpError
	AddrError  = net.AddrError
	TCPAddr    = net.TCPAddr
	UnixAddr   = net.UnixAddr
	IP         = net.IP
	IPNet      = net.IPNet
	Buffers    = net.Buffers
	PacketConn = net.PacketConn

	UnknownNetworkError = net.UnknownNetworkError
	InvalidAddrError    = net.InvalidAddrError
	ParseError          = net.ParseError
	TCPConn             = SConn
	TCPListener         = SListener
	UnixConn            = SConn2
	UnixListener        = SListener
)

// SConn2 exists only so that type switches over TCP and Unix compile.
type SConn2 struct{ SConn }

var ErrClosed = net.ErrClosed

func JoinHostPort(h, p string) string                { return net.JoinHostPort(h, p) }
func SplitHostPort(s string) (string, string, error) { return net.SplitHostPort(s) }
func ParseIP(s string) IP                            { return net.ParseIP(s) }
func ResolveTCPAddr(n, a string) (*TCPAddr, error) {
	return &TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port(a)}, nil
}

type addr struct{ n, a string }

func (a addr) Network() string { return a.n }
func (a addr) String() string  { return a.a }

func port(a string) int {
	if i := strings.LastIndexByte(a, ':'); i >= 0 {
		p, _ := strconv.Atoi(a[i+1:])
		return p
	}
	return 0
}

// Net is the network of a run.
type Net struct {
	ls    map[string]*SListener
	conns []*Pair
	nport int
	// policy; zero values are the perfect network
	Lat       time.Duration // base one-way latency
	Jitter    time.Duration // per segment, never reorders a stream
	Seg       int           // max bytes per segment, 0 = unlimited
	Split     bool          // cut reads and segments at random places
	Window    int           // bytes a direction holds before the writer blocks
	DialHook  func(address string) DialFault
	AcceptErr int // number of accept errors still to inject
	s         *rt.Stream
	NoNet     bool
	Dials     []*DialRec
}

// DialRec is one dialling: To is 0 as long as it lasts.
type DialRec struct {
	From, To int64
	OK       bool
}

type DialFault struct {
	Refuse    bool
	Blackhole bool
	Delay     time.Duration
}

var cur *Net
var curW *rt.World

// N is the network of the current run.
func N() *Net {
	if curW != rt.W || cur == nil {
		curW = rt.W
		cur = &Net{ls: map[string]*SListener{}, Window: 65536, Lat: 50 * time.Microsecond, s: rt.S_("n")}
	}
	return cur
}

// Pair is an established connection; A is the dialling side.
type Pair struct {
	A, B *SConn
	net  *Net
	id   int
}

// Pairs are all connections ever established in the run.
func (n *Net) Pairs() []*Pair { return n.conns }

type seg struct {
	b   []byte
	fin bool
	rst bool
}

// half is one direction of a connection.
type half struct {
	to      *SConn
	segs    []seg // in flight, in order
	infl    int   // bytes in flight
	lastAt  int64 // arrival time of the last segment
	held    bool  // partition: segments wait
	hole    bool  // segments vanish
	pending bool  // an arrival event is scheduled
}

// SConn is one end of a connection.
type SConn struct {
	p      *Pair
	net    *Net
	peer   *SConn
	out    half // towards the peer
	loc    addr
	rem    addr
	rbuf   []byte
	eof    bool // FIN received
	rst    bool // reset received
	cr, cw bool // CloseRead, CloseWrite called
	closed bool
	rdl    int64 // deadlines, 0 = none
	wdl    int64
	rev    rt.Ev
	wev    rt.Ev
	rw     []*rt.Waiter
	ww     []*rt.Waiter
	// fault injection
	WriteErrAfter int // >0: fail the write that passes this many more bytes
	ReadErr       bool
	Accepted      bool
	// statistics for oracles
	RxBytes, TxBytes int
	ClosedAt         int64
	DeadAt           int64 // the end, a failure or the own closing became visible here
	ArrAtDead        int
	RstAt            int64
	EOFAt            int64
	Arrived          int // bytes that arrived
	LastArr          int64
	FirstArr         int64
	WFailAt          int64 // a write failed
	WBlockAt         int64 // since then a write makes no progress
	CWAt             int64 // the writing half was shut, closed or reset at this end
	MaxGap           int64 // the longest time so far without an arrival
	OpenAt           int64 // dialled
	DialAt           int64 // dialling began
	RFailAt          int64 // a read failed, other than by the end of the stream
	fdClosed         bool
	user             interface{}
}

func (c *SConn) wakeR() {
	q := c.rw
	c.rw = nil
	for _, w := range q {
		w.Wake()
	}
}
func (c *SConn) wakeW() {
	q := c.ww
	c.ww = nil
	for _, w := range q {
		w.Wake()
	}
}

func (c *SConn) err(op string, e error) error {
	return &net.OpError{Op: op, Net: c.loc.n, Source: c.loc, Addr: c.rem, Err: e}
}

var errReset = os.NewSyscallError("read", syscall.ECONNRESET)
var errPipe = os.NewSyscallError("write", syscall.EPIPE)
var errWReset = os.NewSyscallError("write", syscall.ECONNRESET)

func (c *SConn) Read(b []byte) (int, error) {
	n, err := c.read(b)
	if err != nil && err != io.EOF && c.RFailAt == 0 && rt.Live() {
		c.RFailAt = rt.Now()
		c.dead()
	}
	return n, err
}

func (c *SConn) read(b []byte) (int, error) {
	if !rt.Live() {
		return 0, io.EOF
	}
	rt.Point(70)
	for first := true; ; first = false {
		if c.fdClosed {
			return 0, c.err("read", net.ErrClosed)
		}
		// as in package internal/poll: a limit that has passed counts at the
		// beginning and when nothing can be read
		if c.rdl != 0 && c.rdl <= rt.Now() && (first || len(c.rbuf) == 0) {
			return 0, c.err("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.ReadErr {
			c.ReadErr = false
			rt.Count("fault.readerr")
			c.doReset(true)
			return 0, c.err("read", errReset)
		}
		if len(c.rbuf) > 0 {
			n := len(c.rbuf)
			if n > len(b) {
				n = len(b)
			}
			if c.net.Split && n > 1 {
				if c.net.s.Chance(1, 2) {
					k := 1 + int(c.net.s.Log(int64(n-1)))
					if k < n {
						n = k
						rt.Count("net.shortread")
					}
				}
			}
			copy(b, c.rbuf[:n])
			c.rbuf = c.rbuf[n:]
			c.RxBytes += n
			c.peer.wakeW()
			return n, nil
		}
		if c.rst {
			return 0, c.err("read", errReset)
		}
		if c.eof || c.cr {
			return 0, io.EOF
		}
		w := rt.NewWaiter()
		c.rw = append(c.rw, w)
		w.Park("conn read")
	}
}

func (c *SConn) dead() {
	if c.DeadAt == 0 {
		c.DeadAt = rt.Now()
		c.ArrAtDead = c.Arrived
	}
}

func (c *SConn) Write(b []byte) (n int, err error) {
	n, err = c.write(b)
	if err != nil && c.WFailAt == 0 && rt.Live() {
		c.WFailAt = rt.Now()
		c.dead()
	}
	return
}

func (c *SConn) write(b []byte) (n int, err error) {
	if !rt.Live() {
		return 0, io.ErrClosedPipe
	}
	rt.Point(71)
	for first := true; first || len(b) > 0; first = false {
		if c.fdClosed {
			return n, c.err("write", net.ErrClosed)
		}
		free := c.net.Window - c.out.infl - len(c.peer.rbuf)
		if c.wdl != 0 && c.wdl <= rt.Now() && (first || free <= 0) {
			return n, c.err("write", os.ErrDeadlineExceeded)
		}
		if c.rst {
			return n, c.err("write", errWReset)
		}
		if c.cw {
			return n, c.err("write", errPipe)
		}
		if len(b) == 0 {
			return
		}
		if free <= 0 {
			rt.Count("net.backpressure")
			if c.WBlockAt == 0 {
				c.WBlockAt = rt.Now()
			}
			w := rt.NewWaiter()
			c.ww = append(c.ww, w)
			w.Park("conn write")
			continue
		}
		c.WBlockAt = 0
		k := len(b)
		if k > free {
			k = free
		}
		if c.net.Seg > 0 && k > c.net.Seg {
			k = c.net.Seg
		}
		if c.net.Split && k > 1 && c.net.s.Chance(1, 3) {
			k = 1 + int(c.net.s.Log(int64(k-1)))
		}
		if c.WriteErrAfter > 0 {
			if k >= c.WriteErrAfter {
				k = c.WriteErrAfter - 1
				if k > 0 {
					c.send(seg{b: append([]byte(nil), b[:k]...)})
				}
				c.WriteErrAfter = 0
				rt.Count("fault.writeerr")
				c.doReset(true)
				return n + k, c.err("write", errWReset)
			}
			c.WriteErrAfter -= k
		}
		c.send(seg{b: append([]byte(nil), b[:k]...)})
		b = b[k:]
		n += k
		c.TxBytes += k
	}
	return
}

// send queues a segment towards the peer.
func (c *SConn) send(s seg) {
	h := &c.out
	if h.hole {
		// retransmitted forever: occupies the send buffer
		h.infl += len(s.b)
		return
	}
	h.infl += len(s.b)
	h.segs = append(h.segs, s)
	c.schedule()
}

func (c *SConn) schedule() {
	h := &c.out
	if h.pending || h.held || len(h.segs) == 0 || rt.W == nil {
		return
	}
	h.pending = true
	d := int64(c.net.Lat)
	if c.net.Jitter > 0 {
		d += c.net.s.Log(int64(c.net.Jitter))
	}
	at := rt.Now() + d
	if at < h.lastAt {
		at = h.lastAt
	}
	h.lastAt = at
	n := len(h.segs)
	rt.After(at-rt.Now(), func() { c.arrive(n) })
}

func (c *SConn) arrive(n int) {
	h := &c.out
	h.pending = false
	if h.held {
		return
	}
	for ; n > 0 && len(h.segs) > 0; n-- {
		s := h.segs[0]
		h.segs = h.segs[1:]
		h.infl -= len(s.b)
		p := c.peer
		switch {
		case s.rst:
			p.gotReset()
		case p.fdClosed:
			if len(s.b) > 0 {
				// data for a closed socket: reset comes back
				c.gotReset()
			}
		default:
			if len(s.b) > 0 && !p.rst {
				p.rbuf = append(p.rbuf, s.b...)
				p.Arrived += len(s.b)
				p.gap()
				p.LastArr = rt.Now()
				if p.FirstArr == 0 {
					p.FirstArr = p.LastArr
				}
			}
			if s.fin {
				p.eof = true
				p.dead()
				if p.EOFAt == 0 {
					p.EOFAt = rt.Now()
				}
			}
			p.wakeR()
		}
	}
	c.wakeW()
	c.schedule()
}

func (c *SConn) gotReset() {
	if c.rst {
		return
	}
	c.dead()
	c.wend()
	c.RstAt = rt.Now()
	c.rst = true // what was received before stays readable, as on Linux
	c.out.segs = nil
	c.out.infl = 0
	c.wakeR()
	c.wakeW()
}

// doReset breaks the connection at this end; the peer learns it after the
// latency, or at once.
func (c *SConn) doReset(now bool) {
	p := c.peer
	if now {
		c.gotReset()
	}
	c.out.segs = nil
	c.out.infl = 0
	c.out.hole = false
	c.send(seg{rst: true})
	_ = p
}

func (c *SConn) CloseWrite() error {
	if !rt.Live() {
		return nil
	}
	rt.Point(72)
	if c.fdClosed {
		return c.err("close", net.ErrClosed)
	}
	if c.rst {
		return c.err("close", os.NewSyscallError("shutdown", syscall.ENOTCONN))
	}
	if !c.cw {
		c.cw = true
		c.wend()
		c.wakeW()
		c.send(seg{fin: true})
	}
	return nil
}

func (c *SConn) CloseRead() error {
	if !rt.Live() {
		return nil
	}
	rt.Point(73)
	if c.fdClosed {
		return c.err("close", net.ErrClosed)
	}
	if c.rst {
		return c.err("close", os.NewSyscallError("shutdown", syscall.ENOTCONN))
	}
	c.cr = true
	c.wakeR()
	return nil
}

func (c *SConn) Close() error {
	if !rt.Live() {
		return nil
	}
	rt.Point(74)
	if c.fdClosed {
		return c.err("close", net.ErrClosed)
	}
	c.closeNow()
	return nil
}

func (c *SConn) gap() {
	t := c.LastArr
	if t == 0 {
		t = c.OpenAt
	}
	if d := rt.Now() - t; d > c.MaxGap && (c.CWAt == 0 || c.CWAt == rt.Now()) {
		c.MaxGap = d
	}
}

func (c *SConn) wend() {
	if c.CWAt == 0 {
		c.CWAt = rt.Now()
		c.gap()
	}
}

func (c *SConn) closeNow() {
	c.dead()
	c.wend()
	c.fdClosed = true
	c.ClosedAt = rt.Now()
	c.rev.Cancel()
	c.wev.Cancel()
	c.wakeR()
	c.wakeW()
	if c.rst {
		return
	}
	if len(c.rbuf) > 0 {
		// unread data: the kernel resets
		c.rbuf = nil
		c.out.segs = nil
		c.out.infl = 0
		c.send(seg{rst: true})
		return
	}
	if !c.cw {
		c.cw = true
		c.send(seg{fin: true})
	}
}

func (c *SConn) LocalAddr() net.Addr  { return c.loc }
func (c *SConn) RemoteAddr() net.Addr { return c.rem }

func toDl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	in := int64(t.Sub(peek()))
	d := rt.Now() + in
	switch {
	case in > 0 && d <= 0:
		return 1<<63 - 1
	case d <= 0:
		return 1
	}
	return d
}

// Peek is set by vtime-independent code to read the clock with both readings.
var peek = func() time.Time { return time.Time{} }

func SetPeek(f func() time.Time) { peek = f }

func (c *SConn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *SConn) SetReadDeadline(t time.Time) error {
	if !rt.Live() {
		return nil
	}
	rt.Point(75)
	if c.fdClosed {
		return c.err("set", net.ErrClosed)
	}
	c.rev.Cancel()
	c.rdl = toDl(t)
	if c.rdl != 0 {
		c.rev = rt.After(c.rdl-rt.Now(), c.wakeR)
	}
	c.wakeR()
	return nil
}

func (c *SConn) SetWriteDeadline(t time.Time) error {
	if !rt.Live() {
		return nil
	}
	rt.Point(76)
	if c.fdClosed {
		return c.err("set", net.ErrClosed)
	}
	c.wev.Cancel()
	c.wdl = toDl(t)
	if c.wdl != 0 {
		c.wev = rt.After(c.wdl-rt.Now(), c.wakeW)
	}
	c.wakeW()
	return nil
}

func (c *SConn) SetNoDelay(bool) error                  { return nil }
func (c *SConn) SetKeepAlive(bool) error                { return nil }
func (c *SConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *SConn) SetLinger(int) error                    { return nil }
func (c *SConn) SetReadBuffer(int) error                { return nil }
func (c *SConn) SetWriteBuffer(int) error               { return nil }

// ---- listening and dialling ----

type SListener struct {
	net    *Net
	a      addr
	q      []*SConn
	w      []*rt.Waiter
	closed bool
}

// key: Unix sockets have names of their own.
func key(network, a string) string {
	if strings.HasPrefix(network, "unix") {
		return "unix:" + a
	}
	return a
}

func opErr(op, network, a string, e error) error {
	return &net.OpError{Op: op, Net: network, Addr: addr{network, a}, Err: e}
}

func Listen(network, address string) (net.Listener, error) {
	if !rt.Live() {
		return nil, errors.New("no world")
	}
	rt.Point(80)
	n := N()
	switch network {
	case "tcp", "tcp4", "tcp6", "unix", "unixpacket":
	default:
		return nil, opErr("listen", network, address, net.UnknownNetworkError(network))
	}
	if strings.HasSuffix(address, ":0") {
		n.nport++
		address = strings.TrimSuffix(address, "0") + strconv.Itoa(40000+n.nport)
	}
	if n.ls[key(network, address)] != nil {
		return nil, opErr("listen", network, address, os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	l := &SListener{net: n, a: addr{network, address}}
	n.ls[key(network, address)] = l
	return l, nil
}

func (l *SListener) Addr() net.Addr { return l.a }

func (l *SListener) Accept() (net.Conn, error) {
	if !rt.Live() {
		return nil, net.ErrClosed
	}
	rt.Point(81)
	for {
		if l.closed {
			return nil, opErr("accept", l.a.n, l.a.a, net.ErrClosed)
		}
		if l.net.AcceptErr > 0 {
			l.net.AcceptErr--
			rt.Count("fault.accepterr")
			return nil, opErr("accept", l.a.n, l.a.a, os.NewSyscallError("accept", syscall.EMFILE))
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			c.Accepted = true
			return c, nil
		}
		w := rt.NewWaiter()
		l.w = append(l.w, w)
		w.Park("accept")
	}
}

func (l *SListener) Close() error {
	if !rt.Live() {
		return nil
	}
	rt.Point(82)
	if l.closed {
		return opErr("close", l.a.n, l.a.a, net.ErrClosed)
	}
	l.closed = true
	if l.net.ls[key(l.a.n, l.a.a)] == l {
		delete(l.net.ls, key(l.a.n, l.a.a))
	}
	for _, c := range l.q {
		c.doReset(true)
		c.fdClosed = true
	}
	l.q = nil
	for _, w := range l.w {
		w.Wake()
	}
	l.w = nil
	return nil
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
}

func Dial(network, address string) (net.Conn, error) {
	return (&Dialer{}).Dial(network, address)
}

func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: d}).Dial(network, address)
}

// DialContext bounds the dial by the context's deadline; a cancellation while
// it dials is seen at its end.
func (d *Dialer) DialContext(cx interface {
	Deadline() (time.Time, bool)
	Err() error
}, network, address string) (net.Conn, error) {
	if err := cx.Err(); err != nil {
		return nil, opErr("dial", network, address, err)
	}
	d2 := *d
	if at, ok := cx.Deadline(); ok && (d2.Deadline.IsZero() || at.Before(d2.Deadline)) {
		d2.Deadline = at
	}
	c, err := d2.Dial(network, address)
	if e := cx.Err(); e != nil && err == nil {
		c.Close()
		return nil, opErr("dial", network, address, e)
	}
	return c, err
}

func ListenTCP(network string, a *TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*SListener), nil
}

func DialTCP(network string, l, r *TCPAddr) (*TCPConn, error) {
	c, err := Dial(network, r.String())
	if err != nil {
		return nil, err
	}
	return c.(*SConn), nil
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	if !rt.Live() {
		return nil, errors.New("no world")
	}
	rt.Point(83)
	n := N()
	t0 := rt.Now()
	rec := &DialRec{From: t0}
	n.Dials = append(n.Dials, rec)
	defer func() { rec.To = rt.Now() }()
	switch network {
	case "tcp", "tcp4", "tcp6", "unix":
	default:
		return nil, opErr("dial", network, address, net.UnknownNetworkError(network))
	}
	limit := int64(127 * time.Second) // the kernel's own
	if d.Timeout > 0 {
		limit = int64(d.Timeout)
	} else if d.Timeout < 0 {
		limit = 0
	}
	if !d.Deadline.IsZero() {
		if x := toDl(d.Deadline) - rt.Now(); x < limit {
			limit = x
		}
	}
	var f DialFault
	if n.DialHook != nil {
		f = n.DialHook(address)
	}
	rtt := int64(2*n.Lat) + int64(f.Delay)
	if f.Blackhole || rtt >= limit {
		rt.Count("fault.dialtimeout")
		rt.SleepNs(limit)
		return nil, opErr("dial", network, address, timeoutErr{})
	}
	rt.SleepNs(rtt)
	l := n.ls[key(network, address)]
	if f.Refuse || l == nil || l.closed {
		rt.Count("fault.dialrefused")
		return nil, opErr("dial", network, address, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	rec.OK = true
	n.nport++
	p := &Pair{net: n, id: len(n.conns)}
	la := addr{network, fmt.Sprintf("127.0.0.1:%d", 50000+n.nport)}
	p.A = &SConn{p: p, net: n, loc: la, rem: addr{network, address}}
	p.B = &SConn{p: p, net: n, loc: addr{network, address}, rem: la}
	p.A.peer, p.B.peer = p.B, p.A
	p.A.OpenAt, p.B.OpenAt = rt.Now(), rt.Now()
	p.A.DialAt = t0
	n.conns = append(n.conns, p)
	l.q = append(l.q, p.B)
	for _, w := range l.w {
		w.Wake()
	}
	l.w = nil
	return p.A, nil
}

// ---- fault injection by scenarios ----

// Reset breaks the connection with RST at both ends at once.
func (p *Pair) Reset() {
	rt.Count("fault.reset")
	p.A.gotReset()
	p.B.gotReset()
}

// ResetA injects an RST that only A sees now; B sees it after the latency.
func (p *Pair) ResetA() { rt.Count("fault.reset"); p.A.doReset(true) }

// Die makes the network between the two ends a black hole for good.
func (p *Pair) Die() {
	rt.Count("fault.blackhole")
	for _, c := range []*SConn{p.A, p.B} {
		c.out.hole = true
		c.out.segs = nil
	}
}

// Hold stops delivery in both directions until Heal (a partition; TCP
// retransmits, so nothing is lost).
func (p *Pair) Hold() {
	rt.Count("fault.partition")
	p.A.out.held = true
	p.B.out.held = true
}

func (p *Pair) Heal() {
	for _, c := range []*SConn{p.A, p.B} {
		if c.out.held {
			c.out.held = false
			c.schedule()
		}
	}
}

// HoldTo stops delivery towards one side only.
func (p *Pair) HoldTo(c *SConn) {
	rt.Count("fault.halfpartition")
	c.peer.out.held = true
}

// Closed tells whether both sides are finished with the connection.
func (p *Pair) Closed() bool { return p.A.done() && p.B.done() }

// done: this end can neither read nor write any more.
func (c *SConn) done() bool { return c.fdClosed || c.rst || (c.cw && (c.eof || c.cr)) }

func (c *SConn) Done() bool        { return c.done() }
func (c *SConn) Broken() bool      { return c.rst || c.fdClosed }
func (c *SConn) WriteClosed() bool { return c.cw || c.fdClosed || c.rst }
func (c *SConn) SawEOF() bool      { return c.eof || c.rst }
func (c *SConn) FDClosed() bool    { return c.fdClosed }
func (c *SConn) Peer() *SConn      { return c.peer }
func (c *SConn) Pair() *Pair       { return c.p }
func (c *SConn) Unread() int       { return len(c.rbuf) }
func (c *SConn) InFlight() int     { return c.out.infl }

func (l *SListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*SConn), nil
}
