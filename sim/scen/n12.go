package scen

import (
	"bytes"
	"net"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// Limits of both sides, N12.

var _ = register(&Scenario{Name: "limits-client", Props: []string{"N12"}, Weight: 3, Real: realClient, Stub: stubNet + "; " + stubPeer, Run: func(e *Env) { limitsClient(e, false) }})
var _ = register(&Scenario{Name: "limits-client-idle", Props: []string{"N12"}, Weight: 1, Real: realClient, Stub: stubNet + "; " + stubPeer, Run: func(e *Env) { limitsClient(e, true) }})
var _ = register(&Scenario{Name: "limits-server", Props: []string{"N12"}, Weight: 3, Real: realServer, Stub: stubNet + "; " + stubClient, Run: limitsServer})

type lworld struct {
	e          *Env
	n          *vnet.Net
	b          *book
	rc         nt.RCType
	r, w, d, p int64 // limits
	conns      []*lconn
	byMsg      map[uint32]*lreq
	reqs       []*lreq
	ps         *rt.Stream
	calm       bool
	idle       bool
	stopped    bool
	dialF      vnet.DialFault
	hsBad      bool
}

type lreq struct {
	*treq
	q    *lconn
	fat  int64
	inAt int64 // Send returned
}

type lconn struct {
	w       *lworld
	n       int
	c       *vnet.SConn
	m       sync.Mutex
	off     int
	sickAt  int64
	sick    int
	pongEnd int
	silent  bool
}

func (q *lconn) a() *vnet.SConn { return q.c.Peer() }

// up: the client has seen the answer to its first ping.
func (q *lconn) up() bool { return q.pongEnd > 0 && q.a().Arrived >= q.pongEnd }

func (q *lconn) write(b []byte) {
	k, _ := q.c.Write(b)
	q.off += k
}

func (w *lworld) listen() {
	l, err := net.Listen("tcp", "srv:1")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			q := &lconn{w: w, n: len(w.conns), c: c.(*vnet.SConn)}
			w.conns = append(w.conns, q)
			rt.GoNamed("peer", q.serve)
			rt.GoNamed("watch", q.watch)
		}
	}()
}

func (q *lconn) fall(x int) {
	if q.sickAt > 0 {
		return
	}
	q.sick = x
	q.sickAt = rt.Now()
	q.w.e.Log("conn %d falls sick: %d", q.n, x)
	switch x {
	case 1:
		q.c.Pair().Die()
	case 2:
		rt.Count("fault.mute")
		q.silent = true
	case 3:
		rt.Count("fault.noread")
		q.silent = true
	case 4:
		rt.Count("fault.partition")
		q.c.Pair().HoldTo(q.a())
	}
}

func (q *lconn) serve() {
	w := q.w
	ps := w.ps
	first := true
	for {
		f, err := readFrame(q.c, w.rc, false)
		if err != nil {
			q.c.Close()
			return
		}
		if q.sick == 3 {
			// does not read any more
			return
		}
		if first {
			first = false
			if !w.calm && (w.hsBad || ps.Chance(1, 8)) {
				rt.Count("fault.handshake")
				b := encRes(w.rc, frame{msg: pingMsg, id: pingID})
				q.sickAt, q.sick = rt.Now(), 5
				w.e.Log("conn %d: bad handshake", q.n)
				switch ps.N(3) {
				case 0:
					continue
				case 1:
					for _, x := range b[:11] {
						sleep(int64(1+ps.N(10)) * w.d / 12)
						q.c.Write([]byte{x})
					}
					continue
				case 2:
					q.c.Write(b[:ps.N(12)])
					continue
				}
			}
		}
		if q.silent || q.sick == 5 {
			continue
		}
		if f.msg == pingMsg {
			q.m.Lock()
			q.write(encRes(w.rc, frame{msg: pingMsg, id: f.id}))
			q.m.Unlock()
			if q.pongEnd == 0 {
				q.pongEnd = q.off
				if !w.calm && !w.idle && ps.Chance(1, 2) {
					x := 1 + ps.N(4)
					d := w.e.dur(ps)
					if ps.Chance(1, 2) {
						d = ps.Log(3 * (w.r + w.w + w.p))
					}
					rt.GoNamed("sickness", func() {
						sleep(d)
						if !w.calm {
							q.fall(x)
						}
					})
				}
			}
			continue
		}
		t := w.byMsg[f.msg]
		if t == nil || t.q != nil || !bytes.Equal(t.body, f.body) {
			w.e.FailAny("request changed", "the server received %v", f)
			return
		}
		t.q, t.fat = q, rt.Now()
		w.e.Log("server: conn %d got %v", q.n, t.treq)
		id := f.id
		ans := func() {
			if q.silent || q.sick == 5 {
				return
			}
			q.m.Lock()
			r := frame{msg: f.msg, id: id, body: mkBody(f.msg, 77, ps.N(60))}
			t.offered("server", 0, r.body)
			q.write(encRes(w.rc, r))
			q.m.Unlock()
		}
		if ps.Chance(1, 2) {
			ans()
		} else {
			d := ps.Log(int64(1+ps.N(300)) * ms)
			go func() { sleep(d); ans() }()
		}
	}
}

// watch follows a connection from the moment it is there.
func (q *lconn) watch() {
	w, e, a := q.w, q.w.e, q.a()
	for {
		if a.CWAt > 0 {
			if !q.up() {
				// given up: what the silent server may still say is not waited for
				sleep(ms + tol())
				if !a.Done() {
					e.Fail("N12", "half open", "connection %d, whose handshake failed, is open for reading at %d, its write side was closed at %d", q.n, rt.Now(), a.CWAt)
				}
			}
			return
		}
		now := rt.Now()
		// the times when something has to have happened
		next := now + int64(10*time.Second)
		see := func(t int64, class, f string, args ...interface{}) {
			if now > t {
				e.Fail("N12", class, f, args...)
			}
			if t < next {
				next = t
			}
		}
		if !q.up() {
			see(a.DialAt+w.d+tol(), "handshake without end", "connection %d was dialled at %d, the server has not answered the first ping, the dial limit is %d, and the connection is open at %d", q.n, a.DialAt, w.d, now)
		} else {
			if w.r > 0 {
				see(a.LastArr+w.r+tol(), "dead peer kept", "nothing has arrived on connection %d since %d, the read limit is %d, and the connection is open at %d", q.n, a.LastArr, w.r, now)
			}
			if w.w > 0 && a.WBlockAt > 0 {
				see(a.WBlockAt+w.w+tol(), "stuck peer kept", "connection %d accepts nothing since %d, the write limit is %d, and it is open at %d", q.n, a.WBlockAt, w.w, now)
			}
		}
		d := next - now + 1
		if w.w > 0 && d > w.w/2+1 {
			// a write may block any time
			d = w.w/2 + 1
		}
		sleep(atLeast(d))
	}
}

// atLeast: the tolerance grows with every step that is taken.
func atLeast(d int64) int64 {
	if d < ms {
		return ms
	}
	return d
}

func (w *lworld) slow() bool {
	n := w.n
	return n.Window < 65536 || (n.Seg > 0 && n.Seg < 200)
}

func (w *lworld) send(s *rt.Stream, sv *client.Server) *lreq {
	sz := bodySize(s)
	msg := uint32(0x10000 + len(w.reqs))
	t := &lreq{treq: w.b.add(iproto.RequestType(msg), mkBody(msg, 5, sz)), inAt: -1}
	w.reqs = append(w.reqs, t)
	w.byMsg[msg] = t
	t.req.Body = append(iproto.Body(nil), t.body...)
	t.send(sv)
	t.inAt = rt.Now()
	return t
}

func limitsClient(e *Env, idle bool) {
	n := e.network()
	w := &lworld{e: e, n: n, b: newBook(e, "N12"), byMsg: map[uint32]*lreq{}, ps: e.Stream("p"), idle: idle}
	w.rc = []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	n.DialHook = func(string) vnet.DialFault { return w.dialF }
	cfg := client.ServerConfig{Address: "srv:1", RetCodeType: w.rc}
	cfg.Connections = 1 + e.N(3)
	cfg.PingInterval = []time.Duration{0, 50 * time.Millisecond, 300 * time.Millisecond, 5 * time.Second, -1}[e.N(5)]
	cfg.ReadTimeout = []time.Duration{0, 200 * time.Millisecond, time.Second, 3 * time.Second, 30 * time.Second}[e.N(5)]
	cfg.WriteTimeout = []time.Duration{0, 300 * time.Millisecond, 2 * time.Second, 20 * time.Second}[e.N(4)]
	cfg.DialTimeout = []time.Duration{0, 200 * time.Millisecond, time.Second, 20 * time.Second}[e.N(4)]
	w.r, w.w, w.d, w.p = int64(cfg.ReadTimeout), int64(cfg.WriteTimeout), int64(cfg.DialTimeout), int64(cfg.PingInterval)
	if w.d == 0 {
		w.d = int64(5 * time.Second)
	}
	if w.p == 0 {
		w.p = int64(time.Second)
	}
	s0 := e.Stream("chaos")
	if !idle && s0.Chance(1, 6) {
		w.dialF.Blackhole = true
	}
	if !idle {
		w.hsBad = s0.Chance(1, 8)
	}
	w.listen()
	sv := cfg.NewServer()
	iproto.Run(sv)
	g := newWg()
	if !idle {
		for i := 1 + e.N(3); i > 0; i-- {
			s := e.Stream("s" + string(rune('a'+i)))
			g.add(1)
			rt.GoNamed("sender", func() {
				defer g.done()
				many := 1 + s.N(12)
				if s.Chance(1, 6) {
					many = 60 + s.N(100)
				}
				for j := 0; j < many; j++ {
					w.send(s, sv)
					if s.Chance(1, 8) {
						sleep(s.Log(2 * (w.r + w.d)))
					}
					e.gap(s)
				}
			})
		}
		g.add(1)
		rt.GoNamed("chaos", func() {
			defer g.done()
			for i := 1 + s0.N(4); i > 0; i-- {
				sleep(s0.Log(2*w.d + w.r))
				switch s0.N(4) {
				case 0:
					w.dialF = vnet.DialFault{Blackhole: true}
				case 1:
					w.dialF = vnet.DialFault{Delay: time.Duration(s0.Log(2 * w.d))}
				case 2:
					w.dialF = vnet.DialFault{}
					w.hsBad = !w.hsBad
				case 3:
					for _, q := range w.conns {
						if q.up() && q.a().CWAt == 0 && s0.Chance(1, 2) {
							q.fall(1 + s0.N(4))
						}
					}
				}
			}
		})
	} else {
		// nothing happens for a long time
		sleep(int64(time.Duration(1+e.N(4)) * time.Minute))
		if e.Chance(1, 2) {
			s := e.Stream("s")
			for i := 1 + s.N(20); i > 0; i-- {
				w.send(s, sv)
				sleep(s.Log(int64(40 * time.Second)))
			}
		}
	}
	if done := go_("join", g.wait); !waitFor(done, int64(900*time.Second)) {
		// requests beyond the queue wait for connections that are dead for ever
		if w.r > 0 {
			e.Fail("N12", "sender blocked", "a sender did not finish")
		}
		return
	}
	w.dialF = vnet.DialFault{}
	w.hsBad = false
	w.calm = true
	rt.Calm()
	settle := w.r + w.w + 2*w.d + int64(5*time.Second) + 2*rt.Slack()
	if w.slow() {
		settle += int64(60 * time.Second)
	}
	sleep(settle)
	// is a connection left that is dead and cannot be found out?
	rotten := false
	for _, q := range w.conns {
		a := q.a()
		if a.CWAt == 0 && q.sickAt > 0 {
			rotten = true
			if w.r > 0 {
				e.Fail("N12", "dead peer kept", "connection %d died at %d and is open at %d; read limit %d", q.n, q.sickAt, rt.Now(), w.r)
			}
		}
	}
	if !rotten {
		if c, t := w.b.outstanding(); c > 0 {
			e.Fail("N12", "unanswered", "%d requests are not answered though all dead connections have been given up; the first is %v, sent at %d", c, t, t.sentAt)
			return
		}
		// and everything works again
		t := w.send(e.Stream("last"), sv)
		sleep(int64(2 * time.Second))
		if w.slow() || n.Lat+n.Jitter > 10*time.Millisecond {
			sleep(int64(30 * time.Second))
		}
		if t.calls == 0 || (t.code != 0 && (w.r == 0 && w.w == 0 || w.healthy())) {
			e.Fail("N12", "does not recover", "a request sent at %d, when faults had ended long ago, has not been answered by the server at %d: %d answers, code %x", t.sentAt, rt.Now(), t.calls, uint32(t.code))
		}
	}
	w.check()
	if e.Chance(1, 3) {
		e.Log("stop")
		w.stopped = true
		t0 := rt.Now()
		sv.Stop()
		// what is not answered by dead peers ends at the limit
		sleep(w.r + w.w + w.d + int64(5*time.Second))
		if w.slow() {
			sleep(int64(30 * time.Second))
		}
		if !rotten || w.r > 0 {
			for _, q := range w.conns {
				if q.a().CWAt == 0 {
					e.Fail("N12", "not closed at the stop", "the client was stopped at %d and connection %d is open at %d", t0, q.n, rt.Now())
				}
			}
			if n := rt.LiveIn("go-iproto/net/client"); n > 0 {
				e.Fail("N12", "left running", "%d goroutines of the stopped client are left", n)
			}
		}
	}
}

// healthy: the limits are such that a healthy connection lasts.
func (w *lworld) healthy() bool {
	lat := 4 * int64(w.n.Lat+w.n.Jitter)
	if w.slow() {
		return false
	}
	if w.r > 0 && (w.p < 0 || w.p+lat+tol() >= w.r) {
		return false
	}
	return w.w == 0 || w.w > 4*lat+tol()
}

func (w *lworld) check() {
	e := w.e
	ok := w.healthy()
	for _, q := range w.conns {
		a := q.a()
		if q.sickAt > 0 || a.CWAt == 0 {
			continue
		}
		// (the client may not have seen yet that it is up)
		shaking := a.CWAt <= a.DialAt+w.d+tol() && a.CWAt > a.DialAt+w.d-tol() && tol()+a.OpenAt-a.DialAt+8*int64(w.n.Lat+w.n.Jitter) >= w.d/2
		if ok && !shaking {
			e.Fail("N12", "healthy connection dropped", "connection %d was healthy and was closed by the client at %d; read limit %d, ping interval %d, write limit %d, dial limit %d", q.n, a.CWAt, w.r, w.p, w.w, w.d)
		}
		if q.up() && !shaking && a.WFailAt == 0 && (w.r == 0 || a.MaxGap+tol() < w.r) {
			e.Fail("N12", "dropped early", "connection %d was closed by the client at %d, nothing had arrived for at most %d at a time, the read limit is %d", q.n, a.CWAt, a.MaxGap, w.r)
		}
		if !q.up() && a.WFailAt == 0 && a.CWAt < a.DialAt+w.d-tol() && (w.r == 0 || a.MaxGap+tol() < w.r) {
			e.Fail("N12", "dropped early", "connection %d was made at %d, was waiting for the first answer and was given up at %d; the dial limit is %d", q.n, a.OpenAt, a.CWAt, w.d)
		}
	}
	for _, t := range w.reqs {
		if t.calls == 0 {
			continue
		}
		t.checkOutcome("N12", iproto.RcIOError)
		if q := t.q; q != nil {
			if t.code == iproto.RcIOError && q.sickAt == 0 && ok {
				e.Fail("N12", "request failed", "%v was written to connection %d, which was healthy, and failed", t.treq, q.n)
			}
			if cw := q.a().CWAt; cw > 0 {
				if t.at > cw+t.tol {
					e.Fail("N12", "IO error late", "connection %d was given up at %d and its request %v was answered at %d", q.n, cw, t.treq, t.at)
				}
			}
		} else if t.code == iproto.RcIOError && t.inAt >= 0 {
			base := t.inAt
			for _, q := range w.conns {
				if q.pongEnd == 0 {
					continue
				}
				a := q.a()
				if a.CWAt == 0 {
					base = t.at
				} else if a.CWAt > base {
					base = a.CWAt
				}
			}
			if t.at > base+w.d+int64(200*time.Millisecond)+t.tol {
				e.Fail("N12", "IO error late", "%v was sent at %d, there has been no connection since %d, the dial limit is %d, and it failed at %d", t.treq, t.inAt, base, w.d, t.at)
			}
		}
	}
}

// ---- server ----

type slim struct {
	*sclient
	kind    int
	stuckAt int64
	dieAt   int64
	ended   bool // closed its side or more
}

func limitsServer(e *Env) {
	n := e.network()
	w := &sworld{e: e, k: sknobs{prop: "N12"}, byMsg: map[uint32]*sreq{}, hs: e.Stream("h"), stopAt: -1, stopRet: -1}
	w.rc = []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	cfg := server.Config{Network: "tcp", Address: "srv:1", RCType: w.rc}
	cfg.ReadTimeout = []time.Duration{0, 200 * time.Millisecond, time.Second, 30 * time.Second}[e.N(4)]
	cfg.WriteTimeout = []time.Duration{0, 300 * time.Millisecond, 2 * time.Second, 20 * time.Second}[e.N(4)]
	R, W := int64(cfg.ReadTimeout), int64(cfg.WriteTimeout)
	w.kind = 1
	w.inner = iproto.SF(func(r *iproto.Request) { go w.handle(r) })
	cfg.EndPoint = iproto.Route(w.give)
	w.serv = cfg.NewServer()
	if err := w.serv.Run(); err != nil {
		e.FailAny("server does not run", "%v", err)
		return
	}
	lat := int64(n.Lat + n.Jitter)
	slow := n.Window < 65536 || (n.Seg > 0 && n.Seg < 200)
	var cls []*slim
	end := false
	g := newWg()
	for i := 1 + e.N(4); i > 0; i-- {
		s := e.Stream("c" + string(rune('a'+i)))
		g.add(1)
		rt.GoNamed("client", func() {
			defer g.done()
			sleep(e.dur(s))
			q := w.connect()
			if q == nil {
				e.FailAny("not accepted", "")
				return
			}
			l := &slim{sclient: q, kind: s.N(5)}
			cls = append(cls, l)
			e.Log("client %d: kind %d", q.n, l.kind)
			b := q.b()
			rt.GoNamed("watch", func() {
				for !end && b.CWAt == 0 {
					now := rt.Now()
					next := now + int64(5*time.Second)
					if R > 0 && b.Accepted {
						last := b.LastArr
						if last == 0 {
							last = b.OpenAt
						}
						t := last + R
						bytes := 0
						busy := false
						for _, r := range q.reqs {
							if r.given > 0 && r.resp == 0 {
								busy = true
							}
							if r.respAt > t {
								t = r.respAt
							}
							for _, o := range r.offers {
								bytes += len(o.body) + 16
							}
						}
						t += tol() + int64(time.Millisecond)
						// what has to be delivered first
						if !busy && l.stuckAt == 0 && l.dieAt == 0 && !slow {
							t += 4 * lat * int64(2+bytes/n.Window)
							if now > t {
								e.Fail("N12", "silent client kept", "client %d has said nothing since %d, the read limit is %d, all its requests are answered, and the connection is open at %d", q.n, last, R, now)
							}
						}
						if t > now && t < next {
							next = t
						}
					}
					if W > 0 && b.WBlockAt > 0 {
						if t := b.WBlockAt + W + tol(); now > t {
							e.Fail("N12", "stuck client kept", "client %d accepts nothing since %d, the write limit is %d, and the connection is open at %d", q.n, b.WBlockAt, W, now)
						} else if t < next {
							next = t
						}
					}
					d := next - now + 1
					if W > 0 && d > W/2+1 {
						d = W/2 + 1
					}
					sleep(atLeast(d))
				}
			})
			if l.kind == 2 {
				l.stuckAt = rt.Now()
				q.stuck = true
				rt.Count("fault.noread")
			} else {
				rt.GoNamed("reader", func() { q.reader(s) })
			}
			switch l.kind {
			case 0:
				// talks often enough
				for j := 2 + s.N(20); j > 0; j-- {
					var err error
					if s.Chance(1, 3) {
						err = q.ping(s)
					} else {
						err = q.send(s)
					}
					if err != nil {
						return
					}
					d := e.dur(s)
					if R > 0 && d > R/3 {
						d = R / 3
					}
					sleep(d)
				}
			case 1:
				for j := s.N(3); j > 0; j-- {
					q.send(s)
				}
				b := encReq(frame{msg: 77, id: 7, body: mkBody(1, 1, 100)})
				q.m.Lock()
				for j := 1 + s.N(3); j > 0; j-- {
					k := s.N(30)
					q.c.Write(b[:k])
					b = b[k:]
					if R > 0 {
						sleep(s.Log(R / 2))
					}
				}
				q.m.Unlock()
			case 2:
				for j := 1 + s.N(120); j > 0; j-- {
					if s.Chance(1, 10) {
						sleep(e.dur(s))
					}
					q.m.Lock()
					if q.b().CWAt == 0 && q.c.InFlight()+q.b().Unread() < n.Window/2 {
						q.m.Unlock()
						if q.send(s) != nil {
							return
						}
					} else {
						q.m.Unlock()
						break
					}
				}
			case 3:
				for j := 1 + s.N(10); j > 0; j-- {
					q.send(s)
				}
				sleep(e.dur(s))
				l.dieAt = rt.Now()
				q.broken = true
				q.c.Pair().Die()
			case 4:
			}
		})
	}
	done := go_("join", g.wait)
	waitFor(done, int64(200*time.Second))
	rt.Calm()
	sleep(R + W + int64(10*time.Second) + 2*rt.Slack())
	if slow {
		sleep(int64(60 * time.Second))
	}
	w.quiesce()
	stuck := false
	for _, l := range cls {
		q := l.sclient
		b := q.b()
		if b.WBlockAt > 0 && b.CWAt == 0 {
			stuck = true
		}
		if l.kind != 2 && l.kind != 3 && b.CWAt > 0 && b.WFailAt == 0 {
			if R == 0 || b.MaxGap+tol() < R {
				e.Fail("N12", "dropped early", "client %d was never silent for more than %d, the read limit is %d, and the server closed the connection at %d", q.n, b.MaxGap, R, b.CWAt)
			}
		}
		if l.kind != 2 && l.kind != 3 && b.WFailAt > 0 && !slow && (W == 0 || W > 20*lat+tol()) {
			e.Fail("N12", "dropped early", "client %d reads all the time and writing to it failed at %d; the write limit is %d", q.n, b.WFailAt, W)
		}
		if l.kind == 0 || l.kind == 1 || l.kind == 4 {
			for _, r := range q.reqs {
				if r.sentAt > 0 && r.got == 0 && b.WFailAt == 0 && (r.given > 0 || b.CWAt == 0) {
					e.Fail("N12", "answer not delivered", "client %d reads all the time; its request %d, sent at %d, was answered by the service at %d and no answer has come", q.n, r.n, r.sentAt, r.respAt)
				}
			}
		}
		if b.WFailAt > 0 && !b.Done() {
			e.Fail("N12", "broken connection kept", "writing to client %d failed at %d and the connection is still open", q.n, b.WFailAt)
		}
		if t := b.WFailAt; t > 0 {
			for _, r := range q.reqs {
				if r.given > 0 && r.respAt > t+r.respTol && r.givenAt <= t {
					e.Fail("N12", "not cancelled", "writing to client %d failed at %d; its request %d was over only at %d", q.n, t, r.n, r.respAt)
				}
			}
		}
	}
	if !stuck || W > 0 {
		w.stopAt = rt.Now()
		w.serv.Stop()
		w.stopTol = rt.Slack()
		w.stopRet = rt.Now()
		sleep(W + int64(5*time.Second))
		if slow {
			sleep(int64(60 * time.Second))
		}
		if !isClosed(w.serv.Running) {
			e.Fail("N12", "stop does not finish", "the server was stopped at %d and has not finished at %d; the write limit is %d", w.stopRet, rt.Now(), W)
		}
		for _, pr := range n.Pairs() {
			if pr.B.CWAt == 0 && pr.B.Accepted {
				e.Fail("N12", "connection left behind", "a connection is still open at the stopped server")
			}
		}
	}
	end = true
}
