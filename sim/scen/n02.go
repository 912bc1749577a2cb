package scen

import (
	"bytes"
	"io"
	"net"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// The network client against scripted servers: N02, N04, N05, N06, N11.

const realClient = "packages iproto, net, net/client and net/client/connection (all of it, rewritten for the simulator)"

func regClient(name string, prop string, w int, k cknobs) bool {
	return register(&Scenario{Name: name, Props: []string{prop}, Weight: w, Real: realClient, Stub: stubNet + "; " + stubPeer, Run: func(e *Env) { clientRun(e, k) }})
}

var _ = regClient("client-answers", "N02", 4, cknobs{prop: "N02", limits: true, strays: true})
var _ = regClient("client-many", "N02", 1, cknobs{prop: "N02", limits: true, strays: true, many: true})
var _ = regClient("client-breaks", "N02", 2, cknobs{prop: "N02", limits: true, strays: true, breaks: true})
var _ = regClient("client-loss", "N04", 4, cknobs{prop: "N04", breaks: true})
var _ = regClient("client-loss-limits", "N04", 2, cknobs{prop: "N04", breaks: true, limits: true, dials: true})
var _ = regClient("client-loss-many", "N04", 1, cknobs{prop: "N04", breaks: true, many: true, hoard: true})
var _ = regClient("client-down", "N04", 1, cknobs{prop: "N04", breaks: true, dials: true, endDown: true})
var _ = regClient("client-conns", "N05", 1, cknobs{prop: "N05", breaks: true, dials: true, setconn: true})
var _ = regClient("client-conns-quiet", "N05", 1, cknobs{prop: "N05", setconn: true, dials: true, quiet: true})
var _ = regClient("client-stop", "N06", 3, cknobs{prop: "N06", stop: true, limits: true})
var _ = regClient("client-stop-breaks", "N06", 2, cknobs{prop: "N06", stop: true, breaks: true, dials: true, setconn: true})
var _ = regClient("client-evil", "N11", 3, cknobs{prop: "N11", strays: true, evil: true, limits: true})

type cknobs struct {
	prop    string
	limits  bool // requests with time limits and cancellations
	strays  bool // responses nobody asked for
	breaks  bool // connections break
	dials   bool // dialling fails
	setconn bool // the number of connections changes
	stop    bool
	evil    bool // some connections talk nonsense
	many    bool
	endDown bool // the server stays unreachable at the end
	quiet   bool // few requests
	hoard   bool // answers come late
}

type creq struct {
	*treq
	limit  int64
	cancel bool
	frames []*cframe
	evil   bool
	after  bool // sent after Stop had returned
}

// cframe is a request as the scripted server received it.
type cframe struct {
	q      *cconn
	t      *creq
	f      frame
	at     int64
	ansEnd int // stream offset of the end of the answer, 0 = not answered
}

type cworld struct {
	e       *Env
	k       cknobs
	b       *book
	rc      nt.RCType
	addr    string
	l       net.Listener
	serv    *client.Server
	conns   []*cconn
	reqs    []*creq
	byMsg   map[uint32]*creq
	ps      *rt.Stream
	total   int
	never   bool // the server may leave requests unanswered
	closing bool // answers no more wait
	joined  bool // all is sent and no more faults come
	dialF   vnet.DialFault
	stopAt  int64 // began
	stopRet int64 // returned
	stopped bool  // returned
	slow    int64
	wants   []wantRec
	dialLim int64
}

type wantRec struct {
	at int64
	n  int
}

// cconn is a connection as the scripted server sees it.
type cconn struct {
	w      *cworld
	n      int
	c      *vnet.SConn
	m      sync.Mutex
	off    int
	pongAt int64
	pings  int
	out    map[uint32]*cframe // received and not answered
	used   map[uint32]bool
	broken bool // by the script or a fault
	noRead bool // what had arrived may not be read
	evil   bool
	fin    bool
	mute   bool
	cuts   bool
	lazy   bool // leaves closing to the client once everything is answered
	mild   bool // evil, but only in that some answers are too short for their code
}

func (q *cconn) a() *vnet.SConn { return q.c.Peer() }

func (w *cworld) listen() {
	l, err := net.Listen("tcp", w.addr)
	if err != nil {
		panic(err)
	}
	w.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			q := &cconn{w: w, n: len(w.conns), c: c.(*vnet.SConn), out: map[uint32]*cframe{}, used: map[uint32]bool{}}
			w.conns = append(w.conns, q)
			q.evil = w.k.evil && w.ps.Chance(1, 2) && !w.closing
			q.cuts = w.ps.Chance(1, 4)
			q.mild = q.evil && w.ps.Chance(1, 3)
			q.lazy = (w.k.stop || w.k.setconn) && w.ps.Chance(1, 3)
			go q.serve()
		}
	}()
}

// write writes a frame in one go or in pieces.
func (q *cconn) write(b []byte) error {
	for len(b) > 0 {
		n := len(b)
		if q.cuts && n > 1 && q.w.ps.Chance(1, 2) {
			n = 1 + q.w.ps.N(n-1)
		}
		k, err := q.c.Write(b[:n])
		q.off += k
		if err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 && q.w.ps.Chance(1, 4) {
			sleep(int64(q.w.ps.N(3000)) * 1000)
		}
	}
	return nil
}

func (q *cconn) serve() {
	w := q.w
	first := true
	for {
		f, err := readFrame(q.c, w.rc, false)
		if err != nil {
			q.ended(err)
			return
		}
		if first {
			first = false
			if f.msg != pingMsg || f.id != pingID || len(f.body) != 0 {
				w.e.Fail(w.k.prop, "no ping first", "the client began with %v", f)
			}
			if q.evil && !q.mild && w.ps.Chance(1, 3) {
				w.e.Probe("evil handshake")
				q.nonsense()
				return
			}
		}
		if f.msg == pingMsg && f.id == pingID {
			if q.mute {
				continue
			}
			q.m.Lock()
			var b []byte
			if w.ps.Chance(1, 6) {
				b = mkBody(1, 1, w.ps.N(16))
			}
			q.write(encRes(w.rc, frame{msg: pingMsg, id: pingID, body: b}))
			q.m.Unlock()
			if q.pongAt == 0 {
				q.pongAt = rt.Now()
				if w.k.strays && w.ps.Chance(1, 4) {
					go q.strays()
				}
				if q.evil && !q.mild {
					go func() {
						sleep(w.e.dur(w.ps))
						q.nonsense()
					}()
				}
			}
			q.pings++
			continue
		}
		q.got(f)
	}
}

func (q *cconn) got(f frame) {
	w := q.w
	t := w.byMsg[f.msg]
	if t == nil {
		w.e.Fail(w.k.prop, "unknown request", "the server received %v, which nobody sent", f)
		return
	}
	w.e.Log("server: conn %d got %v as id %d", q.n, t.treq, f.id)
	if !bytes.Equal(f.body, t.body) {
		w.e.Fail("N02", "request changed", "%v was sent with body %d %s and received with %d %s", t.treq, len(t.body), short(t.body), len(f.body), short(f.body))
	}
	if len(t.frames) > 0 {
		w.e.Fail("N02", "request written twice", "%v", t.treq)
		w.e.Fail("N04", "request written twice", "%v", t.treq)
	}
	if q.out[f.id] != nil {
		w.e.Fail("N02", "id reused", "id %d was given to %v while %v has it", f.id, t.treq, q.out[f.id].t.treq)
	}
	if f.id == pingID || f.id == 0 {
		w.e.Fail("N02", "reserved id", "%v was written with id %x", t.treq, f.id)
	}
	if t.after {
		w.e.Fail("N06", "written after the stop", "%v was sent after Stop had returned and was written to a connection", t.treq)
	}
	fr := &cframe{q: q, t: t, f: f, at: rt.Now()}
	t.frames = append(t.frames, fr)
	q.out[f.id] = fr
	q.used[f.id] = true
	if q.evil {
		t.evil = true
	}
	switch x := w.ps.Weighted(5, 4, 1); {
	case w.k.hoard && !w.closing && w.ps.Chance(19, 20):
		go func() {
			for !w.closing && !w.joined {
				sleep(w.e.dur(w.ps) + ms)
			}
			q.answer(fr)
		}()
	case w.closing || x == 0:
		q.answer(fr)
	case x == 1 || !w.mayIgnore(t):
		d := w.e.dur(w.ps)
		go func() {
			sleep(d)
			q.answer(fr)
		}()
	default:
		w.e.Probe("not answered")
	}
}

func (w *cworld) mayIgnore(t *creq) bool {
	return w.never || t.limit > 0
}

var wireCodes = []uint32{0, 1, 2, 0x1102, 0x2201, 0x7f, 0x302}

func (q *cconn) answer(fr *cframe) {
	w := q.w
	q.m.Lock()
	defer q.m.Unlock()
	if q.out[fr.f.id] != fr || q.c.FDClosed() {
		return
	}
	delete(q.out, fr.f.id)
	code := wireCode(w.rc, fr.f.msg, wireCodes[w.ps.N(len(wireCodes))])
	sz := bodySize(w.ps)
	if w.k.many {
		sz %= 100
	}
	f := frame{msg: fr.f.msg, id: fr.f.id, code: code, body: mkBody(fr.f.msg, 77, sz)}
	if q.mild && w.rc != nt.RC0byte && w.ps.Chance(1, 3) {
		// shorter than its return code
		rt.Count("fault.short answer")
		n := w.ps.N(4)
		if w.rc == nt.RC1byte {
			n = 0
		}
		q.write(encReq(frame{msg: fr.f.msg, id: fr.f.id, body: mkBody(fr.f.msg, 77, n)}))
		return
	}
	fr.t.offered("server", iproto.RetCode(code), f.body)
	if err := q.write(encRes(w.rc, f)); err == nil {
		fr.ansEnd = q.off
	}
	if w.k.strays && w.ps.Chance(1, 6) {
		rt.Count("fault.duplicate")
		f.body = mkBody(fr.f.msg, 78, 1+w.ps.N(30))
		w.e.Log("server: again %v body=%s", fr.t.treq, short(f.body))
		q.write(encRes(w.rc, f))
	}
	if q.fin && len(q.out) == 0 && !q.lazy {
		q.close()
	}
}

// strays sends responses with ids that are not outstanding and will not be.
func (q *cconn) strays() {
	w := q.w
	for i := 1 + w.ps.N(5); i > 0; i-- {
		id := []uint32{0, 77 << 8, 0xfffffffe, pingID, uint32(w.total + 1 + w.ps.N(60)), 0x100 * uint32(1+w.total/256), 1<<31 + 5}[w.ps.N(7)]
		if id != 0 && int(id) <= w.total+1 {
			id += uint32(w.total) + 2
		}
		rt.Count("fault.stray")
		w.e.Log("server: stray id %d", id)
		q.m.Lock()
		q.write(encRes(w.rc, frame{msg: 0x55, id: id, code: 0, body: mkBody(5, id, w.ps.N(40))}))
		q.m.Unlock()
		w.e.gap(w.ps)
	}
}

// nonsense says anything and closes.
func (q *cconn) nonsense() {
	w := q.w
	q.broken = true
	for i := w.ps.N(6); i > 0; i-- {
		rt.Count("fault.nonsense")
		var b []byte
		switch w.ps.N(6) {
		case 0:
			b = mkBody(uint32(i), 0xbad, w.ps.N(50))
			if len(b) >= 8 {
				b[7] = 0 // no gigantic lengths
				b[6] &= 0x3f
			}
		case 1:
			b = encReq(frame{msg: pingMsg, id: uint32(w.ps.N(20))})
		case 2:
			b = encReq(frame{msg: 1, id: uint32(w.ps.N(20)), body: mkBody(1, 2, w.ps.N(5))})
		case 3:
			b = encRes(w.rc, frame{msg: 1, id: uint32(w.ps.N(1 << 20)), body: mkBody(1, 2, w.ps.N(50))})
		case 4:
			// a long frame that does not come
			b = encReq(frame{msg: 1, id: uint32(w.ps.N(20)), body: mkBody(1, 2, 10)})
			b[6] = byte(w.ps.N(64))
		case 5:
			b = encRes(w.rc, frame{msg: 1, id: uint32(w.ps.N(20)), body: mkBody(1, 2, 50)})
			b = b[:w.ps.N(len(b))]
		}
		q.m.Lock()
		q.write(b)
		q.m.Unlock()
		w.e.gap(w.ps)
	}
	if w.ps.Chance(1, 2) {
		q.c.CloseWrite()
		sleep(w.e.dur(w.ps))
	}
	q.close()
}

// ended: nothing more comes from the client.
func (q *cconn) ended(err error) {
	q.fin = true
	if err != io.EOF && err != io.ErrUnexpectedEOF {
		q.broken = true
	}
	if err == io.ErrUnexpectedEOF && !q.broken && !q.evil {
		q.w.e.Fail("N02", "torn request", "the client ended its stream inside of a frame on a healthy connection")
	}
	q.m.Lock()
	defer q.m.Unlock()
	n := 0
	for _, fr := range q.w.reqs {
		for _, f := range fr.frames {
			if f.q == q && q.out[f.f.id] == f && q.w.mayIgnore(f.t) {
				n++
			}
		}
	}
	if n > 0 {
		// some will not be answered: give up after a while
		go func() {
			sleep(500 * ms)
			q.m.Lock()
			q.broken = true
			q.close()
			q.m.Unlock()
		}()
	} else if len(q.out) == 0 && !q.lazy {
		q.close()
	}
}

func (q *cconn) close() {
	if len(q.out) > 0 {
		q.broken = true
	}
	if !q.c.FDClosed() {
		q.w.e.Log("server: conn %d closed", q.n)
		q.c.Close()
	}
}

// pick picks a connection that is not broken.
func (w *cworld) pick() *cconn {
	var l []*cconn
	for _, q := range w.conns {
		if !q.broken && q.pongAt > 0 && q.c.DeadAt == 0 {
			l = append(l, q)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[w.e.Stream("pick").N(len(l))]
}

// breakOne breaks a connection in one of many ways.
func (w *cworld) breakOne(s *rt.Stream) {
	q := w.pick()
	if q == nil {
		return
	}
	x := s.N(9)
	w.e.Log("chaos: conn %d break %d", q.n, x)
	if x != 8 {
		q.broken = true
	}
	switch x {
	case 0:
		q.c.Pair().Reset()
	case 1:
		q.c.Pair().ResetA()
	case 2:
		rt.Count("fault.close")
		q.c.Close()
	case 3:
		rt.Count("fault.halfclose")
		q.c.CloseWrite()
		d := w.e.dur(s)
		go func() {
			sleep(d)
			q.close()
		}()
	case 4:
		rt.Count("fault.truncate")
		// part of an answer to somebody
		q.m.Lock()
		f := frame{msg: 1, id: 1, body: mkBody(3, 3, 60)}
		for _, t := range w.reqs {
			if n := len(t.frames); n > 0 && t.frames[n-1].q == q && q.out[t.frames[n-1].f.id] != nil {
				f.msg, f.id = t.frames[n-1].f.msg, t.frames[n-1].f.id
				break
			}
		}
		b := encRes(w.rc, f)
		q.write(b[:s.N(len(b))])
		if s.Chance(1, 2) {
			q.c.CloseWrite()
		} else {
			q.c.Close()
		}
		q.m.Unlock()
	case 5:
		q.a().WriteErrAfter = 1 + int(s.Log(3000))
	case 6:
		q.noRead = true
		q.a().ReadErr = true
	case 7:
		// the server closes its side and keeps everything open that way
		rt.Count("fault.halfclose")
		q.c.CloseWrite()
	case 8:
		q.c.Pair().Hold()
		d := w.e.dur(s)
		go func() {
			sleep(d)
			q.c.Pair().Heal()
		}()
	}
}

func (w *cworld) chaos(s *rt.Stream, d int64) {
	e := w.e
	want := func() {
		n := 1 + s.N(5)
		e.Log("chaos: connections %d", n)
		w.wants = append(w.wants, wantRec{rt.Now(), n})
		w.serv.SetConnections(n)
	}
	for i := 1 + s.N(6); i > 0; i-- {
		sleep(e.dur(s))
		var acts []int
		if w.k.breaks {
			acts = append(acts, 0, 0, 0, 1)
		}
		if w.k.dials {
			acts = append(acts, 1, 2)
		}
		if w.k.setconn {
			acts = append(acts, 3, 3)
		}
		switch acts[s.N(len(acts))] {
		case 0:
			w.breakOne(s)
		case 1:
			// the server restarts
			e.Log("chaos: server down")
			rt.Count("fault.restart")
			w.l.Close()
			for _, q := range w.conns {
				q.broken = true
				if !q.c.FDClosed() {
					q.c.Close()
				}
			}
			sleep(e.dur(s))
			w.listen()
		case 2:
			switch s.N(3) {
			case 0:
				w.dialF = vnet.DialFault{Refuse: true}
			case 1:
				w.dialF = vnet.DialFault{Blackhole: true}
			case 2:
				w.dialF = vnet.DialFault{Delay: time.Duration(s.Log(int64(400 * ms)))}
			}
			e.Log("chaos: dialling %+v", w.dialF)
			for w.k.setconn && s.Chance(1, 2) {
				sleep(e.dur(s))
				want()
			}
			sleep(e.dur(s))
			w.dialF = vnet.DialFault{}
		case 3:
			want()
		}
	}
}

func clientRun(e *Env, k cknobs) {
	if k.evil {
		rt.AllocStart()
		defer memory(e)
	}
	n := e.network()
	w := &cworld{e: e, k: k, b: newBook(e, k.prop), addr: "srv:1", ps: e.Stream("p"), byMsg: map[uint32]*creq{}, stopAt: -1}
	w.rc = []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	n.DialHook = func(string) vnet.DialFault { return w.dialF }
	cfg := client.ServerConfig{Address: w.addr, RetCodeType: w.rc}
	cfg.Connections = []int{0, 1, 2, 3, 5}[e.N(5)]
	cfg.PingInterval = []time.Duration{0, -1, 300 * time.Millisecond}[e.N(3)]
	cfg.DialTimeout = []time.Duration{0, 400 * time.Millisecond, 2 * time.Second}[e.N(3)]
	cfg.ReadTimeout = []time.Duration{0, 5 * time.Minute, 1<<63 - 1}[e.N(3)]
	cfg.WriteTimeout = []time.Duration{0, 5 * time.Minute, 1<<63 - 1}[e.N(3)]
	svcLimit := int64(0)
	if k.limits && e.Chance(1, 4) {
		svcLimit = 1 + e.dur(e.w)
		cfg.Timeout = time.Duration(svcLimit)
	}
	want := cfg.Connections
	if want == 0 {
		want = 1
	}
	w.never = k.breaks && e.Chance(1, 2)
	senders := 1 + e.N(4)
	per := 1 + e.N(10)
	if k.many {
		per = 60 + e.N(300)
	}
	if k.quiet {
		per = e.N(3)
	}
	w.wants = append(w.wants, wantRec{0, want})
	if w.dialLim = int64(cfg.DialTimeout); w.dialLim == 0 {
		w.dialLim = int64(5 * time.Second)
	}
	w.total = senders * (per + 2) * 2
	if k.many {
		w.total += 600
	}
	up := !(k.dials && e.Chance(1, 4))
	if up {
		w.listen()
	}
	w.serv = cfg.NewServer()
	iproto.Run(w.serv)

	g := newWg()
	send := func(s *rt.Stream, after bool) {
		sz := bodySize(s)
		if k.many {
			sz %= 60
		}
		msg := uint32(0x10000 + len(w.reqs))
		t := w.b.add(iproto.RequestType(msg), mkBody(msg, 5, sz))
		c := &creq{treq: t, after: after, limit: svcLimit}
		w.reqs = append(w.reqs, c)
		w.byMsg[msg] = c
		// the caller's copy stays what it was
		t.req.Body = append(iproto.Body(nil), t.body...)
		if k.limits && s.Chance(1, 3) {
			if d := e.dur(s); d > 0 {
				if c.limit == 0 || d < c.limit {
				}
				c.limit = d
				t.req.SetTimeout(time.Duration(d))
				t.e.Log("limit %v %d", t, d)
			}
		}
		if k.limits && s.Chance(1, 8) {
			c.cancel = true
			d := e.dur(s)
			go func() {
				sleep(d)
				t.req.Cancel()
			}()
		}
		t.send(w.serv)
	}
	stopping := int64(0)
	for i := 0; i < senders; i++ {
		s := e.Stream("s" + string(rune('a'+i)))
		g.add(1)
		rt.GoNamed("sender", func() {
			defer g.done()
			burst := s.Chance(1, 3)
			for j := 0; j < per; j++ {
				send(s, w.stopped)
				if !burst && (!k.many || j%16 == 0) {
					e.gap(s)
				}
			}
		})
	}
	if k.breaks || k.dials || k.setconn {
		g.add(1)
		s := e.Stream("chaos")
		rt.GoNamed("chaos", func() {
			defer g.done()
			if !up {
				sleep(e.dur(s))
				w.listen()
			}
			w.chaos(s, 0)
		})
	}
	if k.stop {
		s := e.Stream("stop")
		for i := 1 + s.N(3)/2; i > 0; i-- {
			g.add(1)
			rt.GoNamed("stopper", func() {
				defer g.done()
				sleep(e.dur(s))
				if w.stopAt < 0 {
					w.stopAt = rt.Now()
				}
				e.Log("stop")
				ch := go_("stop call", w.serv.Stop)
				t0, k0 := rt.Now(), rt.Slack()
				if !waitFor(ch, int64(2*time.Second)) {
					e.Fail("N06", "Stop blocks", "Stop did not return within 2 s")
				}
				if d := rt.Now() - t0; d > 2*(rt.Slack()-k0)+eps {
					e.Fail("N06", "Stop slow", "Stop took %d ns", d)
				}
				w.stopped = true
				if w.stopRet == 0 {
					w.stopRet = rt.Now()
				}
				e.Log("stop returned")
				for j := s.N(3); j > 0; j-- {
					send(s, true)
				}
				if s.Chance(1, 3) {
					g.add(1)
					go func() {
						defer g.done()
						w.serv.SetConnections(1 + s.N(3))
					}()
				}
			})
		}
	}
	_ = stopping
	if done := go_("join", g.wait); !waitFor(done, int64(120*time.Second)) {
		e.Fail(k.prop, "sender blocked", "a sender did not finish")
		return
	}
	// faults end
	w.joined = true
	w.dialF = vnet.DialFault{}
	if k.endDown {
		w.l.Close()
		if e.Chance(1, 2) {
			w.dialF.Blackhole = true
		}
		for _, q := range w.conns {
			q.broken = true
			q.close()
		}
	}
	rt.Calm()
	for _, q := range w.conns {
		q.c.Pair().Heal()
		// faults that were prepared and did not strike
		q.a().WriteErrAfter = 0
		q.a().ReadErr = false
	}
	if k.setconn && !k.stop {
		want = 1 + e.N(5)
		w.wants = append(w.wants, wantRec{rt.Now(), want})
		w.serv.SetConnections(want)
	}
	settle := int64(10 * time.Second)
	if w.slowNet(n) {
		settle += int64(60 * time.Second)
	}
	if k.endDown {
		// each failed dial fails what the channel holds, and the run may
		// have made that small
		settle += int64(len(w.reqs)) * int64(5300*time.Millisecond)
	}
	sleep(settle)
	// what the server never answered is lost when it closes
	w.closing = true
	if w.never {
		for _, q := range w.conns {
			if len(q.out) > 0 {
				q.broken = true
				q.close()
			}
		}
		sleep(settle)
	}
	w.check(want, settle)
}

// memory: frames that are announced and do not come cost no memory.
func memory(e *Env) {
	if a := rt.Allocated(); a > 256<<20 {
		e.Fail("N11", "memory", "more than 256 MB (about %d MB) were allocated for peers that sent no more than some kilobytes", a>>20)
	}
}

// slowNet: with tiny segments and latency the settling takes longer.
func (w *cworld) slowNet(n *vnet.Net) bool {
	return n.Window < 4096 || (n.Seg > 0 && n.Seg < 200) || n.Lat+n.Jitter > 20*time.Millisecond
}

func (w *cworld) check(want int, settle int64) {
	e, k := w.e, w.k
	if c, t := w.b.outstanding(); c > 0 {
		x := w.reqs[t.n]
		where := "was never written"
		if len(x.frames) > 0 {
			fr := x.frames[0]
			where = "was written to a connection"
			if fr.ansEnd > 0 && fr.ansEnd <= fr.q.a().Arrived {
				where = "was answered by the server"
			} else if fr.q.a().DeadAt != 0 {
				where += " that was lost"
			}
		}
		e.FailAny("unanswered, "+where, "%d requests are not answered %d s after all faults have ended; the first is %v, sent at %d, which %s", c, settle/1e9, t, t.sentAt, where)
		return
	}
	for _, t := range w.reqs {
		w.checkReq(t)
	}
	// connections
	live := 0
	for _, p := range vnet.N().Pairs() {
		if !p.A.Done() {
			live++
		}
	}
	if k.stop {
		if live > 0 {
			e.Fail("N06", "connection left behind", "%d connections are still open after the client was stopped", live)
		}
		for _, d := range vnet.N().Dials {
			if w.stopRet > 0 && d.From > w.stopRet+int64(300*time.Millisecond)+2*tol() {
				e.Fail("N06", "dials after the stop", "the client was stopped at %d and dials at %d", w.stopRet, d.From)
			}
		}
		if n := rt.LiveIn("go-iproto/net/client"); n > 0 {
			e.Fail("N06", "left running", "%d goroutines of the stopped client are left", n)
		}
	} else if !k.endDown {
		if k.setconn {
			w.needless()
		}
		for i := 0; i < 3; i++ {
			live, shook := 0, 0
			for _, q := range w.conns {
				if !q.a().Done() {
					live++
					if q.pongAt > 0 {
						shook++
					}
				}
			}
			if live != want || shook != want {
				e.Fail("N05", "wrong number of connections", "%d connections are configured; %d are open and %d established", want, live, shook)
			}
			if i < 2 {
				sleep(int64(700 * time.Millisecond))
			}
		}
		if n := len(w.serv.ReceiveChan()); n > 0 {
			e.Fail("N02", "queue not served", "%d requests are left in the queue", n)
		}
	}
}

// needless: the client closes a connection that works only if there are more
// than configured (established, being dialled, or just lost).
func (w *cworld) needless() {
	within := int64(300*time.Millisecond) + 2*tol()
	hit := func(at, from, to int64) bool { return from <= at && (to == 0 || to > at-within) }
	min := func(a, b int64) int64 {
		if a == 0 || (b != 0 && b < a) {
			return b
		}
		return a
	}
	// closed at will, and when
	var closings []int64
	for _, q := range w.conns {
		a := q.a()
		at := a.CWAt
		if at == 0 || q.pongAt == 0 || q.pongAt >= at {
			continue
		}
		if x := min(min(a.EOFAt, a.RstAt), min(a.WFailAt, a.RFailAt)); x != 0 && x <= at {
			continue
		}
		if x := at - a.DialAt - w.dialLim; x > -2*tol() && x < 2*tol() {
			continue // the handshake took too long
		}
		closings = append(closings, at)
		least := 0
		for i, r := range w.wants {
			if i+1 < len(w.wants) && w.wants[i+1].at < a.OpenAt-within {
				continue
			}
			if r.at <= at && (least == 0 || r.n < least) {
				least = r.n
			}
		}
		there := 0
		for _, p := range vnet.N().Pairs() {
			if hit(at, p.A.OpenAt, min(p.A.CWAt, p.A.DeadAt)) {
				there++
			}
		}
		for _, d := range vnet.N().Dials {
			// (one may be about to dial)
			if hit(at, d.From-2*tol(), d.To) && (!d.OK || d.To == 0 || d.To > at) {
				there++
			}
		}
		if there <= least {
			w.e.Fail("N05", "needed connection closed", "the client closed connection %d, which worked, at %d though there were only %d (at least %d configured)", q.n, at, there, least)
		}
		w.e.Probe("surplus closed")
	}
	// lowering the number once closes no more than the surplus
	for i, r := range w.wants {
		if i > 0 && w.wants[i-1].at > r.at-2*within || i+1 < len(w.wants) && w.wants[i+1].at < r.at+2*within {
			continue
		}
		first, n := int64(0), 0
		for _, at := range closings {
			if at >= r.at && at < r.at+within {
				if n++; first == 0 || at < first {
					first = at
				}
			}
		}
		if n == 0 {
			continue
		}
		there := 0
		for _, p := range vnet.N().Pairs() {
			if hit(first, p.A.OpenAt, min(p.A.CWAt, p.A.DeadAt)) {
				there++
			}
		}
		for _, d := range vnet.N().Dials {
			if hit(first, d.From-2*tol(), d.To) && (!d.OK || d.To == 0 || d.To > first) {
				there++
			}
		}
		if n > there-r.n {
			w.e.Fail("N05", "needed connection closed", "the number was set to %d at %d and the client closed %d connections that worked, of at most %d", r.n, r.at, n, there)
		}
		w.e.Probe("lowered once")
	}
}

func (w *cworld) checkReq(t *creq) {
	e, k := w.e, w.k
	var extra []iproto.RetCode
	if t.limit > 0 {
		extra = append(extra, iproto.RcTimeout)
	}
	// (a surplus connection is shut down)
	if t.cancel || k.setconn || (w.stopAt >= 0 && t.at >= w.stopAt) {
		extra = append(extra, iproto.RcShutdown)
	}
	if k.breaks || k.dials || k.setconn || k.evil || k.endDown || w.noConn(t) {
		extra = append(extra, iproto.RcIOError)
	}
	if !t.evil && !(k.evil && len(t.frames) == 0) {
		t.checkOutcome(k.prop, extra...)
	}
	lost := t.code == iproto.RcIOError || (t.code == iproto.RcShutdown && !t.cancel)
	for _, fr := range t.frames {
		q := fr.q
		a := q.a()
		if q.evil {
			continue
		}
		if lost && fr.ansEnd > 0 && !q.noRead && (a.DeadAt == 0 || fr.ansEnd <= a.ArrAtDead) && t.at >= fr.at {
			e.Fail("N02", "answer lost", "%v was answered by the server, the answer had arrived (offset %d of %d) and the caller got code %x", t.treq, fr.ansEnd, a.Arrived, uint32(t.code))
			e.Fail("N04", "answer lost", "%v was answered by the server, the answer had arrived (offset %d of %d) before the break and the caller got code %x", t.treq, fr.ansEnd, a.Arrived, uint32(t.code))
			e.Fail("N06", "answer lost", "%v was answered by the server, the answer had arrived (offset %d of %d) and the caller got code %x", t.treq, fr.ansEnd, a.Arrived, uint32(t.code))
		}
		if lost && !q.broken {
			e.FailAny("written request dropped", "%v was written to connection %d, which nobody broke, and got code %x", t.treq, q.n, uint32(t.code))
		}
		if a.DeadAt > 0 {
			from := a.DeadAt
			if fr.at > from {
				from = fr.at
			}
			if t.at > from+t.tol {
				e.Fail("N04", "IO error late", "%v was on connection %d, lost at %d, and was answered (code %x) at %d; tolerance %d", t.treq, q.n, a.DeadAt, uint32(t.code), t.at, t.tol)
			}
		}
	}
	if t.code == iproto.RcIOError && len(t.frames) == 0 && !k.setconn && !k.evil && w.stopAt < 0 {
		// there must have been no connection, or one that broke with the
		// request just given to it
		cause := false
		for _, q := range w.conns {
			if d := q.a().DeadAt; d > 0 && d <= t.at && t.sentAt <= d+t.tol {
				cause = true
			}
		}
		if !cause && !w.noConn(t) {
			e.FailAny("IO error without a cause", "%v was sent at %d and failed at %d though an established connection was there all the time", t.treq, t.sentAt, t.at)
		}
	}
}

// noConn: there was possibly no established connection at some time while the
// request waited.
func (w *cworld) noConn(t *creq) bool {
	for _, q := range w.conns {
		a := q.a()
		if q.pongAt > 0 && q.pongAt+int64(2*time.Second)+t.tol < t.sentAt && (a.DeadAt == 0 || a.DeadAt > t.at) && !q.evil {
			return false
		}
	}
	return true
}
