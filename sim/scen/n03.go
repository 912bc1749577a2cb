package scen

import (
	"bytes"
	"net"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/server"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// The server against scripted clients: N03, N07, N08, N09, N10, N11.

const realServer = "packages iproto, net and net/server (all of it, rewritten for the simulator)"
const stubClient = "the remote clients: scripted by the scenario, with their own frame codec; the handlers of the service"

func regServer(name string, prop string, w int, k sknobs) bool {
	k.prop = prop
	return register(&Scenario{Name: name, Props: []string{prop}, Weight: w, Real: realServer, Stub: stubNet + "; " + stubClient, Run: func(e *Env) { serverRun(e, k) }})
}

var _ = regServer("server-frames", "N03", 3, sknobs{})
var _ = regServer("server-frames-breaks", "N03", 2, sknobs{breaks: true, stop: true})
var _ = regServer("server-frames-many", "N03", 1, sknobs{many: true, slow: true})
var _ = regServer("server-answers", "N07", 3, sknobs{limits: true})
var _ = regServer("server-answers-many", "N07", 2, sknobs{many: true, slow: true})
var _ = regServer("server-answers-breaks", "N07", 1, sknobs{limits: true, breaks: true, many: true})
var _ = regServer("server-stuck", "N08", 2, sknobs{stuck: true, many: true, bursts: true})
var _ = regServer("server-stuck-breaks", "N08", 1, sknobs{stuck: true, slow: true, breaks: true, many: true, bursts: true})
var _ = regServer("server-gone", "N09", 2, sknobs{breaks: true, long: true})
var _ = regServer("server-gone-many", "N09", 1, sknobs{breaks: true, long: true, many: true, slow: true})
var _ = regServer("server-stop", "N10", 3, sknobs{stop: true})
var _ = regServer("server-stop-breaks", "N10", 2, sknobs{stop: true, breaks: true, slow: true, many: true})
var _ = regServer("server-stop-flood", "N10", 1, sknobs{stop: true, flood: true})
var _ = regServer("server-evil", "N11", 3, sknobs{evil: true})
var _ = regServer("server-evil-stop", "N11", 1, sknobs{evil: true, stop: true, breaks: true})

type sknobs struct {
	prop   string
	limits bool // the service has time limits
	breaks bool
	many   bool
	bursts bool
	slow   bool // slow readers
	stuck  bool // some clients stop reading
	long   bool // long handlers that watch their contexts
	stop   bool
	flood  bool // a client sends until it is stopped
	evil   bool
}

// sreq is a request frame of a scripted client.
type sreq struct {
	w       *sworld
	cl      *sclient
	n       int
	f       frame
	begun   int64 // first byte may have been sent
	sentAt  int64 // last byte was sent
	end     int   // stream offset of the end
	given   int
	givenAt int64
	execs   int
	started int64
	ended   int64
	offers  []frame // code as the service gave it
	r       *iproto.Request
	resp    int
	respAt  int64
	respTol int64
	respC   iproto.RetCode
	got     int
	gotAt   int64
	sc      int64
}

type spy struct {
	iproto.Bookmark
	q *sreq
}

func (s *spy) Respond(r *iproto.Response) {
	q := s.q
	q.resp++
	q.respAt = rt.Now()
	q.respTol = tol()
	q.respC = r.Code
	q.w.e.Log("answered %d.%d code=%x", q.cl.n, q.n, uint32(r.Code))
	if q.resp > 1 {
		q.w.e.Fail("N07", "answered twice", "request %d.%d", q.cl.n, q.n)
	}
}

type sworld struct {
	e       *Env
	k       sknobs
	rc      nt.RCType
	serv    *server.Server
	cls     []*sclient
	byMsg   map[uint32]*sreq
	hs      *rt.Stream
	rcmap   map[iproto.RetCode]iproto.RetCode
	kind    int
	stopAt  int64
	stopRet int64
	stopTol int64 // stalls before the stop
	last    int64 // when the last handler will have answered
	limit   int64
	pool    int
	running int
	inner   iproto.Service
	wlimit  int64
	large   bool // answers are not cut
	huge    bool // one client has thousands of requests
}

type sclient struct {
	w       *sworld
	n       int
	c       *vnet.SConn
	m       sync.Mutex
	off     int
	reqs    []*sreq
	out     map[uint32]*sreq
	pings   map[uint32]int
	nextSeq int // the next request the service should be given
	broken  bool
	evil    bool
	stuck   bool // does not read
	half    bool // closed its sending half
	eof     bool
	eofAt   int64
	rdErr   error
	rdDone  bool
	dialAt  int64
	nogot   bool
	slowRd  bool
	lateRd  bool // begins to read after a while
	dirty   bool // repeated ids
	lastRx  int64
}

func (q *sclient) b() *vnet.SConn { return q.c.Peer() }

// given is called by the service's front.
func (w *sworld) give(r *iproto.Request) {
	e := w.e
	q := w.byMsg[uint32(r.Msg)]
	if q == nil {
		for _, cl := range w.cls {
			if cl.evil {
				// made up by a client that talks nonsense
				r.ChainBookmark(&iproto.Bookmark{})
				w.inner.Send(r)
				return
			}
		}
		e.FailAny("request made up", "the service was given msg %x id %d body %s, which nobody sent", uint32(r.Msg), r.Id, short(r.Body))
		return
	}
	if q.cl.evil {
		w.inner.Send(r)
		return
	}
	q.given++
	q.givenAt = rt.Now()
	q.r = r
	e.Log("given %d.%d id %d", q.cl.n, q.n, r.Id)
	if q.given > 1 {
		e.FailAny("given twice", "request %d of client %d", q.n, q.cl.n)
	}
	if r.Id != q.f.id || (!bytes.Equal(r.Body, q.f.body) && !r.Performed()) {
		e.FailAny("request changed", "client %d sent %v, the service was given id %d body %d %s", q.cl.n, q.f, r.Id, len(r.Body), short(r.Body))
	}
	if uint32(r.Msg) == pingMsg {
		e.FailAny("ping executed", "")
	}
	if q.n < q.cl.nextSeq {
		e.FailAny("order changed", "client %d: request %d was given to the service after %d", q.cl.n, q.n, q.cl.nextSeq-1)
	}
	if q.n > q.cl.nextSeq {
		e.FailAny("request skipped", "client %d: request %d was given to the service before %d", q.cl.n, q.n, q.cl.nextSeq)
	}
	q.cl.nextSeq = q.n + 1
	if w.stopRet >= 0 && q.begun > w.stopRet && q.givenAt-w.stopRet > 2*(rt.Slack()-w.stopTol)+eps+int64(2*time.Millisecond) {
		e.Fail("N10", "executed after the stop", "client %d began to send request %d at %d, the server had been stopped at %d, and the service was given it at %d", q.cl.n, q.n, q.begun, w.stopRet, q.givenAt)
	}
	if x := q.cl.b().WFailAt; x > 0 && rt.Now() > x+tol() {
		e.Fail("N09", "executed for nobody", "writing to client %d failed at %d and its request %d was given to the service at %d", q.cl.n, x, q.n, rt.Now())
	}
	if !r.ChainBookmark(&spy{q: q}) {
		// it is over already: cancelled before it got here
		q.resp, q.respAt, q.respTol, q.respC = 1, rt.Now(), tol(), iproto.RcCanceled
	}
	w.inner.Send(r)
}

var svcCodes = []iproto.RetCode{iproto.RcOK, iproto.RcOK, iproto.RcOK, iproto.RcTemporary, iproto.RcFatal, 0x1102, 0x2201, iproto.RcIOError, iproto.RcTimeout, iproto.RcShutdown, 0x4203, iproto.RcInternal, iproto.RcInternalError}

func (w *sworld) code() iproto.RetCode { return svcCodes[w.hs.N(len(svcCodes))] }

// onWire: what becomes of a code.
func (w *sworld) onWire(c iproto.RetCode) uint32 {
	if c&7 == 3 {
		if m, ok := w.rcmap[c]; ok && m != 0 {
			c = m
		} else {
			c = c&^7 | 2
		}
	}
	return wireCode(w.rc, 1, uint32(c))
}

func (w *sworld) will(d int64) int64 {
	if t := rt.Now() + d; t > w.last {
		w.last = t
	}
	return d
}

// answer: the handler's answer, which must be quick whatever the client does.
func (w *sworld) answer(q *sreq, r *iproto.Request) {
	code := w.code()
	sz := bodySize(w.hs)
	if w.k.many && !w.large {
		sz %= 300
	}
	if w.huge {
		sz %= 8
	}
	body := mkBody(uint32(r.Msg), 99, sz)
	if q != nil {
		q.offers = append(q.offers, frame{code: uint32(code), body: body})
	}
	t0, k0 := rt.Now(), rt.Slack()
	if w.hs.Chance(1, 8) && q != nil {
		q.offers = append(q.offers, frame{code: uint32(code)})
		r.RespondFail(code)
	} else {
		r.RespondBytes(code, append([]byte(nil), body...))
	}
	if d := rt.Now() - t0; d > 2*(rt.Slack()-k0)+eps {
		w.e.Fail("N08", "handler blocked", "answering a request took %d ns", d)
	}
}

func (w *sworld) begin(r *iproto.Request) *sreq {
	q := w.byMsg[uint32(r.Msg)]
	if q == nil || q.cl.evil {
		return nil
	}
	q.execs++
	q.started = rt.Now()
	if q.execs > 1 {
		w.e.FailAny("executed twice", "request %d of client %d", q.n, q.cl.n)
	}
	if x := q.cl.b().WFailAt; x > 0 && rt.Now() > x+tol() {
		w.e.Fail("N09", "executed for nobody", "writing to client %d failed at %d and its request %d was executed at %d", q.cl.n, x, q.n, rt.Now())
	}
	return q
}

func (w *sworld) dur() int64 {
	if w.k.long && w.hs.Chance(1, 3) {
		return int64(w.hs.N(3000)) * ms
	}
	return w.e.dur(w.hs)
}

// handler of plain services
func (w *sworld) handle(r *iproto.Request) {
	q := w.begin(r)
	switch w.hs.N(3) {
	case 0:
		w.answer(q, r)
	case 1:
		if w.kind == 0 || w.k.bursts {
			// the connection's reader is in our hands: do not hold it long
			if w.k.flood {
				sleep(w.will(1 + w.hs.Log(3*ms)))
			}
			w.answer(q, r)
			return
		}
		sleep(w.will(w.e.dur(w.hs)))
		w.answer(q, r)
	case 2:
		d := w.will(w.dur())
		go func() {
			sleep(d)
			w.answer(q, r)
		}()
	}
}

// work is a pool's handler.
func (w *sworld) work(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
	q := w.begin(r)
	d := w.will(w.dur())
	x := w.hs.N(20)
	if x == 0 && q != nil {
		q.offers = append(q.offers, frame{code: uint32(iproto.RcInternalError)})
		sleep(d)
		panic("boom")
	}
	sleep(d)
	if q != nil {
		if t := q.cl.b().WFailAt; t > 0 && rt.Now() > t+2*tol() && q.givenAt <= t && cx.Alive() {
			w.e.Fail("N09", "context alive", "writing to client %d failed at %d; at %d the context of its request %d is alive", q.cl.n, t, rt.Now(), q.n)
		}
		q.ended = rt.Now()
	}
	code := w.code()
	if code == iproto.RcTimeout {
		code = iproto.RcOK
	}
	body := mkBody(uint32(r.Msg), 98, w.hs.N(50))
	if q != nil {
		q.offers = append(q.offers, frame{code: uint32(code), body: body})
	}
	return code, iproto.Body(body)
}

// ---- clients ----

func (w *sworld) connect() *sclient {
	t0 := rt.Now()
	c, err := net.Dial("tcp", "srv:1")
	if err != nil {
		return nil
	}
	q := &sclient{w: w, n: len(w.cls), c: c.(*vnet.SConn), out: map[uint32]*sreq{}, pings: map[uint32]int{}, dialAt: t0}
	if w.stopRet >= 0 && q.dialAt > w.stopRet {
		w.e.Fail("N10", "accepts after the stop", "the server was stopped at %d and a connection was made at %d", w.stopRet, q.dialAt)
	}
	w.cls = append(w.cls, q)
	q.lastRx = rt.Now()
	return q
}

func (q *sclient) reader(s *rt.Stream) {
	w, e := q.w, q.w.e
	if q.lateRd {
		rt.Count("fault.noread")
		sleep(int64(3*time.Second) + e.dur(s))
	}
	for {
		if q.stuck {
			// does not read any more
			return
		}
		f, err := readFrame(q.c, w.rc, true)
		if err != nil {
			q.rdErr = err
			q.rdDone = true
			q.eof = true
			q.eofAt = rt.Now()
			e.Log("client %d: end of stream: %v", q.n, err)
			if err.Error() == "unexpected EOF" && !q.broken && !q.evil && !q.b().Broken() {
				e.Fail("N07", "torn answer", "client %d", q.n)
			}
			if w.stopAt >= 0 {
				sleep(e.dur(s))
				if !q.c.FDClosed() {
					q.c.Close()
				}
			}
			return
		}
		q.lastRx = rt.Now()
		if q.evil {
			continue
		}
		q.got(f)
		if q.slowRd && s.Chance(1, 4) {
			sleep(e.dur(s))
		}
	}
}

func (q *sclient) got(f frame) {
	w, e := q.w, q.w.e
	if f.msg == pingMsg {
		if q.pings[f.id] == 0 || len(f.body) != 0 {
			e.FailAny("ping answer wrong", "client %d got a ping answer with id %d and %d bytes, %d pings with this id are open", q.n, f.id, len(f.body), q.pings[f.id])
		}
		q.pings[f.id]--
		return
	}
	r := q.out[f.id]
	if r == nil {
		for _, o := range q.reqs {
			if o.f.id == f.id && o.got > 0 {
				e.FailAny("answered twice", "client %d got a second answer to its request %d: %v", q.n, o.n, f)
				return
			}
		}
		e.FailAny("answer to nothing", "client %d got %v, it has no such request", q.n, f)
		return
	}
	e.Log("client %d: answer %d: %v", q.n, r.n, f)
	delete(q.out, f.id)
	r.got++
	r.gotAt = rt.Now()
	if v := vnet.N(); w.k.prop == "N07" || w.k.prop == "N08" {
		// an answer sets out at once
		if !w.slowNet(v) && !q.slowRd && !q.lateRd && !q.broken && q.b().WFailAt == 0 && r.resp > 0 {
			rtt := 2 * int64(v.Lat+v.Jitter)
			if late := r.gotAt - r.respAt; late > (4+2*int64(q.c.Arrived/v.Window))*rtt+20*ms+tol() {
				e.FailAny("answer late", "request %d of client %d was answered by the service at %d and the answer came %d ns later", r.n, q.n, r.respAt, late)
			}
		}
	}
	if f.msg != r.f.msg {
		e.FailAny("answer mislabelled", "client %d sent %v and got %v", q.n, r.f, f)
	}
	if r.given == 0 {
		e.FailAny("answer out of nowhere", "client %d got %v for a request the service was never given", q.n, f)
	}
	ok := false
	for _, o := range r.offers {
		if w.onWire(iproto.RetCode(o.code)) == f.code && bytes.Equal(o.body, f.body) {
			ok = true
		}
	}
	if len(f.body) == 0 && f.code == w.onWire(r.respC) && r.resp > 0 {
		switch r.respC {
		case iproto.RcTimeout:
			ok = ok || w.limit > 0
		case iproto.RcInternalError:
			ok = ok || w.kind == 3
		}
	}
	if !ok {
		var l []string
		for _, o := range r.offers {
			l = append(l, o.String())
		}
		e.FailAny("answer differs", "client %d got %v for request %d; the service offered %v (map %v)", q.n, f, r.n, l, w.rcmap)
	}
}

// send sends a request.
func (q *sclient) send(s *rt.Stream) error {
	w := q.w
	q.m.Lock()
	defer q.m.Unlock()
	r := &sreq{w: w, cl: q, n: len(q.reqs)}
	sz := bodySize(s)
	if w.k.many || w.k.flood {
		sz %= 80
	}
	msg := uint32(0x10000 + len(w.byMsg))
	if w.k.evil {
		// nothing nonsense could contain
		msg = msg*2654435761 | 1
		for w.byMsg[msg] != nil {
			msg += 2
		}
	}
	id := uint32(r.n)
	switch s.N(8) {
	case 0:
		id = uint32(s.N(1<<30)) + 1<<20
	case 1:
		// an id that is free again
		for _, o := range q.reqs {
			if o.got > 0 && q.out[o.f.id] == nil {
				id = o.f.id
				break
			}
		}
	case 2:
		id = pingID
	}
	if q.out[id] != nil {
		id = 1<<31 + uint32(r.n)
	}
	r.f = frame{msg: msg, id: id, body: mkBody(msg, 7, sz)}
	w.byMsg[msg] = r
	q.reqs = append(q.reqs, r)
	q.out[id] = r
	r.begun = rt.Now()
	b := encReq(r.f)
	err := q.write(s, b)
	if err == nil {
		r.end = q.off
		r.sentAt = rt.Now()
	}
	return err
}

func (q *sclient) write(s *rt.Stream, b []byte) error {
	for len(b) > 0 {
		n := len(b)
		if s.Chance(1, 6) && n > 1 {
			n = 1 + s.N(n-1)
		}
		k, err := q.c.Write(b[:n])
		q.off += k
		if err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 && s.Chance(1, 4) {
			sleep(int64(s.N(3000)) * 1000)
		}
	}
	return nil
}

func (q *sclient) ping(s *rt.Stream) error {
	q.m.Lock()
	defer q.m.Unlock()
	id := []uint32{pingID, 0, 1, uint32(s.N(1 << 30))}[s.N(4)]
	q.pings[id]++
	var body []byte
	if s.Chance(1, 5) {
		body = mkBody(1, 1, s.N(30))
	}
	return q.write(s, encReq(frame{msg: pingMsg, id: id, body: body}))
}

// nonsense of a client
func (q *sclient) nonsense(s *rt.Stream) {
	for i := 1 + s.N(6); i > 0; i-- {
		rt.Count("fault.nonsense")
		var b []byte
		switch s.N(6) {
		case 0:
			b = mkBody(uint32(i), 0xbad, s.N(50))
			if len(b) >= 8 {
				b[7] = 0
				b[6] &= 0x3f
			}
		case 1:
			for j := s.N(200); j >= 0; j-- {
				b = append(b, encReq(frame{msg: pingMsg, id: uint32(s.N(20))})...)
			}
		case 2, 3:
			// repeated ids
			for j := s.N(20); j >= 0; j-- {
				b = append(b, encReq(frame{msg: uint32(1 + s.N(5)), id: uint32(s.N(3)), body: mkBody(1, 2, s.N(5))})...)
			}
		case 4:
			b = encReq(frame{msg: 1, id: uint32(s.N(20)), body: mkBody(1, 2, 10)})
			b[6] = byte(s.N(64))
			if s.Chance(1, 3) {
				b[7] = byte(s.N(256))
			}
		case 5:
			b = encReq(frame{msg: 1, id: uint32(s.N(20)), body: mkBody(1, 2, 50)})
			b = b[:s.N(len(b))]
		}
		q.write(s, b)
		q.w.e.gap(s)
	}
	switch s.N(3) {
	case 0:
		q.c.CloseWrite()
		sleep(q.w.e.dur(s))
		if !q.c.FDClosed() {
			q.c.Close()
		}
	case 1:
		q.c.Close()
	case 2:
		q.c.Pair().Reset()
	}
}

func (q *sclient) run(s *rt.Stream) {
	w, e := q.w, q.w.e
	rt.GoNamed("reader", func() { q.reader(s) })
	if s.Chance(3, 4) {
		q.m.Lock()
		q.pings[pingID]++
		q.write(s, encReq(frame{msg: pingMsg, id: pingID}))
		q.m.Unlock()
	}
	if q.evil {
		sleep(e.dur(s))
		q.nonsense(s)
		return
	}
	n := 1 + s.N(8)
	if w.k.many {
		n = 1 + s.N(60)
		if s.Chance(1, 4) {
			n = 150 + s.N(250)
		}
	}
	if w.huge && q.n == 0 {
		n = 5000 + s.N(3000)
	}
	burst := s.Chance(1, 3) || w.k.bursts || w.huge
	for i := 0; i < n || (w.k.flood && i < 3000); i++ {
		if w.k.flood && i >= n && w.serv != nil && isClosed(w.serv.Running) {
			break
		}
		var err error
		if s.Chance(1, 6) {
			err = q.ping(s)
		} else {
			err = q.send(s)
		}
		if err != nil {
			e.Log("client %d: write: %v", q.n, err)
			break
		}
		if w.k.flood {
			if s.Chance(1, 2) {
				sleep(s.Log(2 * ms))
			}
		} else if !burst {
			e.gap(s)
		}
	}
	if w.k.breaks && s.Chance(2, 3) {
		sleep(e.dur(s))
		x := s.N(6)
		e.Log("client %d: break %d", q.n, x)
		switch x {
		case 0:
			q.broken = true
			q.c.Pair().Reset()
		case 1:
			q.broken = true
			q.c.Pair().ResetA()
		case 2, 5:
			rt.Count("fault.close")
			q.broken = true
			if !q.c.FDClosed() {
				q.c.Close()
			}
		case 3:
			rt.Count("fault.halfclose")
			q.half = true
			q.c.CloseWrite()
		case 4:
			q.broken = true
			q.b().WriteErrAfter = 1 + int(s.Log(500))
		}
	} else if s.Chance(1, 4) {
		sleep(e.dur(s))
		rt.Count("fault.halfclose")
		q.half = true
		q.c.CloseWrite()
		e.Log("client %d: half close", q.n)
	}
}

func isClosed(ch chan bool) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func serverRun(e *Env, k sknobs) {
	if k.evil {
		rt.AllocStart()
		defer memory(e)
	}
	n := e.network()
	w := &sworld{e: e, k: k, byMsg: map[uint32]*sreq{}, hs: e.Stream("h"), stopAt: -1, stopRet: -1}
	w.rc = []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	cfg := server.Config{Network: "tcp", Address: "srv:1", RCType: w.rc}
	cfg.ReadTimeout = []time.Duration{0, 100 * time.Hour, 1<<63 - 1}[e.N(3)]
	cfg.WriteTimeout = []time.Duration{0, 100 * time.Hour, 1<<63 - 1}[e.N(3)]
	if e.Chance(1, 2) {
		w.rcmap = map[iproto.RetCode]iproto.RetCode{iproto.RcShutdown: 0x7701, iproto.RcIOError: 0x1234 &^ 7, 0x4203: 0x5502}
		cfg.RCMap = w.rcmap
	}
	w.large = k.stuck && e.Chance(1, 3)
	w.huge = ((k.stuck && !w.large) || (k.many && k.slow && k.prop == "N07")) && e.Chance(1, 30)
	if w.huge {
		rt.Calm()
	}
	if w.huge && !k.stuck {
		n.Window, n.Seg, n.Lat, n.Jitter = 65536, 0, 50*time.Microsecond, 0
	}
	w.kind = e.N(5)
	if k.long || k.limits {
		w.kind = []int{1, 2, 3, 3, 4}[e.N(5)]
	}
	if k.flood {
		w.kind = 0
	}
	if w.huge && !k.stuck {
		w.kind = []int{1, 2, 4}[e.N(3)]
	}
	switch w.kind {
	case 0:
		w.inner = iproto.SF(w.handle)
	case 1:
		w.inner = iproto.SF(func(r *iproto.Request) { go w.handle(r) })
	case 2:
		if k.limits && e.Chance(1, 2) {
			w.limit = 1 + e.dur(e.w)
		}
		p := newLoopPoint(time.Duration(w.limit), w.handle)
		p.async = true
		iproto.Run(p)
		w.inner = p
	case 3:
		if k.limits && e.Chance(1, 2) {
			w.limit = 1 + e.dur(e.w)
		}
		w.pool = 1 + e.N(4)
		p := iproto.BF{N: w.pool, Timeout: time.Duration(w.limit)}.New(w.work)
		w.inner = p
	case 4:
		// answered out of another goroutine, in bunches
		var held []func()
		w.inner = iproto.SF(func(r *iproto.Request) {
			q := w.begin(r)
			held = append(held, func() { w.answer(q, r) })
			if len(held) == 1 {
				d := w.will(w.dur())
				go func() {
					sleep(d)
					h := held
					held = nil
					for len(h) > 0 {
						i := w.hs.N(len(h))
						h[i]()
						h = append(h[:i:i], h[i+1:]...)
					}
				}()
			}
		})
	}
	cfg.EndPoint = iproto.Route(w.give)
	w.serv = cfg.NewServer()
	if e.Chance(1, 10) {
		n.AcceptErr = 1 + e.N(3)
	}
	if err := w.serv.Run(); err != nil {
		e.FailAny("server does not run", "%v", err)
		return
	}
	g := newWg()
	ncl := 1 + e.N(4)
	if k.stuck {
		ncl++
	}
	for i := 0; i < ncl; i++ {
		s := e.Stream("c" + string(rune('a'+i)))
		i := i
		g.add(1)
		rt.GoNamed("client", func() {
			defer g.done()
			if s.Chance(1, 2) {
				sleep(e.dur(s))
			}
			for j := 1 + s.N(3)/2; j > 0; j-- {
				q := w.connect()
				if q == nil {
					return
				}
				q.evil = k.evil && (i == 0 || s.Chance(1, 4))
				q.stuck = k.stuck && (i == 0 || s.Chance(1, 5)) && s.Chance(2, 3)
				if w.huge && q.n == 0 {
					q.stuck, q.lateRd = k.stuck, !k.stuck
				}
				if k.stuck && !q.stuck && (i == 0 || s.Chance(1, 5)) {
					// stops reading later
					d := e.dur(s)
					rt.GoNamed("stall", func() {
						sleep(d)
						q.stuck = true
						q.b().Peer().Pair()
						rt.Count("fault.noread")
					})
				}
				if q.stuck {
					rt.Count("fault.noread")
				}
				q.slowRd = k.slow && s.Chance(1, 3) && !q.lateRd
				q.run(s)
			}
		})
	}
	if k.stop {
		s := e.Stream("stop")
		for i := 1 + s.N(3)/2; i > 0; i-- {
			g.add(1)
			rt.GoNamed("stopper", func() {
				defer g.done()
				sleep(e.dur(s))
				if s.Chance(1, 2) {
					sleep(e.dur(s))
				}
				if w.stopAt < 0 {
					w.stopAt = rt.Now()
				}
				e.Log("stop")
				t0, k0 := rt.Now(), rt.Slack()
				ch := go_("stop call", w.serv.Stop)
				if !waitFor(ch, int64(5*time.Second)) {
					e.Fail("N10", "Stop blocks", "Stop did not return within 5 s")
				}
				if d := rt.Now() - t0; d > 2*(rt.Slack()-k0)+eps {
					e.Fail("N10", "Stop slow", "Stop took %d ns", d)
				}
				if w.stopRet < 0 {
					w.stopTol = rt.Slack()
					w.stopRet = rt.Now()
				}
				e.Log("stop returned")
				for j := s.N(3); j > 0; j-- {
					w.serv.Stop()
				}
			})
		}
	}
	done := go_("join", g.wait)
	if !k.stuck && !waitFor(done, int64(300*time.Second)) {
		e.FailAny("client blocked", "a client cannot send for 300 s")
		return
	}
	if k.stuck {
		// a stuck client may be blocked for ever
		waitFor(done, int64(30*time.Second))
	}
	rt.Calm()
	for _, q := range w.cls {
		q.b().WriteErrAfter = 0
	}
	sleep(int64(20 * time.Second))
	w.quiesce()
	if k.slow || w.slowNet(n) {
		sleep(int64(200 * time.Second))
	}
	if !k.stop {
		// new clients are still served
		s := e.Stream("late")
		if q := w.connect(); q == nil {
			e.FailAny("not accepted", "a new client cannot connect")
		} else {
			rt.GoNamed("reader", func() { q.reader(s) })
			q.ping(s)
			q.send(s)
			sleep(int64(4 * time.Second))
			if w.slowNet(n) {
				sleep(int64(20 * time.Second))
			}
			w.quiesce()
		}
	}
	w.check()
	if !k.stop && !k.stuck && e.Chance(1, 2) {
		// and now it stops
		w.stopAt = rt.Now()
		w.serv.Stop()
		w.stopRet = rt.Now()
		sleep(int64(5 * time.Second))
		if w.slowNet(n) {
			sleep(int64(20 * time.Second))
		}
		w.checkStopped("after everything")
	}
}

// quiesce waits until every handler has answered.
func (w *sworld) quiesce() {
	for {
		x := w.last
		if d := x - rt.Now(); d > 0 {
			sleep(d)
		}
		sleep(int64(5 * time.Second))
		if w.last == x {
			return
		}
	}
}

func (w *sworld) slowNet(n *vnet.Net) bool {
	return n.Window < 4096 || (n.Seg > 0 && n.Seg < 200) || n.Lat+n.Jitter > 20*time.Millisecond
}

func (w *sworld) checkStopped(when string) {
	e := w.e
	p := "N10"
	if w.k.prop == "N11" {
		p = "N11"
	}
	if !isClosed(w.serv.Running) {
		e.Fail(p, "stop does not finish", "%s: the server was stopped at %d, the last handler answered at %d and it has not finished at %d", when, w.stopRet, w.last, rt.Now())
	}
	for _, pr := range vnet.N().Pairs() {
		if !pr.B.Done() && pr.B.Accepted {
			e.Fail(p, "connection left behind", "%s: a connection is still open at the server", when)
		}
	}
	if n := rt.LiveIn("go-iproto/net/server"); n > 0 {
		e.Fail(p, "left running", "%s: %d goroutines of the stopped server are left", when, n)
	}
}

func (w *sworld) check() {
	e, k := w.e, w.k
	if w.huge {
		n := 0
		for _, q := range w.cls {
			for _, r := range q.reqs {
				if (q.stuck && r.given > 0 && r.got == 0) || q.lateRd {
					n++
				}
			}
		}
		if n > 4000 {
			e.Probe("thousands of answers kept")
		}
	}
	for _, q := range w.cls {
		if q.evil {
			continue
		}
		b := q.b()
		for _, r := range q.reqs {
			if r.sentAt == 0 {
				if r.given > 0 && !q.broken {
					e.FailAny("executed before it was sent", "")
				}
				continue
			}
			arrived := r.end <= b.Arrived
			if r.given == 0 && arrived && !q.broken && w.stopAt < 0 && b.WFailAt == 0 {
				e.FailAny("request not executed", "client %d sent request %d, it arrived, and the service was not given it", q.n, r.n)
			}
			if r.given == 0 && w.stopAt >= 0 && arrived && r.sentAt+int64(time.Second)+2*rt.Slack() < w.stopAt && !q.broken && b.WFailAt == 0 && w.fast() {
				e.FailAny("request not executed", "client %d sent request %d a second before the stop and the service was not given it", q.n, r.n)
			}
			if r.given > 0 && r.resp == 0 {
				e.FailAny("not answered by the service", "client %d request %d", q.n, r.n)
			}
			if r.given > 0 && r.got == 0 && !q.broken && !q.stuck && b.WFailAt == 0 && b.RstAt == 0 {
				e.FailAny("answer not delivered", "client %d is connected and reads; its request %d was answered by the service (code %x) at %d and no answer has arrived at %d; its stream has ended: %v", q.n, r.n, uint32(r.respC), r.respAt, rt.Now(), q.eof)
			}
			if t := b.WFailAt; t > 0 && r.given > 0 {
				from := t
				if r.givenAt > from {
					from = r.givenAt
				}
				if r.respAt > from+r.respTol {
					e.Fail("N09", "not cancelled", "writing to client %d failed at %d; its request %d, given to the service at %d, was over (code %x) only at %d", q.n, t, r.n, r.givenAt, uint32(r.respC), r.respAt)
				}
			}
		}
		if b.WFailAt > 0 && !b.Done() {
			e.Fail("N09", "broken connection kept", "writing to client %d failed at %d and the connection is still open at %d", q.n, b.WFailAt, rt.Now())
		}
		if !q.broken && !q.stuck && w.stopAt < 0 && b.WFailAt == 0 {
			for id, c := range q.pings {
				if c != 0 {
					e.FailAny("ping not answered", "client %d: %d pings with id %d", q.n, c, id)
				}
			}
			if q.eof && !q.half {
				e.FailAny("connection dropped", "the server closed the connection of client %d, which is healthy: %v", q.n, q.rdErr)
			}
			if q.half && !q.eof {
				e.Fail("N09", "half-closed connection kept", "client %d closed its sending half, has all its answers, and the connection is still open", q.n)
				e.Fail("N07", "half-closed connection kept", "client %d closed its sending half, has all its answers, and the connection is still open", q.n)
			}
			if q.half && q.rdErr != nil && q.rdErr.Error() != "EOF" {
				e.FailAny("half-closed connection broken", "client %d: %v", q.n, q.rdErr)
			}
		}
	}
	if k.stop && !k.stuck {
		w.checkStopped("stopped under load")
	}
}

func (w *sworld) fast() bool { return w.kind != 0 && !w.k.flood && vnet.N().Window >= 4096 }
