package scen

import (
	"bytes"
	"fmt"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

const (
	ms  = int64(time.Millisecond)
	eps = int64(200 * time.Microsecond)
)

const realCore = "package iproto and package marshal (all of it, rewritten for the simulator)"
const realNet = "packages net, net/client, net/client/connection and net/server (all of it, rewritten for the simulator)"
const stubCore = "goroutine scheduler, channels, sync, sync/atomic, time, log, runtime: simulated"
const stubNet = "TCP, listeners and dialling: simulated (package vnet)"
const stubPeer = "the remote peer: scripted by the scenario, with its own frame codec"

// offer is an outcome somebody offered for a request.
type offer struct {
	code iproto.RetCode
	body []byte
	any  bool // body not known
	who  string
}

// treq follows one request.
type treq struct {
	e      *Env
	n      int
	req    *iproto.Request
	id     uint32
	msg    iproto.RequestType
	body   []byte
	calls  int
	res    *iproto.Response
	code   iproto.RetCode
	rbody  []byte
	at     int64
	seq    int64
	tol    int64 // tolerance when answered
	sentAt int64
	offers []offer
	must   bool // an outcome was offered that has to be taken
	done   chan bool
	onResp func()
	prop   string
	// filled by handlers
	execs      int
	started    int64
	ended      int64
	canceledAt int64
	unchecked  bool
}

func (t *treq) String() string {
	return fmt.Sprintf("request %d (msg %x id %d)", t.n, uint32(t.msg), t.id)
}

// Respond records the answer; it is the request's Responder.
func (t *treq) Respond(r *iproto.Response) {
	t.calls++
	t.e.Log("answer %v code=%x body=%s", t, uint32(r.Code), short(r.Body))
	if t.calls > 1 {
		t.e.Fail(t.prop, "answered twice", "%v was answered again: first %x %s, then %x %s", t, uint32(t.code), short(t.rbody), uint32(r.Code), short(r.Body))
		return
	}
	t.res = r
	t.code = r.Code
	t.rbody = append([]byte(nil), r.Body...)
	t.at = rt.Now()
	t.seq = rt.Seq()
	t.tol = tol()
	if r.Id != t.id || r.Msg != t.msg {
		t.e.Fail(t.prop, "answer mislabelled", "%v got a response labelled msg %x id %d", t, uint32(r.Msg), r.Id)
	}
	if t.onResp != nil {
		t.onResp()
	}
	close(t.done)
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x...(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// offered notes that an outcome is about to be offered.
func (t *treq) offered(who string, code iproto.RetCode, body []byte) {
	t.offers = append(t.offers, offer{code: code, body: append([]byte(nil), body...), who: who})
	t.e.Log("offer %v by %s code=%x body=%s", t, who, uint32(code), short(body))
}

func (t *treq) offeredCode(code iproto.RetCode) bool {
	for _, o := range t.offers {
		if o.code == code {
			return true
		}
	}
	return false
}

// checkOutcome: what was delivered had been offered, and has not changed since.
func (t *treq) checkOutcome(prop string, extra ...iproto.RetCode) {
	if t.calls == 0 {
		return
	}
	if t.res.Code != t.code || !bytes.Equal(t.res.Body, t.rbody) || t.res.Id != t.id || t.res.Msg != t.msg {
		t.e.Fail(prop, "answer changed later", "the response of %v was %x %s when delivered and is %x %s (msg %x id %d) at the end", t, uint32(t.code), short(t.rbody), uint32(t.res.Code), short(t.res.Body), uint32(t.res.Msg), t.res.Id)
	}
	for _, o := range t.offers {
		if o.code == t.code && (o.any || bytes.Equal(o.body, t.rbody)) {
			return
		}
	}
	for _, c := range extra {
		if t.code == c && len(t.rbody) == 0 {
			return
		}
	}
	var l []string
	for _, o := range t.offers {
		l = append(l, fmt.Sprintf("%s: %x %s", o.who, uint32(o.code), short(o.body)))
	}
	t.e.Fail(prop, "answer nobody gave", "%v was answered with %x %s; offered were %v", t, uint32(t.code), short(t.rbody), l)
}

// world of requests of a run
type book struct {
	e    *Env
	prop string
	all  []*treq
	byID map[uint32]*treq
	by   map[*iproto.Request]*treq
}

func newBook(e *Env, prop string) *book {
	return &book{e: e, prop: prop, byID: map[uint32]*treq{}, by: map[*iproto.Request]*treq{}}
}

// add makes a request of its own.
func (b *book) add(msg iproto.RequestType, body []byte) *treq {
	t := &treq{e: b.e, prop: b.prop, n: len(b.all), msg: msg, body: body, done: make(chan bool)}
	t.id = uint32(1000 + t.n)
	t.req = &iproto.Request{Id: t.id, Msg: msg, Body: body, Responder: t}
	b.all = append(b.all, t)
	b.by[t.req] = t
	b.byID[t.id] = t
	return t
}

func (b *book) of(r *iproto.Request) *treq { return b.by[r] }

func (t *treq) send(s iproto.Service) {
	t.sentAt = rt.Now()
	t.e.Log("send %v", t)
	s.Send(t.req)
}

// outstanding counts requests that were not answered.
func (b *book) outstanding() (n int, first *treq) {
	for _, t := range b.all {
		if t.calls == 0 && !t.unchecked {
			if first == nil {
				first = t
			}
			n++
		}
	}
	return
}

// sleep sleeps simulated nanoseconds.
func sleep(ns int64) { time.Sleep(time.Duration(ns)) }

// mkBody makes a body that is unique to (a, n).
func mkBody(a, n uint32, size int) []byte {
	b := make([]byte, size)
	x := a*2654435761 ^ n*40503 ^ 0x5bd1e995
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	if size >= 8 {
		b[0], b[1], b[2], b[3] = byte(a), byte(a>>8), byte(a>>16), byte(a>>24)
		b[4], b[5], b[6], b[7] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
	}
	return b
}

// wg is a harness wait group that knows who is missing.
type wg struct {
	n  int
	ch chan bool
	c  bool
}

func newWg() *wg { return &wg{ch: make(chan bool)} }
func (g *wg) add(n int) {
	g.n += n
}
func (g *wg) done() {
	g.n--
	if g.n == 0 && g.c {
		close(g.ch)
	}
}
func (g *wg) wait() {
	g.c = true
	if g.n > 0 {
		<-g.ch
	}
}

// waitFor waits at most d for ch to be closed; it tells whether it was.
func waitFor(ch chan bool, d int64) bool {
	t := time.NewTimer(time.Duration(d))
	defer t.Stop()
	select {
	case <-ch:
		return true
	case <-t.C:
		select {
		case <-ch:
			return true
		default:
		}
		return false
	}
}

// go_ runs f as a task and returns a channel closed at its end.
func go_(name string, f func()) chan bool {
	ch := make(chan bool)
	rt.GoNamed(name, func() {
		f()
		close(ch)
	})
	return ch
}

// durations a scenario uses: from zero to seconds, biased to small ones
func (e *Env) dur(s *rt.Stream) int64 {
	switch s.Weighted(3, 3, 3, 2, 1) {
	case 0:
		return 0
	case 1:
		return s.Log(200 * 1000)
	case 2:
		return s.Log(20 * ms)
	case 3:
		return int64(s.N(50)) * ms
	default:
		return int64(s.N(40)) * 50 * ms
	}
}

// gap between two operations of an actor: often none
func (e *Env) gap(s *rt.Stream) {
	if s.Chance(1, 3) {
		if d := e.dur(s); d > 0 {
			sleep(d)
		}
	}
}

// tol is how late something prompt may be by now.  Stalls and the time that
// tasks take delay things, also things that begin afterwards: a loop that was
// held up between its look at the clock and the arming of an alarm wakes up
// late for everything that is due meanwhile.
func tol() int64 { return 2*rt.Slack() + eps }
