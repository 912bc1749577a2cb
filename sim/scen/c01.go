package scen

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	"verifsim/rt"
)

// C01: many answers race for every request; exactly one wins, it is one that
// was offered, and it comes as soon as one was offered.

var userCodes = []iproto.RetCode{iproto.RcOK, iproto.RcTemporary, iproto.RcFatal, 0x1102, 0x2201, iproto.RcProtocolError, iproto.RcInternalError}

var _ = register(&Scenario{Name: "answers", Props: []string{"C01"}, Weight: 4, Real: realCore, Stub: stubCore, Run: func(e *Env) { answers(e, false) }})
var _ = register(&Scenario{Name: "answers-resend", Props: []string{"C01"}, Weight: 2, Real: realCore, Stub: stubCore, Run: func(e *Env) { answers(e, true) }})

// rawData is a request of its own type with a given body.
type rawData struct {
	msg  iproto.RequestType
	body iproto.Body
}

func (d rawData) IMsg() iproto.RequestType { return d.msg }
func (d rawData) IWrite(w *marshal.Writer) { w.Bytes(d.body) }

func answers(e *Env, resend bool) {
	b := newBook(e, "C01")
	kind := e.N(7)
	nworkers := 1 + e.N(3)
	hs := e.Stream("h")
	byMsg := map[iproto.RequestType]*treq{}
	of := func(r *iproto.Request) *treq {
		if t := byMsg[r.Msg]; t != nil {
			if string(r.Body) != string(t.body) && !r.Performed() {
				e.Fail("C01", "request changed", "%v has body %s instead of %s", t, short(r.Body), short(t.body))
			}
			return t
		}
		return b.of(r)
	}
	var timeout time.Duration
	if e.Chance(1, 3) {
		timeout = time.Duration(1 + e.dur(e.w))
	}
	stopped := false
	// what the handler does with a request it may answer
	respond := func(t *treq, r *iproto.Request, who string) {
		code := userCodes[hs.N(len(userCodes))]
		body := mkBody(uint32(t.n), uint32(len(t.offers)), hs.N(40))
		switch hs.N(4) {
		case 0:
			t.offered(who, code, body)
			r.RespondBytes(code, body)
		case 1:
			t.offered(who, code, body)
			r.Respond(code, iproto.Body(body))
		case 2:
			t.offered(who, code, nil)
			r.RespondFail(code)
		case 3:
			if hs.Chance(1, 2) {
				t.offered(who, code, []byte{9, 0, 0, 0})
				r.Respond(code, uint32(9))
			} else {
				t.offered(who, code, body)
				r.RespondBytes(code, body)
			}
		}
	}
	handle := func(r *iproto.Request) {
		t := of(r)
		if t == nil {
			e.Fail("C01", "unknown request", "a request nobody sent was handed to a handler")
			return
		}
		t.execs++
		x := hs.N(5)
		if resend {
			// stale answers to an attempt that was given up are the handler's
			// fault; here it answers each attempt once
			x &= 1
		}
		switch x {
		case 0:
			respond(t, r, "handler")
		case 1:
			go func() {
				e.gap(hs)
				respond(t, r, "handler task")
			}()
		case 2:
			e.gap(hs)
			respond(t, r, "handler")
			respond(t, r, "handler again")
		case 3:
			for i := 0; i < 2; i++ {
				go func() {
					e.gap(hs)
					respond(t, r, "one of two handler tasks")
				}()
			}
		case 4:
			go func() {
				sleep(e.dur(hs))
				respond(t, r, "late handler")
			}()
			if hs.Chance(1, 2) {
				respond(t, r, "handler")
			}
		}
	}
	var serv iproto.Service
	var ep iproto.EndPoint
	pool := func(n int, to time.Duration) *iproto.ParallelService {
		return iproto.BF{N: n, Timeout: to}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			t := of(r)
			if t == nil {
				e.Fail("C01", "unknown request", "a request nobody sent was handed to a handler")
				return 0, nil
			}
			t.execs++
			if !resend && hs.Chance(1, 4) {
				respond(t, r, "pool handler itself")
			}
			e.gap(hs)
			if hs.Chance(1, 10) {
				t.offered("panic", iproto.RcInternalError, nil)
				panic("handler panic")
			}
			code := userCodes[hs.N(len(userCodes))]
			body := mkBody(uint32(t.n), 77, hs.N(40))
			t.offered("pool handler", code, body)
			return code, iproto.Body(body)
		})
	}
	switch kind {
	case 0:
		serv = iproto.SF(handle)
	case 1:
		p := pool(nworkers, timeout)
		serv, ep = p, p
	case 2:
		p := newLoopPoint(timeout, handle)
		p.async = e.Chance(1, 2)
		p.useMark = e.Chance(1, 2)
		iproto.Run(p)
		serv, ep = p, p
	case 3:
		bp := &iproto.BalancerPoint{SimplePoint: iproto.SimplePoint{Timeout: timeout}}
		bp.Init()
		for i := 0; i < 1+e.N(3); i++ {
			p := newLoopPoint(0, handle)
			p.async = e.Chance(1, 2)
			bp.AddChild(p)
		}
		iproto.Run(bp)
		serv, ep = bp, bp
	case 4:
		p := pool(nworkers, timeout)
		ep = p
		serv = iproto.Route(func(r *iproto.Request) { p.Send(r) })
	case 5:
		p := newLoopPoint(timeout, handle)
		iproto.Run(p)
		ep = p
		serv = iproto.StatWrap(p, func(*iproto.Request, time.Duration) {})
	case 6:
		p := pool(nworkers, timeout)
		ep = p
		inner := iproto.StatWrap(p, func(*iproto.Request, time.Duration) {})
		serv = iproto.StatWrap(iproto.Route(inner.Send), func(*iproto.Request, time.Duration) {})
	}
	n := 1 + e.N(8)
	if e.Chance(1, 30) {
		n = 1030 + e.N(100)
	}
	// requests made by the package's own helpers
	helper := func(cs *rt.Stream) {
		msg := iproto.RequestType(50000 + len(b.all))
		t := &treq{e: e, prop: "C01", n: len(b.all), msg: msg, body: mkBody(uint32(msg), 3, cs.N(50)), done: make(chan bool)}
		b.all = append(b.all, t)
		byMsg[msg] = t
		if timeout > 0 {
			t.offered("endpoint's time limit", iproto.RcTimeout, nil)
		}
		if ep != nil {
			t.offered("stop", iproto.RcShutdown, nil)
		}
		if kind == 1 || kind == 4 || kind == 6 {
			t.offered("worker gives no answer", iproto.RcInternalError, nil)
		}
		t.sentAt = rt.Now()
		body := append(iproto.Body(nil), t.body...)
		switch cs.N(5) {
		case 4:
			t.req = &iproto.Request{Msg: msg, Body: body, Responder: iproto.Callback(t.Respond)}
			serv.Send(t.req)
		case 0:
			go func() { t.Respond(iproto.CallMsgBody(serv, msg, body)) }()
		case 1:
			go func() { t.Respond(iproto.Call(serv, rawData{msg, body})) }()
		case 2, 3:
			var ch iproto.Chan
			if cs.Chance(1, 2) {
				t.req, ch = iproto.SendMsgBody(serv, msg, body)
			} else {
				t.req, ch = iproto.Send(serv, rawData{msg, body})
			}
			if cs.Chance(1, 3) {
				t.offered("Cancel", iproto.RcCanceled, nil)
				t.req.Cancel()
			}
			e.gap(cs)
			go func() {
				t.Respond(<-ch)
				t.Respond(<-ch)
			}()
		}
	}
	e.Log("service kind %d, %d requests, timeout %v, workers %d", kind, n, timeout, nworkers)
	senders := 1 + e.N(3)
	g := newWg()
	g.add(senders)
	per := (n + senders - 1) / senders
	for s := 0; s < senders; s++ {
		s := s
		cs := e.Stream("client" + string(rune('0'+s)))
		rt.GoNamed("sender", func() {
			for i := 0; i < per; i++ {
				if cs.Chance(1, 10) {
					helper(cs)
					continue
				}
				t := b.add(iproto.RequestType(1+cs.N(100)), mkBody(uint32(s), uint32(i), cs.N(50)))
				if timeout > 0 {
					t.offered("endpoint's time limit", iproto.RcTimeout, nil)
				}
				if ep != nil {
					t.offered("stop", iproto.RcShutdown, nil)
				}
				if kind == 1 || kind == 4 || kind == 6 {
					// a worker whose request timed out and whose answer was refused
					t.offered("worker gives no answer", iproto.RcInternalError, nil)
				}
				r := t.req
				hook := false
				if resend && cs.Chance(3, 4) {
					m := &retry{left: 1 + cs.N(3), codes: map[iproto.RetCode]bool{}}
					for _, c := range []iproto.RetCode{iproto.RcTemporary, 0x1102, 0x2201, iproto.RcFatal, iproto.RcInternalError, iproto.RcOK} {
						if cs.Chance(1, 2) {
							m.codes[c] = true
						}
					}
					m.onTry = func() { e.Probe("resent") }
					m.send = func(r *iproto.Request) {
						e.gap(hs)
						serv.Send(r)
					}
					if cs.Chance(1, 3) {
						// a hook that puts the request back and serves it itself
						m.again = func(r *iproto.Request) {
							e.gap(hs)
							if r.SetInFly(nil) {
								respond(t, r, "the hook's own service")
							}
						}
					}
					if r.ChainBookmark(m) {
						hook = true
						t.onResp = func() {
							if m.left > 0 && m.codes[t.code] {
								e.Fail("C01", "answered past the resend hook", "%v was answered with %x although its hook would send it again on that (sent again %d times, %d left)", t, uint32(t.code), m.used, m.left)
							}
						}
					}
				}
				if cs.Chance(1, 4) {
					t.offered("own time limit", iproto.RcTimeout, nil)
					r.SetTimeout(time.Duration(1 + e.dur(cs)))
				}
				// racing actors
				for k := cs.N(4); k > 0; k-- {
					fail := []struct {
						name string
						code iproto.RetCode
						f    func()
					}{
						{"Cancel", iproto.RcCanceled, r.Cancel},
						{"IOError", iproto.RcIOError, r.IOError},
						{"ShutDown", iproto.RcShutdown, r.ShutDown},
						{"Expire", iproto.RcTimeout, r.Expire},
					}[cs.N(4)]
					if hook && fail.code == iproto.RcIOError {
						continue
					}
					before := cs.Chance(1, 8)
					act := func() {
						t.offered(fail.name, fail.code, nil)
						fail.f()
						pool := kind == 1 || kind == 4 || kind == 6
						if t.calls == 0 && !(pool && fail.code == iproto.RcTimeout) {
							e.Fail("C01", "outcome offered but not taken", "%s returned and %v is not answered", fail.name, t)
						}
					}
					if before {
						act()
					} else {
						d := e.dur(cs)
						rt.GoNamed("failer", func() {
							if d > 0 {
								sleep(d)
							}
							act()
						})
					}
				}
				t.send(serv)
				e.gap(cs)
			}
			g.done()
		})
	}
	if ep != nil && e.Chance(1, 4) {
		d := e.dur(e.w)
		rt.GoNamed("stopper", func() {
			sleep(d)
			stopped = true
			e.Log("stop")
			ep.Stop()
		})
	}
	g.wait()
	// faults stop: everything has an outcome within the longest delay used
	rt.Calm()
	sleep(30 * int64(time.Second))
	if stopped {
		e.Probe("stopped")
	}
	for _, t := range b.all {
		if t.calls == 0 {
			e.Fail("C01", "never answered", "%v was sent %.3f s ago and is not answered (handler ran %d times, stopped %v, offers %d)", t, float64(rt.Now()-t.sentAt)/1e9, t.execs, stopped, len(t.offers))
		}
		t.checkOutcome("C01")
		if len(t.offers) > 2 {
			e.Probe("contested")
		}
	}
}
