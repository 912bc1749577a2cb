package scen

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// C11: services wrapped for statistics.

// forward is what one wrapper did with one send of one request.
type forward struct {
	t       *treq
	level   int
	began   int64 // when Send of the wrapper was called
	reached int64 // when the wrapped service got it, or -1
	callsAt int   // answers at the begin of Send
	reports int
	seqEnd  int64
}

// recSvc sits below a wrapper and sees what it forwards.
type recSvc struct {
	iproto.Service
	got func(*iproto.Request)
	mid func(*iproto.Request)
}

func (s *recSvc) Send(r *iproto.Request) {
	s.got(r)
	if s.mid != nil {
		s.mid(r)
	}
	s.Service.Send(r)
}

// entry sits above a wrapper.
type entrySvc struct {
	iproto.Service
	enter func(*iproto.Request)
	leave func(*iproto.Request)
}

func (s *entrySvc) Send(r *iproto.Request) {
	s.enter(r)
	s.Service.Send(r)
	s.leave(r)
}

var _ = register(&Scenario{Name: "stat", Props: []string{"C11"}, Weight: 1, Real: realCore, Stub: stubCore, Run: statWrap})

func statWrap(e *Env) {
	b := newBook(e, "C11")
	hs := e.Stream("h")
	kind := e.N(5)
	var timeout time.Duration
	if e.Chance(1, 3) {
		timeout = time.Duration(1 + e.dur(e.w))
	}
	codes := []iproto.RetCode{iproto.RcOK, iproto.RcTemporary, iproto.RcFatal, 0x1102}
	handle := func(r *iproto.Request) {
		t := b.of(r)
		t.execs++
		ans := func() {
			code := codes[hs.N(len(codes))]
			t.offered("handler", code, nil)
			r.RespondBytes(code, nil)
		}
		if hs.Chance(1, 2) {
			ans()
			return
		}
		go func() {
			e.gap(hs)
			ans()
		}()
	}
	var serv iproto.Service
	var ep iproto.EndPoint
	switch kind {
	case 0:
		serv = iproto.SF(handle)
	case 1:
		p := newLoopPoint(timeout, handle)
		p.useMark = e.Chance(1, 2)
		iproto.Run(p)
		serv, ep = p, p
	case 2, 3:
		p := iproto.BF{N: 1 + e.N(3), Timeout: timeout}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			b.of(r).execs++
			e.gap(hs)
			if hs.Chance(1, 10) {
				panic("handler panic")
			}
			return codes[hs.N(len(codes))], iproto.Body(nil)
		})
		serv, ep = p, p
		if kind == 3 {
			serv = iproto.Route(p.Send)
		}
	case 4:
		bp := &iproto.BalancerPoint{SimplePoint: iproto.SimplePoint{Timeout: timeout}}
		bp.Init()
		for i := 0; i < 1+e.N(3); i++ {
			bp.AddChild(newLoopPoint(0, handle))
		}
		iproto.Run(bp)
		serv, ep = bp, bp
	}
	// the wrappers
	var fwds []*forward
	open := map[*iproto.Request]map[int]*forward{}
	cur := func(r *iproto.Request, level int) *forward { return open[r][level] }
	depth := 1 + e.N(3)
	resendAt := -1
	if e.Chance(1, 2) {
		resendAt = e.N(depth + 1)
	}
	levels := []iproto.Service{}
	chainRetry := func(r *iproto.Request, send func(*iproto.Request), s *rt.Stream) {
		m := &retry{left: 1 + s.N(3), codes: map[iproto.RetCode]bool{}}
		for _, c := range codes {
			if s.Chance(1, 2) {
				m.codes[c] = true
			}
		}
		m.onTry = func() { e.Probe("resent") }
		m.send = send
		r.ChainBookmark(m)
	}
	for l := 0; l < depth; l++ {
		l := l
		rec := &recSvc{Service: serv}
		rec.got = func(r *iproto.Request) {
			f := cur(r, l)
			if f == nil || f.reached >= 0 {
				e.Fail("C11", "forwarded twice", "%v reached the service below wrapper %d again without being sent", b.of(r), l)
				return
			}
			f.reached = rt.Now()
			if f.callsAt > 0 {
				e.Fail("C11", "answered request forwarded", "%v was answered before it was sent to wrapper %d, which forwarded it", f.t, l)
			}
			e.Log("wrapper %d forwards %v", l, f.t)
		}
		if resendAt == l {
			below := serv
			again := &entrySvc{Service: below, enter: func(*iproto.Request) {}, leave: func(*iproto.Request) {}}
			rec.mid = func(r *iproto.Request) {
				chainRetry(r, func(r *iproto.Request) {
					e.gap(hs)
					again.Send(r)
				}, hs)
			}
		}
		wrap := iproto.StatWrap(rec, func(r *iproto.Request, d time.Duration) {
			now := rt.Now()
			f := cur(r, l)
			if f == nil {
				e.Fail("C11", "report of a request never sent", "wrapper %d", l)
				return
			}
			f.reports++
			e.Log("wrapper %d reports %v %d", l, f.t, int64(d))
			if f.reports > 1 {
				e.Fail("C11", "reported twice", "%v by wrapper %d", f.t, l)
			}
			if f.callsAt > 0 {
				e.Fail("C11", "answered request reported", "%v was answered before it was sent to wrapper %d, which reported it", f.t, l)
			}
			if f.t.calls > 0 {
				e.Probe("reported after the answer")
			}
			if int64(d) > now-f.began || int64(d) < 0 {
				e.Fail("C11", "duration too long", "%v was sent to wrapper %d at %d and answered by %d, the duration reported is %d", f.t, l, f.began, now, int64(d))
			}
			lo := f.reached
			if lo < 0 {
				lo = now
			}
			if int64(d) < now-lo-tol() {
				e.Fail("C11", "duration too short", "%v reached the service at %d through wrapper %d and was answered at %d, the duration reported is %d", f.t, f.reached, l, now, int64(d))
			}
			if now-lo > tol() {
				e.Probe("long enough to tell")
			}
		})
		serv = &entrySvc{Service: wrap, enter: func(r *iproto.Request) {
			if open[r] == nil {
				open[r] = map[int]*forward{}
			}
			if old := open[r][l]; old != nil && old.reached >= 0 && old.reports != 1 {
				e.Fail("C11", "answer not reported", "%v came to wrapper %d again and the %d. time was reported %d times", old.t, l, len(fwds), old.reports)
			}
			t := b.of(r)
			f := &forward{t: t, level: l, began: rt.Now(), reached: -1, callsAt: t.calls}
			open[r][l] = f
			fwds = append(fwds, f)
		}, leave: func(r *iproto.Request) {}}
		levels = append(levels, serv)
	}
	if serv.Runned() != true || serv.DefaultTimeout() != levels[0].DefaultTimeout() {
		e.Fail("C11", "wrapper changes the service", "Runned %v DefaultTimeout %v", serv.Runned(), serv.DefaultTimeout())
	}
	n := 1 + e.N(3)
	g := newWg()
	g.add(n)
	per := 1 + e.N(6)
	stopIt := ep != nil && e.Chance(1, 5)
	for i := 0; i < n; i++ {
		s := e.Stream("client" + string(rune('0'+i)))
		rt.GoNamed("sender", func() {
			for k := 0; k < per; k++ {
				t := b.add(iproto.RequestType(1+s.N(9)), nil)
				r := t.req
				top := serv
				if s.Chance(1, 5) {
					top = levels[s.N(len(levels))]
				}
				if resendAt == depth && s.Chance(1, 2) {
					chainRetry(r, func(r *iproto.Request) {
						e.gap(hs)
						top.Send(r)
					}, s)
				}
				if s.Chance(1, 4) {
					r.SetTimeout(time.Duration(1 + e.dur(s)))
				}
				for j := s.N(3); j > 0; j-- {
					f := []func(){r.Cancel, r.IOError, r.ShutDown, r.Expire}[s.N(4)]
					if s.Chance(1, 6) {
						f()
						continue
					}
					d := e.dur(s)
					rt.GoNamed("failer", func() {
						if d > 0 {
							sleep(d)
						}
						f()
					})
				}
				t.send(top)
				e.gap(s)
			}
			g.done()
		})
	}
	if e.Chance(1, 6) {
		s := e.Stream("steps")
		rt.GoNamed("clock", func() {
			for i := 0; i < 3; i++ {
				e.gap(s)
				rt.StepWall((int64(s.N(2000)) - 1000) * int64(time.Second))
			}
		})
	}
	if stopIt {
		d := e.dur(e.w)
		rt.GoNamed("stopper", func() {
			sleep(d)
			ep.Stop()
		})
	}
	g.wait()
	rt.Calm()
	sleep(30 * int64(time.Second))
	for _, f := range fwds {
		want := 0
		if f.reached >= 0 {
			want = 1
		}
		if f.t.calls == 0 {
			e.Probe("unanswered")
			continue
		}
		if f.reports != want {
			e.Fail("C11", "report count", "%v, sent to wrapper %d at %d (reached the service at %d), answered with %x, was reported %d times", f.t, f.level, f.began, f.reached, uint32(f.t.code), f.reports)
		}
		if f.reached < 0 {
			e.Probe("not forwarded")
			if f.t.at == 0 || f.t.at > rt.Now() {
				e.Fail("C11", "not forwarded", "%v", f.t)
			}
		}
	}
	for _, t := range b.all {
		if t.calls == 0 {
			e.Fail("C11", "never answered", "%v", t)
		}
	}
}
