package scen

import (
	"math"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

var _ = register(&Scenario{Name: "time-outs", Props: []string{"C02"}, Weight: 3, Real: realCore, Stub: stubCore, Run: timeouts})

type limited struct {
	*treq
	limit    int64 // first limit that counts, 0 = none
	armAt    int64
	own      bool
	cxDead   bool
	panicked bool
	ansCode  iproto.RetCode
	made     int64 // of a group's: when it was made, the limit may have passed
}

// clockSteps steps the wall clock at random moments of the run.
func clockSteps(e *Env) {
	if !e.Chance(1, 3) {
		return
	}
	s := e.Stream("clock")
	rt.GoNamed("clock", func() {
		for i := 0; i < 1+s.N(3); i++ {
			sleep(e.dur(s))
			d := []int64{3600e9, -3600e9, 500 * ms, -500 * ms, 86400e9 * 400, -86400e9 * 400}[s.N(6)]
			e.Log("wall clock steps by %d ns", d)
			rt.StepWall(d)
		}
	})
}

func timeouts(e *Env) {
	b := newBook(e, "C02")
	clockSteps(e)
	hs := e.Stream("h")
	kind := e.N(7)
	var deflt int64
	if e.Chance(1, 2) {
		deflt = 1 + e.dur(e.w)
	}
	infos := map[*treq]*limited{}
	pool := false
	ends := int64(0)
	note := func(d int64) {
		if t := rt.Now() + d; t > ends {
			ends = t
		}
	}
	handle := func(r *iproto.Request) {
		t := b.of(r)
		t.execs++
		switch hs.N(4) {
		case 0: // never answers
		case 1:
			t.offered("handler", 0, []byte{1})
			r.RespondBytes(0, []byte{1})
		case 2:
			d := e.dur(hs)
			go func() {
				sleep(d)
				t.offered("handler", 0, []byte{2})
				r.RespondBytes(0, []byte{2})
			}()
		case 3:
			if kind == 0 || kind == 6 {
				return
			}
			d := e.dur(hs)
			sleep(d)
			t.offered("handler", 0, []byte{3})
			r.RespondBytes(0, []byte{3})
		}
	}
	var serv iproto.Service
	to := time.Duration(deflt)
	mkPool := func(n int) *iproto.ParallelService {
		return iproto.BF{N: n, Timeout: to}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			t := b.of(r)
			t.execs++
			l := infos[t]
			d := e.dur(hs)
			note(d)
			t.started = rt.Now()
			for left := d; left > 0; {
				k := left
				if k > 20*ms && hs.Chance(1, 3) {
					k = 20 * ms
				}
				sleep(k)
				left -= k
				if l.limit > 0 && rt.Now() > l.armAt+l.limit+tol() && t.calls == 0 {
					if cx.Alive() || !cx.Timeout() {
						e.Fail("C02", "context not expired", "%v: its limit of %d ns passed at %d, now is %d, and the handler's context is alive=%v timeout=%v", t, l.limit, l.armAt+l.limit, rt.Now(), cx.Alive(), cx.Timeout())
					}
					e.Probe("expired while executing")
					l.cxDead = true
				}
			}
			t.ended = rt.Now()
			if hs.Chance(1, 6) {
				t.offered("panic", iproto.RcInternalError, nil)
				l.panicked = true
				panic("no answer")
			}
			t.offered("worker", 0, []byte{7})
			return 0, iproto.Body([]byte{7})
		})
	}
	switch kind {
	case 0:
		serv = iproto.SF(handle)
		deflt = 0
	case 1, 2:
		pool = true
		serv = mkPool(1 + e.N(3))
	case 3:
		p := newLoopPoint(to, handle)
		iproto.Run(p)
		serv = p
	case 4:
		// a loop that is stuck for a while, so that the queue fills
		first := true
		p := newLoopPoint(to, handle)
		d := e.dur(e.w) * 3
		p.got = func(*iproto.Request) {
			if first {
				first = false
				sleep(d)
			}
		}
		iproto.Run(p)
		serv = p
	case 5:
		bp := &iproto.BalancerPoint{SimplePoint: iproto.SimplePoint{Timeout: to}}
		bp.Init()
		p := newLoopPoint(time.Nanosecond, handle) // a child's own limit does not count
		bp.AddChild(p)
		iproto.Run(bp)
		serv = bp
	case 6:
		p := newLoopPoint(to, handle)
		p.async = true
		iproto.Run(p)
		serv = iproto.StatWrap(p, func(*iproto.Request, time.Duration) {})
	}
	n := 1 + e.N(12)
	if e.Chance(1, 40) {
		n = 60
	}
	g := newWg()
	ns := 1 + e.N(3)
	g.add(ns)
	for s := 0; s < ns; s++ {
		cs := e.Stream("client" + string(rune('0'+s)))
		rt.GoNamed("sender", func() {
			for i := 0; i < n; i++ {
				t := b.add(1, mkBody(1, uint32(i), cs.N(20)))
				l := &limited{treq: t}
				infos[t] = l
				l.armAt = rt.Now()
				if cs.Chance(1, 2) {
					d := 1 + e.dur(cs)
					l.limit = d
					l.own = true
					if cs.Chance(1, 8) {
						t.req.SetTimeout(0) // no limit: must not count
					}
					t.req.SetTimeout(time.Duration(d))
					if cs.Chance(1, 3) {
						t.req.SetTimeout(time.Duration(1 + e.dur(cs)))
					}
					if cs.Chance(1, 6) {
						sleep(e.dur(cs))
					}
				} else if cs.Chance(1, 10) {
					// as good as none, but it counts as the first
					t.req.SetTimeout(math.MaxInt64)
				} else if deflt > 0 && kind != 0 {
					l.limit = deflt
					l.armAt = rt.Now()
				}
				if l.limit > 0 {
					t.offered("limit", iproto.RcTimeout, nil)
					note(l.limit)
				}
				t.send(serv)
				e.gap(cs)
			}
			g.done()
		})
	}
	g.wait()
	rt.Calm()
	sleep(200 * int64(time.Second))
	if ends > rt.Now() {
		sleep(ends - rt.Now() + int64(time.Second))
	}
	for _, t := range b.all {
		l := infos[t]
		checkLimit(e, "C02", l, pool)
		t.checkOutcome("C02")
		if pool && l.panicked && t.calls > 0 && t.code != iproto.RcInternalError {
			e.Fail("C02", "wrong answer after panic", "%v answered with %x", t, uint32(t.code))
		}
	}
}

func checkLimit(e *Env, prop string, l *limited, pool bool) {
	t := l.treq
	if t.calls > 0 && t.code == iproto.RcTimeout {
		if l.limit == 0 {
			e.Fail(prop, "time-out without a limit", "%v has no time limit and was answered with the time-out code", t)
		}
		if t.at < l.armAt+l.limit {
			e.Fail(prop, "time-out too early", "%v has a limit of %d ns set at %d and was timed out at %d, %d ns early", t, l.limit, l.armAt, t.at, l.armAt+l.limit-t.at)
		}
		e.Probe("timed out")
		if pool && t.execs > 0 {
			e.Fail(prop, "timed out under a worker", "%v was being executed by a worker and was answered with time-out", t)
		}
	}
	if l.limit == 0 {
		return
	}
	end := l.armAt + l.limit
	if l.made > end {
		end = l.made
	}
	if pool && t.execs > 0 {
		if t.ended == 0 {
			e.Fail(prop, "worker never ended", "%v", t)
			return
		}
		if t.ended > end {
			end = t.ended
		}
	}
	if t.calls == 0 {
		e.Fail(prop, "time-out lost", "%v has a limit of %d ns set at %d and is unanswered at %d (executed %d times)", t, l.limit, l.armAt, rt.Now(), t.execs)
		return
	}
	if late := t.at - end - t.tol; late > 0 {
		e.Fail(prop, "time-out late", "%v has a limit of %d ns set at %d and was answered (code %x) at %d: %d ns late", t, l.limit, l.armAt, uint32(t.code), t.at, late)
	}
}

var _ = register(&Scenario{Name: "time-outs-multi", Props: []string{"C02"}, Weight: 1, Real: realCore, Stub: stubCore, Run: multiTimeouts})

// whenMark notes when a request is answered.
type whenMark struct {
	iproto.Bookmark
	t *treq
}

func (m *whenMark) Respond(r *iproto.Response) {
	t := m.t
	t.calls++
	t.code, t.at, t.tol = r.Code, rt.Now(), tol()
	t.e.Log("answer %v code=%x", t, uint32(r.Code))
}

// multiTimeouts: requests limited by their group, by themselves, by their
// service; the first limit counts.
func multiTimeouts(e *Env) {
	clockSteps(e)
	hs := e.Stream("h")
	pool := e.Chance(1, 2)
	var deflt, ends int64
	if e.Chance(2, 3) {
		deflt = 1 + e.dur(e.w)
	}
	note := func(d int64) int64 {
		if t := rt.Now() + d; t > ends {
			ends = t
		}
		return d
	}
	var all []*limited
	byMsg := map[iproto.RequestType]*limited{}
	var serv iproto.Service
	if pool {
		serv = iproto.BF{N: 1 + e.N(3), Timeout: time.Duration(deflt)}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			t := byMsg[r.Msg].treq
			t.execs++
			sleep(note(e.dur(hs)))
			t.ended = rt.Now()
			return 0, iproto.Body{1}
		})
	} else {
		p := newLoopPoint(time.Duration(deflt), func(r *iproto.Request) {
			byMsg[r.Msg].execs++
			if hs.Chance(1, 3) {
				return
			}
			d := note(e.dur(hs))
			go func() {
				sleep(d)
				r.RespondBytes(0, []byte{2})
			}()
		})
		iproto.Run(p)
		serv = p
	}
	g := newWg()
	for i := 1 + e.N(3); i > 0; i-- {
		s := e.Stream("g" + string(rune('0'+i)))
		g.add(1)
		rt.GoNamed("group", func() {
			defer g.done()
			var m *iproto.MultiRequest
			if s.Chance(1, 2) {
				m = (&iproto.Context{}).NewMulti()
			} else {
				m = &iproto.MultiRequest{}
			}
			var limit, armAt int64
			if s.Chance(2, 3) {
				armAt = rt.Now()
				if limit = 1 + e.dur(s); deflt > 0 && s.Chance(1, 4) {
					limit = deflt
					m.TimeoutFrom(serv)
				} else {
					m.SetTimeout(time.Duration(limit))
				}
				note(limit)
				if s.Chance(1, 3) {
					m.SetTimeout(time.Duration(1 + e.dur(s)))
				}
			}
			k := 1 + s.N(8)
			for j := 0; j < k; j++ {
				msg := iproto.RequestType(500 + len(all))
				t := &treq{e: e, prop: "C02", n: len(all), msg: msg, id: uint32(j), done: make(chan bool)}
				l := &limited{treq: t, limit: limit, armAt: armAt, made: rt.Now()}
				all = append(all, l)
				byMsg[msg] = l
				r := m.Request(msg, iproto.Body{3})
				t.req = r
				if !r.ChainBookmark(&whenMark{t: t}) {
					t.calls, t.at, t.tol, t.code = 1, rt.Now(), tol(), iproto.RcTimeout
				}
				if s.Chance(1, 3) {
					d := 1 + e.dur(s)
					if l.limit == 0 {
						l.limit, l.armAt = d, rt.Now()
						note(d)
					}
					r.SetTimeout(time.Duration(d))
				}
				if s.Chance(1, 5) {
					sleep(e.dur(s))
				}
				if l.limit == 0 && deflt > 0 {
					l.limit, l.armAt = deflt, rt.Now()
					note(deflt)
				}
				e.Log("send %v limit %d from %d", t, l.limit, l.armAt)
				serv.Send(r)
				e.gap(s)
			}
			rt.GoNamed("collector", func() {
				if s.Chance(1, 2) {
					m.Results()
				} else {
					for range m.Each() {
					}
				}
			})
		})
	}
	g.wait()
	rt.Calm()
	sleep(200 * int64(time.Second))
	if ends > rt.Now() {
		sleep(ends - rt.Now() + int64(time.Second))
	}
	for _, l := range all {
		checkLimit(e, "C02", l, pool)
	}
}
