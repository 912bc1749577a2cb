package scen

import (
	"fmt"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// C06: a multi-request yields exactly one response per request, whatever
// answers, limits and cancellations race, and finishes when the last is in.

type group struct {
	n       int
	reqs    []*cxReq
	limit   int64
	armAt   int64
	cancels int
	cancAt  int64 // when the first cancel returned
	began   int64 // when the collection began
	end     int64
	done    bool
	tol     int64
	how     string
	lastOff int64
	dead    bool // a cancel has returned
}

var _ = register(&Scenario{Name: "multi", Props: []string{"C06"}, Weight: 1, Real: realCore, Stub: stubCore, Run: multi})

func multi(e *Env) {
	byMsg := map[iproto.RequestType]*cxReq{}
	var all []*cxReq
	var groups []*group
	hs := e.Stream("h")
	last := int64(0)
	will := func(d int64) int64 {
		if t := rt.Now() + d; t > last {
			last = t
		}
		return d
	}
	gOf := map[*cxReq]*group{}
	quick := e.Chance(1, 2) // answers all come at about the same time
	code := func() iproto.RetCode { return userCodes[hs.N(len(userCodes))] }
	handle := func(r *iproto.Request) {
		q := byMsg[r.Msg]
		q.execs++
		if q.execs > 1 {
			e.Fail("C06", "request served twice", "%v", q)
		}
		answer := func() {
			c, b := code(), mkBody(uint32(q.n), 5, hs.N(30))
			q.offered("handler", c, b)
			r.RespondBytes(c, b)
		}
		k := hs.N(6)
		if quick {
			k = 2 + hs.N(3)
		}
		switch k {
		case 0:
		case 1:
			d := will(e.dur(hs))
			go func() {
				sleep(d)
				answer()
			}()
		case 2:
			answer()
		case 3:
			go answer()
		case 4, 5:
			go func() {
				for i := 0; i < hs.N(4); i++ {
					rt.Gosched()
				}
				answer()
			}()
		}
	}
	var deflt int64
	if e.Chance(1, 4) {
		deflt = 1 + e.dur(e.w)
	}
	kind := e.N(4)
	var serv iproto.Service
	switch kind {
	case 0:
		serv, deflt = iproto.SF(handle), 0
	case 1:
		p := newLoopPoint(time.Duration(deflt), handle)
		p.async = e.Chance(1, 2)
		iproto.Run(p)
		serv = p
	case 2, 3:
		serv = iproto.BF{N: 1 + e.N(8), Timeout: time.Duration(deflt)}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			q := byMsg[r.Msg]
			q.execs++
			if q.execs > 1 {
				e.Fail("C06", "request served twice", "%v", q)
			}
			q.started = rt.Now()
			if !quick && hs.Chance(1, 2) {
				sleep(will(e.dur(hs)))
			}
			q.ended = rt.Now()
			if hs.Chance(1, 10) {
				q.offered("panic", iproto.RcInternalError, nil)
				panic("handler")
			}
			c, b := code(), mkBody(uint32(q.n), 5, hs.N(30))
			q.offered("worker", c, b)
			return c, iproto.Body(b)
		})
	}
	if e.Chance(1, 5) {
		serv = iproto.StatWrap(serv, func(*iproto.Request, time.Duration) {})
	}
	sp := newSendSpy(serv)
	serv = sp
	ng := 1 + e.N(3)
	w := newWg()
	for i := 0; i < ng; i++ {
		s := e.Stream("g" + string(rune('0'+i)))
		g := &group{n: i}
		groups = append(groups, g)
		w.add(1)
		rt.GoNamed("collector", func() {
			var cx *iproto.Context
			var m *iproto.MultiRequest
			rounds := 1
			if s.Chance(1, 2) {
				cx = &iproto.Context{}
				m = cx.NewMulti()
			} else {
				m = &iproto.MultiRequest{}
			}
			_ = rounds
			k := s.N(9)
			if s.Chance(1, 8) {
				k = 10 + s.N(55)
				if s.Chance(1, 8) {
					k = 100 + s.N(250)
				}
			}
			setLimit := func() {
				g.armAt = rt.Now()
				if s.Chance(1, 4) && deflt > 0 {
					g.limit = deflt
					will(g.limit)
					m.TimeoutFrom(serv)
				} else {
					g.limit = 1 + e.dur(s)
					will(g.limit)
					m.SetTimeout(time.Duration(g.limit))
				}
				e.Log("group %d limited to %d", g.n, g.limit)
				if s.Chance(1, 4) {
					m.SetTimeout(1) // only the first counts
				}
			}
			when := -1
			if s.Chance(1, 2) {
				when = 0
				if s.Chance(1, 3) {
					when = s.N(k + 1)
				}
			}
			for j := 0; j < s.N(3); j++ {
				w.add(1)
				rt.GoNamed("canceler", func() {
					if s.Chance(1, 2) {
						e.gap(s)
					} else {
						for l := 0; l < s.N(20); l++ {
							rt.Gosched()
						}
					}
					if s.Chance(1, 2) {
						w.done()
						return
					}
					g.cancels++
					e.Log("cancel group %d", g.n)
					if cx != nil && s.Chance(1, 2) {
						cx.Cancel()
					} else {
						m.Cancel()
						g.dead = true
					}
					e.Log("cancelled group %d", g.n)
					if g.cancAt == 0 {
						g.cancAt = rt.Now()
					}
					w.done()
				})
			}
			for j := 0; j < k; j++ {
				if j == when {
					setLimit()
				}
				q := &cxReq{treq: &treq{e: e, prop: "C06", n: len(all), done: make(chan bool)}}
				q.msg = iproto.RequestType(7000 + q.n)
				gOf[q] = g
				all = append(all, q)
				byMsg[q.msg] = q
				q.id = uint32(j)
				g.reqs = append(g.reqs, q)
				q.made = rt.Now()
				dead := g.dead
				switch s.N(4) {
				case 0: // never sent
					if s.Chance(1, 4) {
						q.req = m.Request(q.msg, nil)
						if g.limit == 0 {
							// only an answer can finish it
							if q.req.SetPending() && q.req.SetInFly(nil) {
								q.offered("self", 0, []byte{1})
								q.req.RespondBytes(0, []byte{1})
							}
						}
						break
					}
					fallthrough
				case 1:
					q.req = m.Request(q.msg, uint32(4))
					if s.Chance(1, 4) {
						e.gap(s)
					}
					serv.Send(q.req)
				case 2:
					q.req = m.Send(serv, rawData{q.msg, iproto.Body{3}})
					sp.sent(e, "C06", q.req, q.msg)
				default:
					q.req = m.SendMsgBody(serv, q.msg, iproto.Body{3})
					sp.sent(e, "C06", q.req, q.msg)
				}
				q.madeEnd = rt.Now()
				if dead && !q.req.Performed() {
					e.Fail("C06", "request of a cancelled group not cancelled", "%v was issued through group %d after its cancel had returned, and is not cancelled", q, g.n)
				}
				if s.Chance(1, 10) {
					e.gap(s)
				}
			}
			if when == k {
				setLimit()
			}
			if s.Chance(1, 4) {
				e.gap(s)
			}
			g.began = rt.Now()
			take := func(res *iproto.Response) {
				if res == nil {
					e.Fail("C06", "nil response", "group %d", g.n)
					return
				}
				if int(res.Id) >= len(g.reqs) {
					e.Fail("C06", "response of nobody", "group %d got a response with id %d", g.n, res.Id)
					return
				}
				g.reqs[res.Id].Respond(res)
			}
			n := 0
			if s.Chance(1, 2) {
				g.how = "Each"
				for res := range m.Each() {
					take(res)
					n++
					if s.Chance(1, 20) {
						e.gap(s)
					}
				}
			} else {
				g.how = "Results"
				l := m.Results()
				if s.Chance(1, 3) {
					old := append(iproto.MultiResponse(nil), l...)
					ids := make([]uint32, len(old))
					for i, res := range old {
						if res != nil {
							ids[i] = res.Id
						}
					}
					l = l.Sort()
					for i, res := range old {
						if res != nil && res.Id != ids[i] {
							e.Fail("C06", "sorting changed a response", "a response of group %d with id %d has id %d after sorting", g.n, ids[i], res.Id)
						}
					}
					for i, res := range l {
						if res != nil && int(res.Id) != i {
							e.Fail("C06", "sorted wrongly", "response %d of the sorted list of group %d has id %d", i, g.n, res.Id)
						}
					}
				}
				for _, res := range l {
					take(res)
					n++
				}
			}
			g.done = true
			g.end, g.tol = rt.Now(), tol()
			e.Log("group %d collected %d of %d", g.n, n, k)
			if n != k {
				e.Fail("C06", "wrong number of responses", "group %d of %d requests yielded %d responses by %s", g.n, k, n, g.how)
			}
			if cx != nil {
				ok := waitFor(go_("waitall", cx.WaitAll), int64(time.Second)+tol())
				if !ok {
					e.Fail("C06", "finished group holds its context", "group %d is finished and WaitAll of its context does not return", g.n)
				}
			}
			w.done()
		})
	}
	sleep(10 * int64(time.Second))
	rt.Calm()
	sleep(100 * int64(time.Second))
	if last > rt.Now() {
		sleep(last - rt.Now() + 10*int64(time.Second))
	}
	for _, g := range groups {
		open, lastAns := 0, g.began
		for _, q := range g.reqs {
			if q.req == nil {
				continue
			}
			if !q.req.Performed() {
				open++
			}
			if q.calls == 0 {
				continue
			}
			if q.at > lastAns {
				lastAns = q.at
			}
			extra := []iproto.RetCode{}
			if g.cancels > 0 {
				extra = append(extra, iproto.RcCanceled)
			}
			if g.limit > 0 || deflt > 0 {
				extra = append(extra, iproto.RcTimeout)
				if kind >= 2 && q.execs > 0 {
					extra = append(extra, iproto.RcInternalError)
				}
			}
			q.checkOutcome("C06", extra...)
			if q.code == iproto.RcTimeout && deflt == 0 && q.at < g.armAt+g.limit {
				e.Fail("C06", "timed out early", "%v of group %d was timed out at %d, the group's limit of %d was set at %d", q, g.n, q.at, g.limit, g.armAt)
			}
		}
		if !g.done {
			if open == 0 {
				e.Fail("C06", "group hangs", "all %d requests of group %d are answered, and %s does not finish: %s", len(g.reqs), g.n, g.how, fmt.Sprint(rt.Now()))
			}
			if g.limit > 0 || g.cancels > 0 {
				e.Fail("C06", "limited or cancelled group hangs", "group %d (limit %d set at %d, %d cancels) has %d of %d requests unanswered at %d", g.n, g.limit, g.armAt, g.cancels, open, len(g.reqs), rt.Now())
			}
			e.Probe("group left open")
			continue
		}
		if g.end > g.armAt+g.limit+g.tol && g.limit > 0 && g.how == "Results" {
			// nobody but a worker may have kept it
			end := g.armAt + g.limit
			if g.began > end {
				end = g.began
			}
			for _, q := range g.reqs {
				if q.ended > end {
					end = q.ended
				}
			}
			if g.end > end+g.tol {
				e.Fail("C06", "limited group late", "group %d had a limit of %d set at %d, was collected from %d and finished at %d", g.n, g.limit, g.armAt, g.began, g.end)
			}
		}
		if g.cancAt > 0 && g.how == "Results" {
			end := g.cancAt
			if g.began > end {
				end = g.began
			}
			if g.end > end+g.tol {
				e.Fail("C06", "cancelled group late", "group %d was cancelled at %d, collected from %d and finished at %d", g.n, g.cancAt, g.began, g.end)
			}
		}
		e.Probe("groups finished")
	}
}
