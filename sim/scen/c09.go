package scen

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// C09: stopping an endpoint in any state.

// rangePoint is a user's endpoint that reads its channel until it is closed.
type rangePoint struct {
	iproto.SimplePoint
	h      func(*iproto.Request)
	exited bool
}

func (p *rangePoint) Loop() {
	for r := range p.ReceiveChan() {
		if r.SetInFly(nil) {
			p.h(r)
		}
	}
	p.exited = true
}

// drainPoint drains its channel by itself when told to exit.
type drainPoint struct {
	iproto.SimplePoint
	h      func(*iproto.Request)
	exited bool
}

func (p *drainPoint) Loop() {
Loop:
	for {
		select {
		case r, ok := <-p.ReceiveChan():
			if !ok {
				break Loop
			}
			if r.SetInFly(nil) {
				p.h(r)
			}
		case <-p.ExitChan():
			break Loop
		}
	}
	for {
		select {
		case r, ok := <-p.ReceiveChan():
			if !ok {
				p.exited = true
				return
			}
			r.ShutDown()
		default:
			p.exited = true
			return
		}
	}
}

var _ = register(&Scenario{Name: "stop", Props: []string{"C09"}, Weight: 1, Real: realCore, Stub: stubCore, Run: stop})

func stop(e *Env) {
	b := newBook(e, "C09")
	hs := e.Stream("h")
	last := int64(0)
	will := func(d int64) int64 {
		if t := rt.Now() + d; t > last {
			last = t
		}
		return d
	}
	stopRet := int64(-1) // when the first stop returned
	after := map[*treq]bool{}
	worked, panicked := map[*treq]bool{}, map[*treq]bool{}
	check := func(t *treq) {
		t.execs++
		t.started = rt.Now()
		if t.execs > 1 {
			e.Fail("C09", "executed twice", "%v", t)
		}
		if after[t] {
			e.Fail("C09", "executed after the stop", "%v was sent after the stop had returned and was executed", t)
		}
		if t.calls > 0 {
			return
		}
	}
	handle := func(r *iproto.Request) {
		t := b.of(r)
		check(t)
		switch hs.N(3) {
		case 0:
			t.offered("handler", 0, []byte{1})
			r.RespondBytes(0, []byte{1})
		case 1:
			sleep(will(e.dur(hs)))
			t.offered("handler", 0, []byte{2})
			r.RespondBytes(0, []byte{2})
		case 2:
			d := will(e.dur(hs))
			go func() {
				sleep(d)
				t.offered("handler", 0, []byte{3})
				r.RespondBytes(0, []byte{3})
			}()
		}
		t.ended = rt.Now()
	}
	mkPool := func(n int) *iproto.ParallelService {
		return iproto.BF{N: n}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			t := b.of(r)
			check(t)
			sleep(will(e.dur(hs)))
			t.ended = rt.Now()
			worked[t] = true
			if hs.Chance(1, 6) {
				t.offered("panic", iproto.RcInternalError, nil)
				panicked[t] = true
				panic("handler")
			}
			t.offered("worker", 0, []byte{4})
			return 0, iproto.Body{4}
		})
	}
	mkChild := func() iproto.EndPoint {
		switch e.N(3) {
		case 0:
			p := newLoopPoint(0, handle)
			p.async = e.Chance(1, 2)
			return p
		case 1:
			p := &drainPoint{h: handle}
			p.SimplePoint.Init(p)
			return p
		default:
			bp := &iproto.BalancerPoint{}
			bp.Init()
			for i := 0; i < 1+e.N(2); i++ {
				bp.AddChild(newLoopPoint(0, handle))
			}
			return bp
		}
	}
	var ep iproto.EndPoint
	exited := func() bool { return true }
	kind := e.N(6)
	slow := kind == 5
	switch kind {
	case 0, 1:
		ep = mkPool(1 + e.N(3))
	case 2:
		p := newLoopPoint(0, handle)
		p.async = e.Chance(1, 2)
		iproto.Run(p)
		ep = p
		exited = func() bool { return p.exited }
	case 3:
		p := &rangePoint{h: handle}
		p.SimplePoint.Init(p)
		iproto.Run(p)
		ep = p
		exited = func() bool { return p.exited }
	case 4:
		p := &drainPoint{h: handle}
		p.SimplePoint.Init(p)
		iproto.Run(p)
		ep = p
		exited = func() bool { return p.exited }
	case 5:
		bp := &iproto.BalancerPoint{}
		bp.Init()
		for i := 0; i < e.N(4); i++ {
			bp.AddChild(mkChild())
		}
		iproto.Run(bp)
		ep = bp
	}
	_ = slow
	stopping := 0
	doStop := func(s *rt.Stream) {
		stopping++
		t0 := rt.Now()
		e.Log("stop")
		ep.Stop()
		e.Log("stopped")
		if rt.Now()-t0 > tol() {
			e.Fail("C09", "stop blocks", "Stop took %d ns", rt.Now()-t0)
		}
		stopping--
		if stopRet < 0 && stopping == 0 {
			stopRet = rt.Now()
		}
	}
	ns := 1 + e.N(3)
	per := 1 + e.N(12)
	if e.Chance(1, 20) {
		per = 1000/ns + e.N(200)
	}
	g := newWg()
	g.add(ns)
	total := ns * per
	stopAt := -1 // stop after so many sends
	if e.Chance(2, 3) {
		stopAt = e.N(total + 1)
	}
	sent := 0
	stops := 1 + e.Weighted(3, 1, 1)
	stopper := func(n int) {
		s := e.Stream("stop" + string(rune('0'+n)))
		g.add(1)
		rt.GoNamed("stopper", func() {
			if n > 0 || stopAt < 0 {
				e.gap(s)
			}
			doStop(s)
			g.done()
		})
	}
	if stopAt < 0 {
		for i := 0; i < stops; i++ {
			stopper(i)
		}
	}
	burst := e.Chance(1, 2)
	for i := 0; i < ns; i++ {
		s := e.Stream("client" + string(rune('0'+i)))
		rt.GoNamed("sender", func() {
			for k := 0; k < per; k++ {
				if sent == stopAt {
					for i := 0; i < stops; i++ {
						stopper(i)
					}
				}
				sent++
				t := b.add(1, nil)
				t.offers = append(t.offers, offer{code: iproto.RcShutdown, who: "stop"})
				if s.Chance(1, 8) {
					t.offers = append(t.offers, offer{code: iproto.RcTimeout, who: "limit"}, offer{code: iproto.RcInternalError, who: "worker gave no answer"})
					t.req.SetTimeout(time.Duration(will(1 + e.dur(s))))
				}
				if stopRet >= 0 {
					after[t] = true
				}
				if stopping > 0 {
					e.Probe("sent during stop")
				}
				t0 := rt.Now()
				t.send(ep)
				if rt.Now()-t0 > tol() {
					e.Fail("C09", "send blocks", "sending %v took %d ns", t, rt.Now()-t0)
				}
				if !burst {
					e.gap(s)
				}
			}
			g.done()
		})
	}
	g.wait()
	if stopAt == total {
		doStop(hs)
	}
	rt.Calm()
	sleep(30 * int64(time.Second))
	for i := 0; i < 20 && last > rt.Now(); i++ {
		sleep(last - rt.Now() + 10*int64(time.Second))
	}
	// one more, long after
	t := b.add(1, nil)
	t.offers = append(t.offers, offer{code: iproto.RcShutdown, who: "stop"})
	after[t] = true
	t.send(ep)
	sleep(int64(time.Second))
	for _, t := range b.all {
		if t.calls == 0 {
			e.Fail("C09", "left unanswered", "%v, executed %d times, stop returned at %d, sent at %d", t, t.execs, stopRet, t.sentAt)
		}
		t.checkOutcome("C09")
		if after[t] && t.code == iproto.RcShutdown {
			e.Probe("sent after stop")
		}
		if worked[t] && (t.code != 0) != panicked[t] {
			e.Fail("C09", "work in progress not answered by its handler", "a worker executed %v until %d (panicked: %v), and it was answered with %x", t, t.ended, panicked[t], uint32(t.code))
		}
		if t.execs > 0 && len(t.offers) < 3 && t.code == iproto.RcShutdown {
			e.Fail("C09", "work in progress not answered by its handler", "%v was executed from %d and answered with shutdown at %d", t, t.started, t.at)
		}
		if t.execs == 0 && t.code == iproto.RcShutdown {
			d := stopRet
			if t.sentAt > d {
				d = t.sentAt
			}
			if t.at > d+t.tol+int64(time.Second) {
				e.Fail("C09", "shutdown late", "%v was sent at %d, stop returned at %d, and it was answered at %d", t, t.sentAt, stopRet, t.at)
			}
		}
	}
	if !exited() {
		e.Fail("C09", "loop left", "the loop of the stopped endpoint has not returned")
	}
}
