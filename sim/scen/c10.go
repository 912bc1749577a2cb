package scen

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// C10: a balancer and its children.

type kid struct {
	n       int
	what    string
	ep      iproto.EndPoint
	cap     int // requests it serves at a time
	busy    int
	loops   int
	exits   int
	addedAt int64 // when AddChild returned
	added   bool
	served  int
	nested  []*kid
}

// childPoint is a serving child.
type childPoint struct {
	iproto.SimplePoint
	k *kid
	e *Env
	h func(*kid, *iproto.Request)
	// patient: only the exit signal ends its loop
	patient bool
}

func (p *childPoint) Loop() {
	p.k.loops++
	if p.k.loops > 1 {
		p.e.Fail("C10", "child run twice", "child %d", p.k.n)
	}
	for {
		select {
		case r, ok := <-p.ReceiveChan():
			if !ok {
				if p.patient {
					<-p.ExitChan()
				}
				p.k.exits++
				return
			}
			if r.SetInFly(nil) {
				p.h(p.k, r)
			}
		case <-p.ExitChan():
			p.k.exits++
			return
		}
	}
}

var _ = register(&Scenario{Name: "balancer", Props: []string{"C10"}, Weight: 1, Real: realCore, Stub: stubCore, Run: balancer})

func balancer(e *Env) {
	b := newBook(e, "C10")
	hs := e.Stream("h")
	last := int64(0)
	will := func(d int64) int64 {
		if t := rt.Now() + d; t > last {
			last = t
		}
		return d
	}
	var kids []*kid
	waiting := map[*treq]bool{}
	running := false // Run has returned
	stopped := false
	var since int64
	on := false
	// an idle child and a waiting request
	look := func() {
		c := false
		if running && !stopped && len(waiting) > 0 {
			for _, k := range kids {
				if k.added && k.busy < k.cap {
					c = true
				}
			}
		}
		if on && rt.Now()-since > tol() {
			e.Fail("C10", "idle child", "%d requests are waiting for %d ns while a child is idle", len(waiting), rt.Now()-since)
		}
		if c && !on {
			since = rt.Now()
		}
		on = c
	}
	long := e.Chance(1, 2)
	start := func(k *kid, t *treq) {
		t.execs++
		if t.execs > 1 {
			e.Fail("C10", "taken twice", "%v", t)
		}
		delete(waiting, t)
		k.busy++
		k.served++
		look()
		since = rt.Now()
	}
	work := func() {
		if long && hs.Chance(1, 2) {
			sleep(will(int64(1+hs.N(20)) * int64(time.Second)))
		} else {
			sleep(will(e.dur(hs)))
		}
	}
	serve := func(k *kid, r *iproto.Request) {
		t := b.of(r)
		start(k, t)
		work()
		k.busy--
		look()
		t.offered("child", 0, []byte{byte(k.n)})
		r.RespondBytes(0, []byte{byte(k.n)})
	}
	var mk func(depth int) *kid
	mk = func(depth int) *kid {
		k := &kid{n: len(kids), cap: 1}
		switch x := e.N(5); {
		case x < 3:
			k.what = "loop"
			p := &childPoint{k: k, e: e, h: serve, patient: e.Chance(1, 3)}
			p.SimplePoint.Init(p)
			k.ep = p
			kids = append(kids, k)
		case x == 3 || depth > 0:
			// a pool is running by itself, so as a child it comes wrapped
			k.what = "async loop"
			k.cap = 1 + e.N(3)
			sem := make(chan bool, k.cap)
			p := &childPoint{k: k, e: e}
			p.h = func(k *kid, r *iproto.Request) {
				start(k, b.of(r))
				sem <- true
				go func() {
					work()
					k.busy--
					<-sem
					t := b.of(r)
					t.offered("child", 0, []byte{byte(k.n)})
					r.RespondBytes(0, []byte{byte(k.n)})
				}()
			}
			k.cap = 0 // its loop may wait for its own slots
			p.SimplePoint.Init(p)
			k.ep = p
			kids = append(kids, k)
		default:
			k.what = "balancer"
			k.cap = 0
			bp := &iproto.BalancerPoint{}
			bp.Init()
			k.ep = bp
			kids = append(kids, k)
			for i := 0; i < e.N(3); i++ {
				c := mk(depth + 1)
				bp.AddChild(c.ep)
				c.added = true
				k.nested = append(k.nested, c)
			}
		}
		return k
	}
	bp := &iproto.BalancerPoint{SimplePoint: iproto.SimplePoint{}}
	bp.Init()
	add := func() {
		k := mk(0)
		for _, c := range k.nested {
			c.added = false
		}
		e.Log("add child %d (%s)", k.n, k.what)
		bp.AddChild(k.ep)
		k.added, k.addedAt = true, rt.Now()
		for _, c := range k.nested {
			c.added = true
		}
		look()
	}
	for i := 0; i < e.N(4); i++ {
		add()
	}
	g := newWg()
	adders := e.N(3)
	for i := 0; i < adders; i++ {
		s := e.Stream("add" + string(rune('0'+i)))
		g.add(1)
		rt.GoNamed("adder", func() {
			if s.Chance(1, 2) {
				e.gap(s)
			}
			for k := 0; k < 1+s.N(3); k++ {
				if len(kids) < 60 {
					add()
				}
				e.gap(s)
			}
			g.done()
		})
	}
	iproto.Run(bp)
	running = true
	look()
	stopIt := e.Chance(1, 3)
	stopRet := int64(-1)
	ns := 1 + e.N(3)
	per := 1 + e.N(12)
	if e.Chance(1, 20) {
		per = 100
	}
	g.add(ns)
	for i := 0; i < ns; i++ {
		s := e.Stream("client" + string(rune('0'+i)))
		rt.GoNamed("sender", func() {
			for k := 0; k < per; k++ {
				t := b.add(1, nil)
				if stopIt {
					t.offers = append(t.offers, offer{code: iproto.RcShutdown, who: "stop"})
				}
				t.onResp = func() {
					delete(waiting, t)
					look()
				}
				t.send(bp)
				if t.execs == 0 && t.calls == 0 {
					waiting[t] = true
					look()
				}
				e.gap(s)
			}
			g.done()
		})
	}
	if stopIt {
		s := e.Stream("stop")
		g.add(1)
		rt.GoNamed("stopper", func() {
			e.gap(s)
			e.gap(s)
			stopped = true
			on = false
			e.Log("stop")
			bp.Stop()
			stopRet = rt.Now()
			g.done()
		})
	}
	g.wait()
	rt.Calm()
	// without a child that serves nothing can be taken
	serving := func() bool {
		for _, k := range kids {
			if k.what != "balancer" && k.added {
				return true
			}
		}
		return false
	}
	if !serving() && !stopped {
		k := mk(1)
		bp.AddChild(k.ep)
		k.added = true
		look()
	}
	for i := 0; i < 4000; i++ {
		look()
		sleep(int64(time.Second))
		if len(waiting) == 0 && last < rt.Now() {
			break
		}
	}
	sleep(60 * int64(time.Second))
	look()
	for _, t := range b.all {
		if t.calls == 0 {
			e.Fail("C10", "lost", "%v was never answered (taken %d times, stopped %v)", t, t.execs, stopped)
		}
		t.checkOutcome("C10")
		if !stopIt && t.execs != 1 {
			e.Fail("C10", "not taken once", "%v was taken %d times", t, t.execs)
		}
	}
	for _, k := range kids {
		if k.what == "balancer" || !k.added {
			continue
		}
		if !stopped && k.loops != 1 {
			e.Fail("C10", "child not run", "child %d (%s, added at %d) was run %d times", k.n, k.what, k.addedAt, k.loops)
		}
	}
	if stopped {
		for _, k := range kids {
			if k.loops > k.exits {
				e.Fail("C10", "child not stopped", "child %d (%s) still runs %d s after the stop of the balancer", k.n, k.what, (rt.Now()-stopRet)/1e9)
			}
		}
		return
	}
	// every child takes part: block as many as there are but one
	var idle []*kid
	for _, k := range kids {
		if k.what == "loop" {
			idle = append(idle, k)
		}
	}
	release := make(chan bool)
	held := 0
	heldBy := map[*kid]bool{}
	serve2 := func(k *kid, r *iproto.Request) {
		t := b.of(r)
		t.execs++
		held++
		if heldBy[k] {
			e.Fail("C10", "child serves two at a time", "child %d", k.n)
		}
		heldBy[k] = true
		<-release
		t.offered("child", 0, nil)
		r.RespondBytes(0, nil)
	}
	for _, k := range kids {
		if p, ok := k.ep.(*childPoint); ok {
			p.h = serve2
		}
	}
	n := 0
	for _, k := range kids {
		if k.what != "balancer" {
			n++
		}
	}
	for i := 0; i < n; i++ {
		b.add(2, nil).send(bp)
	}
	sleep(60 * int64(time.Second))
	if held != n {
		e.Fail("C10", "child does not take part", "%d children are idle, %d requests were sent, and after 60 s %d of them are taken", n, n, held)
	}
	close(release)
	bp.Stop()
	sleep(60 * int64(time.Second))
	for _, k := range kids {
		if k.loops > k.exits {
			e.Fail("C10", "child not stopped", "child %d (%s) still runs 60 s after the stop of the balancer", k.n, k.what)
		}
	}
	if len(idle) > 3 {
		e.Probe("many children")
	}
}
