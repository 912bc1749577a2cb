package scen

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// C08: the queue of an endpoint.

var _ = register(&Scenario{Name: "queue", Props: []string{"C08"}, Weight: 12, Real: realCore, Stub: stubCore, Run: func(e *Env) { queue(e, false) }})
var _ = register(&Scenario{Name: "queue-long", Props: []string{"C08"}, Weight: 1, Real: realCore, Stub: stubCore, Run: func(e *Env) { queue(e, true) }})

func queue(e *Env, long bool) {
	b := newBook(e, "C08")
	hs := e.Stream("h")
	senders := 1 + e.N(4)
	per := 1 + e.N(20)
	if long {
		per = (1000 + e.N(2300)) / senders
	} else if e.Chance(1, 12) {
		per = 100 + e.N(200)
	}
	type pos struct{ s, k int }
	at := map[*treq]pos{}
	lastK := make([]int, senders)
	for i := range lastK {
		lastK[i] = -1
	}
	arrived, taken := 0, 0
	blockAt := -1
	if e.Chance(1, 2) {
		blockAt = e.N(per*senders + 1)
	}
	blocked := false
	blockFor := int64(1+e.N(10)) * 100 * ms
	p := newLoopPoint(0, func(r *iproto.Request) {
		t := b.of(r)
		taken++
		t.offered("loop", 0, nil)
		r.RespondBytes(0, nil)
	})
	p.useMark = e.Chance(1, 3)
	slow := e.Chance(1, 3)
	p.got = func(r *iproto.Request) {
		t := b.of(r)
		if t == nil {
			e.Fail("C08", "unknown request", "")
			return
		}
		t.execs++
		if t.execs > 1 {
			e.Fail("C08", "arrived twice", "%v reached the loop twice", t)
		}
		if t.calls == 0 {
			x := at[t]
			if x.k <= lastK[x.s] {
				e.Fail("C08", "reordered", "request %d of sender %d reached the loop after its request %d", x.k, x.s, lastK[x.s])
			}
			lastK[x.s] = x.k
		}
		if arrived == blockAt {
			e.Probe("consumer blocked")
			blocked = true
			sleep(blockFor)
			blocked = false
		}
		arrived++
		if slow {
			if hs.Chance(1, 4) {
				sleep(hs.Log(ms))
			}
		}
	}
	iproto.Run(p)
	burst := e.Chance(1, 2)
	expirePct := e.Pick(0, 0, 20, 60)
	g := newWg()
	g.add(senders)
	for i := 0; i < senders; i++ {
		i := i
		s := e.Stream("client" + string(rune('0'+i)))
		rt.GoNamed("sender", func() {
			for k := 0; k < per; k++ {
				t := b.add(1, nil)
				at[t] = pos{i, k}
				if s.N(100) < expirePct {
					if s.Chance(1, 2) {
						t.offers = append(t.offers, offer{code: iproto.RcTimeout, who: "limit"})
						t.req.SetTimeout(time.Duration(1 + e.dur(s)))
					} else {
						t.offers = append(t.offers, offer{code: iproto.RcCanceled, who: "cancel"})
						d := e.dur(s)
						rt.GoNamed("canceler", func() {
							sleep(d)
							t.req.Cancel()
						})
					}
				}
				t0 := rt.Now()
				was := blocked
				t.send(p)
				if rt.Now()-t0 > tol() {
					e.Fail("C08", "send blocks", "sending %v took %d ns (loop blocked %v)", t, rt.Now()-t0, was)
				}
				if blocked {
					e.Probe("sent to a blocked loop")
				}
				if !burst {
					e.gap(s)
				}
			}
			g.done()
		})
	}
	g.wait()
	rt.Calm()
	sleep(2*blockFor + 100*int64(time.Second) + tol())
	if len(b.all) > 1024 {
		e.Probe("more than a row")
	}
	for _, t := range b.all {
		if t.execs == 0 && len(t.offers) == 0 {
			e.Fail("C08", "lost", "%v never reached the loop", t)
		}
		if t.calls == 0 {
			e.Fail("C08", "lost", "%v was neither answered nor given to the loop", t)
		}
		t.checkOutcome("C08")
	}
}
