package scen

import (
	"bytes"
	"errors"
	"runtime"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// C07: a pool of N workers.

type job struct {
	*treq
	must    bool
	code    iproto.RetCode
	body    []byte
	own     bool // the handler answers by itself first
	sent    bool
	waiting bool
	lost    bool // answered while every worker was at something else
	limited bool
	touched bool // somebody else may answer it
}

type poolWatch struct {
	e       *Env
	n       int
	running int
	waiting int
	since   int64 // since when somebody waits and a worker is free
	on      bool
}

func (p *poolWatch) update() {
	c := p.waiting > 0 && p.running < p.n
	if p.on && rt.Now()-p.since > tol() {
		p.e.Fail("C07", "idle worker", "%d requests have been waiting and only %d of %d workers running for %d ns", p.waiting, p.running, p.n, rt.Now()-p.since)
	}
	if c && !p.on {
		p.since = rt.Now()
	}
	p.on = c
}

// settled is update without a change: does it hold?
func (p *poolWatch) settled() {
	if p.on && rt.Now()-p.since > tol() {
		p.e.Fail("C07", "idle worker", "%d requests have been waiting and only %d of %d workers running for %d ns", p.waiting, p.running, p.n, rt.Now()-p.since)
	}
}

var _ = register(&Scenario{Name: "pool", Props: []string{"C07"}, Weight: 1, Real: realCore, Stub: stubCore, Run: pool})

func pool(e *Env) {
	b := newBook(e, "C07")
	jobs := map[*treq]*job{}
	hs := e.Stream("h")
	n := 1 + e.N(4)
	if e.Chance(1, 20) {
		n = 10 + e.N(30)
	}
	w := &poolWatch{e: e, n: n}
	last := int64(0)
	will := func(d int64) int64 {
		if t := rt.Now() + d; t > last {
			last = t
		}
		return d
	}
	var deflt int64
	if e.Chance(1, 3) {
		deflt = 1 + e.dur(e.w)
	}
	instant := e.Chance(1, 3)
	panicPct := e.Pick(0, 20, 60)
	conf := n
	if n == 1 && e.Chance(1, 6) {
		conf = 0 // not set: one
	}
	p := iproto.BF{N: conf, Timeout: time.Duration(deflt)}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		j := jobs[b.of(r)]
		if j == nil {
			e.Fail("C07", "unknown request", "")
			return 0, nil
		}
		j.execs++
		if j.execs > 1 {
			e.Fail("C07", "executed twice", "%v", j)
		}
		if j.lost {
			e.Fail("C07", "executed after its answer", "%v was answered with %x at %d while all %d workers were at other requests, and was executed at %d", j, uint32(j.treq.code), j.at, n, rt.Now())
		}
		if j.waiting {
			j.waiting = false
			w.waiting--
		}
		w.running++
		e.Log("start %v, %d running", j, w.running)
		if w.running > n {
			e.Fail("C07", "too many workers", "%d handlers of a pool of %d run at once", w.running, n)
		}
		w.update()
		w.since = rt.Now()
		j.started = rt.Now()
		defer func() {
			j.ended = rt.Now()
			w.running--
			e.Log("end %v", j)
			w.update()
		}()
		if !instant {
			sleep(will(e.dur(hs)))
		}
		j.code, j.body = userCodes[hs.N(len(userCodes))], mkBody(uint32(j.n), 3, hs.N(30))
		if hs.N(100) < panicPct {
			j.code, j.body = iproto.RcInternalError, nil
			j.must = true
			k := hs.N(7)
			if k < 5 {
				j.offered("panic", j.code, j.body)
			}
			switch k {
			case 0:
				panic("string")
			case 1:
				panic(errors.New("error"))
			case 2:
				var m map[string]int
				m["x"] = 1
			case 3:
				runtime.Goexit()
			case 4: // a value that cannot be encoded
				return 0, make(chan int)
			case 5, 6:
				j.code, j.body = 0, []byte{8}
				j.offered("handler", j.code, j.body)
				r.RespondBytes(0, []byte{8})
				if k == 5 {
					panic("after the answer")
				}
				return 1, iproto.Body{9}
			}
		}
		j.must = true
		switch hs.N(4) {
		case 0:
			j.body = []byte{7, 0, 0, 0}
			j.offered("handler", j.code, j.body)
			return j.code, uint32(7)
		case 1:
			j.code = []iproto.RetCode{iproto.RcTimeout, iproto.RcCanceled, iproto.RcIOError}[hs.N(3)]
		}
		j.offered("handler", j.code, j.body)
		return j.code, iproto.Body(j.body)
	})
	var serv iproto.Service = p
	if e.Chance(1, 6) {
		p2 := iproto.BF{N: 1} // another pool must not matter
		p2.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) { return 0, nil })
	}
	g := newWg()
	ns := 1 + e.N(3)
	per := 1 + e.N(12)
	if e.Chance(1, 30) {
		per = 100 + e.N(300)
	}
	g.add(ns)
	for i := 0; i < ns; i++ {
		s := e.Stream("client" + string(rune('0'+i)))
		rt.GoNamed("sender", func() {
			for k := 0; k < per; k++ {
				t := b.add(1, mkBody(1, uint32(k), 9))
				j := &job{treq: t}
				jobs[t] = j
				t.onResp = func() {
					if j.waiting {
						j.waiting = false
						w.waiting--
						if j.execs == 0 && w.running == n {
							j.lost = true
							e.Probe("answered while it could not start")
						}
						w.update()
					}
				}
				if deflt > 0 {
					j.limited = true
					will(deflt)
				}
				if s.Chance(1, 4) {
					j.limited = true
					t.req.SetTimeout(time.Duration(will(1 + e.dur(s))))
				}
				if j.limited {
					t.offers = append(t.offers, offer{code: iproto.RcTimeout, who: "limit"})
				}
				if s.Chance(1, 4) {
					t.offers = append(t.offers, offer{code: iproto.RcCanceled, who: "cancel"})
					j.touched = true
					d := e.dur(s)
					rt.GoNamed("canceler", func() {
						sleep(d)
						t.req.Cancel()
					})
				}
				t.send(serv)
				j.sent = true
				if t.calls == 0 && j.execs == 0 {
					j.waiting = true
					w.waiting++
					w.update()
				}
				e.gap(s)
			}
			g.done()
		})
	}
	g.wait()
	rt.Calm()
	sleep(5 * int64(time.Second))
	for i := 0; i < 3000 && w.waiting > 0; i++ {
		w.settled()
		sleep(int64(time.Second))
	}
	if last > rt.Now() {
		sleep(last - rt.Now() + 5*int64(time.Second))
	}
	w.settled()
	if w.running != 0 || w.waiting != 0 {
		e.Fail("C07", "requests left waiting", "%d handlers running, %d requests waiting at the end", w.running, w.waiting)
	}
	for _, t := range b.all {
		j := jobs[t]
		if t.calls == 0 {
			e.Fail("C07", "never answered", "%v executed %d times", t, t.execs)
		}
		t.checkOutcome("C07")
		if t.execs == 0 && !j.limited && !j.touched {
			e.Fail("C07", "answered unexecuted", "%v was answered with %x and not executed", t, uint32(t.code))
		}
		if t.execs > 0 && !j.touched && !(j.limited && j.code == iproto.RcTimeout && t.code == j.code) && (t.code != j.code || !bytes.Equal(t.rbody, j.body)) {
			e.Fail("C07", "wrong answer", "the handler of %v answered %x %s, the caller got %x %s", t, uint32(j.code), short(j.body), uint32(t.code), short(t.rbody))
		}
	}
}
