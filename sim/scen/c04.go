package scen

import (
	"fmt"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// C04: cancelling or expiring a context reaches everything made through it,
// whenever it was made, and nothing else.

// node is a context and what is known of it.
type node struct {
	n        int
	cx       *iproto.Context
	parent   *node
	first    string // the call that decides the state, if one was over before any other began
	begun    int    // cancel and expire calls begun
	beginAt  int64  // when the first of them began
	finAt    int64  // when the first of them returned
	fin      bool
	busy     int  // cancel and expire calls going on
	closed   bool // released with Done: cancelling the parent need not reach it
	closedAt int64
	state    iproto.CxState
	seen     bool
	pool     *treq // the request it belongs to, if it is a worker's
}

func (n *node) String() string { return fmt.Sprintf("context %d", n.n) }

// touched: a cancel or expire of it or of a context above it has begun.
func (n *node) touched() bool {
	for x := n; x != nil; x = x.parent {
		if x.begun > 0 || x.pool != nil {
			return true
		}
	}
	return false
}

// finished returns when it was certainly finished: the earliest return of a
// cancel or expire of itself or of a context above it.
func (n *node) finished() (at int64, ok bool) {
	detached := int64(1) << 62
	for x := n; x != nil; x = x.parent {
		if x.fin && x.finAt <= detached && (!ok || x.finAt < at) {
			at, ok = x.finAt, true
		}
		if x.closed && x.closedAt < detached {
			detached = x.closedAt
		}
	}
	return
}

type cxReq struct {
	*treq
	nd      *node
	made    int64 // when its creation began
	madeEnd int64
	after   bool // made after the context was finished by a call on itself
	multi   *cxMulti
}

type cxMulti struct {
	nd     *node
	n      int
	k      int
	made   int64
	doneAt int64
	done   bool
	tol    int64
	reqs   []*cxReq
}

type cxWorld struct {
	e     *Env
	b     *book
	nodes []*node
	reqs  []*cxReq
	byMsg map[iproto.RequestType]*cxReq
	multi []*cxMulti
	hs    *rt.Stream
	serv  iproto.Service
	sp    *sendSpy
	last  int64 // no handler acts after this
	prop  string
}

func (x *cxWorld) node(cx *iproto.Context, parent *node) *node {
	n := &node{n: len(x.nodes), cx: cx, parent: parent}
	x.nodes = append(x.nodes, n)
	return n
}

func (x *cxWorld) will(d int64) int64 {
	if t := rt.Now() + d; t > x.last {
		x.last = t
	}
	return d
}

func (x *cxWorld) handle(r *iproto.Request) {
	q := x.byMsg[r.Msg]
	q.execs++
	answer := func() {
		q.offered("handler", 0, []byte{1})
		r.RespondBytes(0, []byte{1})
	}
	switch x.hs.N(5) {
	case 0, 1:
	case 2:
		answer()
	case 3, 4:
		d := x.will(x.e.dur(x.hs))
		go func() {
			sleep(d)
			answer()
		}()
	}
}

// note makes the record of a request about to be created.
func (x *cxWorld) note(nd *node) *cxReq {
	q := &cxReq{treq: &treq{e: x.e, prop: x.prop, n: len(x.reqs), done: make(chan bool)}, nd: nd}
	q.msg = iproto.RequestType(5000 + q.n)
	x.reqs = append(x.reqs, q)
	x.byMsg[q.msg] = q
	q.made = rt.Now()
	for p := nd; p != nil; p = p.parent {
		if p == nd && p.fin {
			q.after = true
		}
	}
	q.offers = append(q.offers, offer{code: iproto.RcCanceled, who: "cancel"})
	return q
}

// follow takes the responses of a request off its channel.
func (q *cxReq) follow(r *iproto.Request, ch <-chan *iproto.Response) {
	q.req = r
	q.id = r.Id
	q.madeEnd = rt.Now()
	if q.after {
		if !r.Performed() {
			q.e.Fail(q.prop, "request of a finished context alive", "%v was made through %v after it was cancelled or expired, and is not cancelled", q, q.nd)
		}
		q.e.Probe("made after cancel")
	}
	rt.GoNamed("reader", func() {
		for res := range ch {
			q.Respond(res)
		}
	})
}

// op does one random thing with the context.
func (x *cxWorld) op(nd *node, s *rt.Stream, depth int, g *wg) {
	e := x.e
	switch s.Weighted(8, 2, 3, 2, 1) {
	case 4:
		x.call(nd, s)
	case 0:
		q := x.note(nd)
		switch s.N(4) {
		case 0:
			r, ch := nd.cx.SendMsgBody(x.serv, q.msg, iproto.Body{1, 2})
			x.sp.sent(e, x.prop, r, q.msg)
			q.follow(r, ch)
		case 3:
			r, ch := nd.cx.Send(x.serv, rawData{q.msg, iproto.Body{1, 2}})
			x.sp.sent(e, x.prop, r, q.msg)
			q.follow(r, ch)
		case 1:
			r, ch := nd.cx.NewRequest(q.msg, uint32(7))
			q.follow(r, ch)
			e.gap(s)
			x.serv.Send(r)
		case 2: // never sent anywhere
			r, ch := nd.cx.NewRequest(q.msg, nil)
			q.follow(r, ch)
		}
	case 1:
		m := &cxMulti{nd: nd, n: len(x.multi), made: rt.Now()}
		x.multi = append(x.multi, m)
		mr := nd.cx.NewMulti()
		m.k = s.N(20)
		for i := 0; i < m.k; i++ {
			q := x.note(nd)
			q.multi = m
			m.reqs = append(m.reqs, q)
			if s.Chance(1, 4) {
				q.req = mr.Request(q.msg, iproto.Body{3})
			} else if s.Chance(1, 3) {
				q.req = mr.Send(x.serv, rawData{q.msg, iproto.Body{3}})
				x.sp.sent(e, x.prop, q.req, q.msg)
			} else {
				q.req = mr.SendMsgBody(x.serv, q.msg, iproto.Body{3})
				x.sp.sent(e, x.prop, q.req, q.msg)
			}
			q.id = q.req.Id
			q.madeEnd = rt.Now()
			if s.Chance(1, 8) {
				e.gap(s)
			}
		}
		g.add(1)
		m.made = rt.Now()
		each := s.Chance(1, 2)
		rt.GoNamed("multi", func() {
			if each {
				for res := range mr.Each() {
					m.reqs[res.Id].Respond(res)
				}
			} else {
				for _, res := range mr.Results() {
					m.reqs[res.Id].Respond(res)
				}
			}
			m.done = true
			m.doneAt, m.tol = rt.Now(), tol()
			g.done()
		})
	case 2:
		if depth >= 3 {
			return
		}
		var kid *node
		run := func(cx *iproto.Context) {
			n := s.N(4)
			for i := 0; i < n; i++ {
				x.op(kid, s, depth+1, g)
				e.gap(s)
			}
			if s.Chance(1, 2) { // goes on regardless of a cancel
				sleep(x.will(e.dur(s)))
			}
		}
		switch s.N(2) {
		case 0:
			cx, ok := nd.cx.Child()
			kid = x.node(cx, nd)
			if !ok && !nd.touched() {
				e.Fail(x.prop, "child refused", "%v is alive and refused a child", nd)
			}
			if ok && s.Chance(1, 2) {
				g.add(1)
				rt.GoNamed("kid", func() {
					run(cx)
					kid.closed, kid.closedAt = true, rt.Now()
					cx.Done()
					g.done()
				})
			} else {
				run(cx)
				if s.Chance(1, 2) {
					kid.closed, kid.closedAt = true, rt.Now()
					cx.Done()
				}
			}
		case 1:
			kid = x.node(nil, nd)
			g.add(1)
			over := false
			kid.cx = nd.cx.Go(func(cx *iproto.Context) {
				kid.cx = cx
				over = true
				run(cx)
				kid.closed, kid.closedAt = true, rt.Now()
				g.done()
			})
			if !kid.cx.Alive() && nd.touched() {
				// it was not run, or is cancelled by now
				rt.GoNamed("norun", func() {
					sleep(1000 * int64(time.Second))
					if !over {
						g.done()
					}
				})
			}
		}
	case 3:
		e.gap(s)
	}
}

// call makes a request to a service that answers and waits for the answer.
func (x *cxWorld) call(nd *node, s *rt.Stream) {
	e := x.e
	_, fin := nd.finished()
	wait := x.will(e.dur(s))
	lazy := s.Chance(1, 2)
	serv := iproto.SF(func(r *iproto.Request) {
		if lazy {
			go func() {
				sleep(wait)
				r.RespondBytes(0, []byte{4, 5})
			}()
			return
		}
		r.RespondBytes(0, []byte{4, 5})
	})
	var res *iproto.Response
	msg := iproto.RequestType(4900)
	if s.Chance(1, 2) {
		res = nd.cx.CallMsgBody(serv, msg, iproto.Body{1})
	} else {
		res = nd.cx.Call(serv, rawData{msg, iproto.Body{1}})
	}
	switch {
	case res == nil || res.Msg != msg:
		e.Fail(x.prop, "call got another response", "a call through %v got %+v", nd, res)
	case res.Code == iproto.RcCanceled:
		if !nd.touched() {
			e.Fail(x.prop, "cancelled for nothing", "a call through %v was cancelled, although neither it nor a context above it was", nd)
		}
	case res.Code != 0 || string(res.Body) != string([]byte{4, 5}):
		e.Fail(x.prop, "call got a wrong response", "a call through %v got %+v", nd, res)
	case fin:
		e.Fail(x.prop, "request of a finished context alive", "a call was made through %v after it was cancelled or expired, and was not cancelled", nd)
	}
}

// finish cancels or expires a context.
func (x *cxWorld) finish(nd *node, s *rt.Stream) {
	e := x.e
	what := "cancel"
	if s.Chance(1, 2) {
		what = "expire"
	}
	alone := nd.begun == 0
	if alone {
		nd.beginAt = rt.Now()
		for p := nd.parent; p != nil; p = p.parent {
			if p.touched() {
				alone = false
			}
		}
	}
	nd.begun++
	nd.busy++
	mine := nd.begun
	e.Log("%s %v", what, nd)
	t0 := rt.Now()
	if what == "cancel" {
		nd.cx.Cancel()
	} else {
		nd.cx.Expire()
	}
	e.Log("%s %v done", what, nd)
	if rt.Now()-t0 > tol() {
		e.Fail(x.prop, "cancel waits", "%s of %v took %d ns", what, nd, rt.Now()-t0)
	}
	if nd.cx.Alive() {
		e.Fail(x.prop, "context alive after cancel", "%v is alive after %s returned", nd, what)
	}
	nd.busy--
	// of several calls going on at once the first does the work, and it may be
	// another that returns first; so too for calls on contexts below
	held := make(map[*node]bool)
	for _, n := range x.nodes {
		if n.busy > 0 {
			for p := n; p != nil; p = p.parent {
				held[p] = true
			}
		}
	}
Nodes:
	for _, n := range x.nodes {
		if n.begun == 0 || n.fin || held[n] {
			continue
		}
		for p := n; p != nil; p = p.parent {
			if p.busy > 0 {
				continue Nodes
			}
		}
		n.fin, n.finAt = true, rt.Now()
	}
	if alone && nd.begun == mine && mine == 1 && nd.parent == nil && nd.pool == nil {
		nd.first = what
	}
	nd.look(e, x.prop)
}

// look checks that the state, once decided, stays.
func (n *node) look(e *Env, prop string) {
	if n.cx == nil {
		return
	}
	st := iproto.CxOK
	if !n.cx.Alive() {
		st = iproto.CxCanceled
		if n.cx.Timeout() {
			st = iproto.CxTimeout
		}
	}
	if n.seen && st != n.state {
		e.Fail(prop, "state changed", "%v was in state %d and is in state %d", n, n.state, st)
	}
	if st != iproto.CxOK {
		n.seen, n.state = true, st
	}
	if n.first == "cancel" && st != iproto.CxCanceled || n.first == "expire" && st != iproto.CxTimeout {
		e.Fail(prop, "wrong state", "the first call on %v was %s, its state is %d", n, n.first, st)
	}
	if !n.touched() && st != iproto.CxOK {
		e.Fail(prop, "context finished by nobody", "nobody cancelled or expired %v or a context above it, its state is %d", n, st)
	}
}

func newCxWorld(e *Env, prop string) *cxWorld {
	x := &cxWorld{e: e, b: newBook(e, prop), byMsg: map[iproto.RequestType]*cxReq{}, hs: e.Stream("h"), prop: prop}
	x.last = 0
	switch e.N(4) {
	case 0:
		x.serv = iproto.SF(x.handle)
	case 1:
		p := newLoopPoint(0, x.handle)
		iproto.Run(p)
		x.serv = p
	case 2:
		x.serv = iproto.BF{N: 1 + e.N(3)}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
			q := x.byMsg[r.Msg]
			q.execs++
			sleep(x.will(e.dur(x.hs)))
			q.offered("handler", 0, []byte{1})
			return 0, iproto.Body{1}
		})
	case 3:
		x.serv = iproto.Route(func(r *iproto.Request) {
			if r.SetPending() && r.SetInFly(nil) {
				x.handle(r)
			}
		})
	}
	x.sp = newSendSpy(x.serv)
	x.serv = x.sp
	return x
}

// check judges what became of everything.
func (x *cxWorld) check() {
	e := x.e
	for _, n := range x.nodes {
		n.look(e, x.prop)
		if _, ok := n.finished(); ok && n.cx != nil && n.cx.Alive() {
			e.Fail(x.prop, "child context missed", "%v is alive though it or a context above it was cancelled or expired", n)
		}
	}
	for _, q := range x.reqs {
		fin, ok := q.nd.finished()
		if q.req == nil {
			continue
		}
		answered := q.calls > 0 || q.req.Performed()
		if ok && !answered {
			e.Fail(x.prop, "request missed", "%v was made through %v, which was finished at %d, and is not answered at %d", q, q.nd, fin, rt.Now())
		}
		if q.calls == 0 {
			continue
		}
		q.checkOutcome(x.prop)
		if ok && q.multi == nil {
			d := fin
			if q.madeEnd > d {
				d = q.madeEnd
			}
			if q.at > d+q.tol && q.code == iproto.RcCanceled {
				e.Fail(x.prop, "cancelled late", "%v was made through %v at %d, which was finished at %d, and was answered at %d", q, q.nd, q.madeEnd, fin, q.at)
			}
			if q.at > d+q.tol && q.code != iproto.RcCanceled {
				e.Fail(x.prop, "answered instead of cancelled", "%v was made through %v at %d, which was finished at %d, and was answered with %x at %d", q, q.nd, q.madeEnd, fin, uint32(q.code), q.at)
			}
		}
		if q.after && q.code != iproto.RcCanceled {
			e.Fail(x.prop, "request of a finished context served", "%v was made through %v after it was finished, and was answered with %x", q, q.nd, uint32(q.code))
		}
		if q.code == iproto.RcCanceled && !q.nd.touched() {
			e.Fail(x.prop, "cancelled by nobody", "%v was cancelled; nobody cancelled %v or a context above it", q, q.nd)
		}
	}
	for _, m := range x.multi {
		fin, ok := m.nd.finished()
		if !ok {
			continue
		}
		if !m.done {
			e.Fail(x.prop, "multi-request missed", "multi-request %d of %d requests was made through %v, which was finished at %d, and is not finished at %d", m.n, m.k, m.nd, fin, rt.Now())
			continue
		}
		d := fin
		if m.made > d {
			d = m.made
		}
		if m.doneAt > d+m.tol {
			e.Fail(x.prop, "multi-request cancelled late", "multi-request %d was made through %v, which was finished at %d, and finished at %d", m.n, m.nd, d, m.doneAt)
		}
	}
}

var _ = register(&Scenario{Name: "contexts", Props: []string{"C04"}, Weight: 4, Real: realCore, Stub: stubCore, Run: contexts})

func contexts(e *Env) {
	x := newCxWorld(e, "C04")
	nroot := 1 + e.N(3)
	g := newWg()
	many := e.Chance(1, 10)
	for i := 0; i < nroot; i++ {
		root := x.node(&iproto.Context{}, nil)
		s := e.Stream("cx" + string(rune('0'+i)))
		g.add(1)
		rt.GoNamed("creator", func() {
			n := 1 + s.N(12)
			if many {
				n = 20 + s.N(40)
			}
			for k := 0; k < n; k++ {
				x.op(root, s, 0, g)
				if s.Chance(1, 4) {
					e.gap(s)
				}
			}
			g.done()
		})
	}
	nc := e.N(4)
	for i := 0; i < nc; i++ {
		s := e.Stream("fin" + string(rune('0'+i)))
		g.add(1)
		rt.GoNamed("canceler", func() {
			for k := 0; k < 1+s.N(3); k++ {
				if s.Chance(2, 3) {
					e.gap(s)
				} else {
					for j := 0; j < s.N(30); j++ {
						rt.Gosched()
					}
				}
				nd := x.nodes[s.N(len(x.nodes))]
				if nd.cx != nil {
					x.finish(nd, s)
				}
			}
			g.done()
		})
	}
	sleep(5 * int64(time.Second))
	rt.Calm()
	sleep(2100 * int64(time.Second))
	if x.last > rt.Now() {
		sleep(x.last - rt.Now() + int64(time.Second))
	}
	x.check()
}

var _ = register(&Scenario{Name: "worker-contexts", Props: []string{"C04"}, Weight: 3, Real: realCore, Stub: stubCore, Run: workerContexts})

// workerContexts: a worker's context is finished when the request it serves is
// cancelled or times out.
func workerContexts(e *Env) {
	x := newCxWorld(e, "C04")
	x.sp = newSendSpy(iproto.SF(x.handle))
	x.serv = x.sp
	hs := e.Stream("w")
	ob := newBook(e, "C04")
	type outer struct {
		*treq
		nd       *node
		limit    int64
		armAt    int64
		cancelAt int64
		began    int64
		end      int64
		endTol   int64
	}
	outs := map[*treq]*outer{}
	g := newWg()
	pool := iproto.BF{N: 1 + e.N(3)}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		o := outs[ob.of(r)]
		o.execs++
		nd := x.node(cx, nil)
		nd.pool = o.treq
		o.nd = nd
		o.began = rt.Now()
		n := hs.N(6)
		for i := 0; i < n; i++ {
			x.op(nd, hs, 1, g)
			if hs.Chance(1, 3) {
				sleep(x.will(e.dur(hs)))
			}
		}
		sleep(x.will(e.dur(hs)))
		now := rt.Now()
		// what the handler sees of its context
		if o.calls > 0 && o.code == iproto.RcCanceled && now > o.at+tol() {
			if cx.Alive() {
				e.Fail("C04", "worker's context alive", "%v was cancelled at %d while it was served; at %d the handler's context is alive", o, o.at, now)
			}
			e.Probe("cancelled under a worker")
		}
		if o.limit > 0 && o.cancelAt == 0 && now > o.armAt+o.limit+tol() {
			if cx.Alive() || !cx.Timeout() {
				e.Fail("C04", "worker's context not expired", "the limit of %v passed at %d while it was served; at %d the handler's context is alive=%v timeout=%v", o, o.armAt+o.limit, now, cx.Alive(), cx.Timeout())
			}
			e.Probe("expired under a worker")
		}
		if dead := !cx.Alive(); dead && o.limit == 0 && o.cancelAt == 0 {
			e.Fail("C04", "worker's context finished by nobody", "%v", o)
		}
		nd.closed, nd.closedAt = true, now
		o.end, o.endTol = now, tol()
		o.offered("worker", 0, []byte{4})
		return 0, iproto.Body{4}
	})
	n := 1 + e.N(5)
	for i := 0; i < n; i++ {
		t := ob.add(1, mkBody(9, uint32(i), 4))
		o := &outer{treq: t}
		outs[t] = o
		t.offers = append(t.offers, offer{code: iproto.RcCanceled, who: "cancel"}, offer{code: iproto.RcTimeout, who: "limit"}, offer{code: iproto.RcInternalError, who: "no answer"})
		s := e.Stream("o" + string(rune('0'+i)))
		g.add(1)
		rt.GoNamed("sender", func() {
			if s.Chance(1, 2) {
				o.limit = 1 + e.dur(s)
				x.will(o.limit)
				o.armAt = rt.Now()
				t.req.SetTimeout(time.Duration(o.limit))
			}
			t.send(pool)
			if s.Chance(1, 2) {
				e.gap(s)
				o.cancelAt = rt.Now()
				if o.cancelAt == 0 {
					o.cancelAt = 1
				}
				t.req.Cancel()
			}
			g.done()
		})
	}
	sleep(5 * int64(time.Second))
	rt.Calm()
	sleep(2100 * int64(time.Second))
	if x.last > rt.Now() {
		sleep(x.last - rt.Now() + int64(time.Second))
	}
	for _, t := range ob.all {
		o := outs[t]
		t.checkOutcome("C04")
		if o.nd == nil {
			continue
		}
		// when the worker's context was certainly finished
		fin, ok := int64(0), false
		if t.calls > 0 && t.code == iproto.RcCanceled {
			fin, ok = t.at, true
		}
		if o.limit > 0 && o.armAt+o.limit+o.endTol < o.end {
			// expired by the timer; allow for its tolerance
			f := o.armAt + o.limit
			if !ok || f < fin {
				fin, ok = f, true
			}
		}
		if !ok {
			continue
		}
		for _, q := range x.reqs {
			under := false
			for p := q.nd; p != nil; p = p.parent {
				if p == o.nd {
					under = true
				}
				if p != o.nd && p.closed {
					break
				}
			}
			if !under || q.req == nil {
				continue
			}
			if q.calls == 0 && !q.req.Performed() {
				e.Fail("C04", "worker's request missed", "%v was made through the context of %v, which was cancelled or expired at %d, and is not answered", q, t, fin)
			}
			d := fin
			if q.madeEnd > d {
				d = q.madeEnd
			}
			if q.calls > 0 && q.multi == nil && q.at > d+q.tol {
				e.Fail("C04", "worker's request late", "%v was made at %d through the context of %v, which was cancelled or expired at %d, and was answered at %d with %x", q, q.madeEnd, t, fin, q.at, uint32(q.code))
			}
		}
	}
	for _, q := range x.reqs {
		q.checkOutcome("C04")
	}
}
