package scen

import (
	"fmt"
	"runtime"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// C05: functions started through a context run exactly once, with a context of
// their own; WaitAll returns when everything registered is finished, not
// before, and soon after.

type wnode struct {
	n      int
	cx     *iproto.Context
	parent *wnode
	items  []*witem
	live   int
	zeroAt int64 // since when nothing is live
	wait   []*waiting
	fins   []int64
	begun  bool // some cancel or expire has begun, of it or above
	done   bool // and one has returned
	kids   []*wnode
	depth  int
	gone   bool // finished: what it leaves running is on its own
}

type waiting struct {
	since int64
	items int // registered when the call began
	back  bool
}

type witem struct {
	what string
	n    int
	end  bool
	runs int
	// what was known when it was started
	mustRun, mustNot bool
	unsure           bool // started while the context was being cancelled, and has not begun to run
	cx               *iproto.Context
	req              *iproto.Request
	reqs             []*iproto.Request // of a multi-request
	made             bool              // all of them
}

func (w *wnode) String() string { return fmt.Sprintf("context %d", w.n) }

type kids struct {
	e      *Env
	nodes  []*wnode
	hs     *rt.Stream
	n      int
	last   int64
	serv   iproto.Service
	msg    int
	busy   int // cancel and expire calls going on
	called []*wnode
	limit  time.Duration
	g      *wg
}

func (k *kids) will(d int64) int64 {
	if t := rt.Now() + d; t > k.last {
		k.last = t
	}
	return d
}

func (k *kids) node(cx *iproto.Context, parent *wnode) *wnode {
	w := &wnode{n: len(k.nodes), cx: cx, parent: parent}
	if parent != nil {
		w.begun, w.done = parent.begun, parent.done
		w.depth = parent.depth + 1
		parent.kids = append(parent.kids, w)
	}
	k.nodes = append(k.nodes, w)
	return w
}

func (w *wnode) mark(begun bool) {
	if begun {
		w.begun = true
	} else {
		w.done = true
	}
	for _, c := range w.kids {
		if begun || !c.gone {
			c.mark(begun)
		}
	}
}

// reg is called before something is registered.
func (k *kids) reg(w *wnode, what string) *witem {
	k.n++
	it := &witem{what: what, n: k.n, mustNot: w.done}
	if w.live == 0 {
		k.quiet(w)
	}
	w.live++
	return it
}

// regd is called when the registering call has returned.
func (k *kids) regd(w *wnode, it *witem) {
	it.mustRun = !w.begun
	if !it.end {
		w.items = append(w.items, it)
	}
}

// quiet: a time during which nothing was live ends; nobody may have been
// waiting all along.
func (k *kids) quiet(w *wnode) {
	for _, a := range w.wait {
		from := w.zeroAt
		if a.since > from {
			from = a.since
		}
		if !a.back && rt.Now()-from > tol() {
			k.e.Fail("C05", "WaitAll hangs", "WaitAll of %v was called at %d, nothing has been live since %d, and at %d it has not returned", w, a.since, w.zeroAt, rt.Now())
		}
	}
}

func (k *kids) fin(w *wnode, it *witem) {
	if it.end {
		return
	}
	it.end = true
	w.live--
	if w.live == 0 {
		w.zeroAt = rt.Now()
	}
}

func (k *kids) waitAll(w *wnode) {
	a := &waiting{since: rt.Now(), items: len(w.items)}
	w.wait = append(w.wait, a)
	live := 0
	for _, it := range w.items {
		if !it.end {
			live++
		}
	}
	k.e.Log("WaitAll of %v, %d live", w, live)
	w.cx.WaitAll()
	k.e.Log("WaitAll of %v returned", w)
	for _, it := range w.items[:a.items] {
		if it.end || it.unsure {
			continue
		}
		if it.what == "multi-request" && !it.mustRun {
			// made through a finished context, it is born finished
			continue
		}
		if it.req != nil && it.req.Performed() {
			continue
		}
		if it.made {
			// its collector may still be on the way with the last response
			open := 0
			for _, r := range it.reqs {
				if !r.Performed() {
					open++
				}
			}
			if open == 0 {
				continue
			}
		}
		k.e.Fail("C05", "WaitAll early", "WaitAll of %v returned at %d while %s %d, registered before the call at %d, was not finished", w, rt.Now(), it.what, it.n, a.since)
	}
	if w.live == 0 {
		k.quiet(w)
	}
	a.back = true
	if live > 0 {
		k.e.Probe("waited")
	}
}

func (k *kids) op(w *wnode, s *rt.Stream) {
	e := k.e
	switch s.Weighted(6, 4, 2, 2, 1) {
	case 0: // a function
		if w.depth >= 3 {
			return
		}
		it := k.reg(w, "function")
		var nd *wnode
		returned, wait := false, s.Chance(1, 8)
		f := func(cx *iproto.Context) {
			it.runs++
			if wait {
				// the function may wait for its starter to go on
				for until := rt.Now() + 600*int64(time.Second); !returned; {
					if rt.Now() > until {
						e.Fail("C05", "function runs inside the call", "function %d of %v waits for its starter, which waits for it", it.n, w)
						break
					}
					sleep(int64(time.Millisecond) << uint(s.N(10)))
				}
			}
			if it.unsure {
				it.unsure = false
				if w.live == 0 {
					k.quiet(w)
				}
				w.live++
			}
			if it.runs > 1 {
				e.Fail("C05", "function run twice", "function %d of %v", it.n, w)
			}
			if it.mustNot {
				e.Fail("C05", "function of a finished context run", "function %d was started through %v after it was cancelled or expired", it.n, w)
			}
			if cx == nil || cx == w.cx {
				e.Fail("C05", "not a context of its own", "function %d of %v", it.n, w)
			}
			for _, o := range k.nodes {
				if o.cx == cx && o != nd {
					e.Fail("C05", "not a context of its own", "function %d of %v shares the context of %v", it.n, w, o)
				}
			}
			nd.cx = cx
			n := s.N(4)
			for i := 0; i < n; i++ {
				k.op(nd, s)
				if s.Chance(1, 3) {
					sleep(k.will(e.dur(s)))
				}
			}
			if s.Chance(1, 3) {
				sleep(k.will(e.dur(s)))
			}
			if s.Chance(1, 2) {
				k.waitAll(nd)
			}
			if nd.done && cx.Alive() {
				e.Fail("C05", "child context alive", "%v is alive although a context above it was cancelled or expired", nd)
			}
			if dead := !cx.Alive(); dead && !nd.begun {
				e.Fail("C05", "child context dead", "%v is not alive although nobody cancelled or expired it or a context above", nd)
			}
			nd.gone = true
		}
		nd = k.node(nil, w)
		nd.cx = nil
		var got *iproto.Context
		switch s.N(7) {
		case 0:
			got = w.cx.Go(func(cx *iproto.Context) { f(cx); k.fin(w, it) })
		case 1:
			got = w.cx.GoInt(func(cx *iproto.Context, i interface{}) {
				if i != interface{}(it) {
					e.Fail("C05", "wrong argument", "function %d got %v", it.n, i)
				}
				f(cx)
				k.fin(w, it)
			}, it)
		case 2:
			got = w.cx.GoAsync(func(cx *iproto.Context) {
				f(cx)
				k.fin(w, it)
				cx.Done()
			})
		case 3:
			got = w.cx.GoIntAsync(func(cx *iproto.Context, i interface{}) {
				f(cx)
				// finished by another task, later
				d := k.will(e.dur(s))
				go func() {
					sleep(d)
					k.fin(w, it)
					cx.Done()
				}()
			}, it)
		case 4: // a panic inside is the program's to catch, and the child is done all the same
			got = w.cx.Go(func(cx *iproto.Context) {
				defer func() { recover() }()
				f(cx)
				k.fin(w, it)
				panic("caught")
			})
		case 5: // it may also end its goroutine
			got = w.cx.Go(func(cx *iproto.Context) {
				f(cx)
				k.fin(w, it)
				runtime.Goexit()
			})
		case 6:
			got = w.cx.GoInt(func(cx *iproto.Context, _ interface{}) {
				f(cx)
				k.fin(w, it)
				runtime.Goexit()
			}, it)
		}
		returned = true
		if nd.cx != nil && got != nd.cx {
			e.Fail("C05", "another context returned", "function %d of %v was given one context and its caller another", it.n, w)
		}
		nd.cx = got
		k.regd(w, it)
		if it.mustNot {
			k.fin(w, it)
		} else if !it.mustRun && it.runs == 0 {
			it.unsure = true
			if w.live--; w.live == 0 {
				w.zeroAt = rt.Now()
			}
		}
	case 1: // a request
		it := k.reg(w, "request")
		k.msg++
		r, ch := w.cx.SendMsgBody(k.serv, iproto.RequestType(k.msg), iproto.Body{1})
		if k.limit > 0 {
			r.SetTimeout(k.limit)
			k.will(int64(k.limit))
		}
		it.req = r
		k.regd(w, it)
		rt.GoNamed("reader", func() {
			<-ch
			k.fin(w, it)
		})
	case 2: // a multi-request
		it := k.reg(w, "multi-request")
		m := w.cx.NewMulti()
		k.regd(w, it)
		n := s.N(6)
		m.SetTimeout(k.limit)
		k.will(int64(k.limit))
		for i := 0; i < n; i++ {
			k.msg++
			it.reqs = append(it.reqs, m.SendMsgBody(k.serv, iproto.RequestType(k.msg), iproto.Body{2}))
		}
		it.made = true
		each := s.Chance(1, 2)
		x := func() {
			if each {
				for range m.Each() {
				}
			} else {
				m.Results()
			}
			k.fin(w, it)
		}
		if s.Chance(1, 2) {
			x()
		} else {
			rt.GoNamed("multi", x)
		}
	case 3:
		k.waitAll(w)
	case 4:
		sleep(k.will(e.dur(s)))
	}
}

var _ = register(&Scenario{Name: "children", Props: []string{"C05"}, Weight: 1, Real: realCore, Stub: stubCore, Run: children})

func children(e *Env) {
	k := &kids{e: e, hs: e.Stream("h"), g: newWg()}
	never := e.Chance(1, 3)
	k.limit = time.Duration(1 + e.dur(e.w))
	k.serv = iproto.SF(func(r *iproto.Request) {
		switch k.hs.N(3) {
		case 0:
			r.RespondBytes(0, nil)
		case 1:
			d := k.will(e.dur(k.hs))
			go func() {
				sleep(d)
				r.RespondBytes(0, nil)
			}()
		case 2:
			if !never {
				r.RespondBytes(0, nil)
			}
		}
	})
	nroot := 1 + e.N(2)
	for i := 0; i < nroot; i++ {
		w := k.node(&iproto.Context{}, nil)
		s := e.Stream("cx" + string(rune('0'+i)))
		n := 1 + s.N(10)
		k.g.add(1)
		rt.GoNamed("creator", func() {
			for j := 0; j < n; j++ {
				k.op(w, s)
				if s.Chance(1, 4) {
					e.gap(s)
				}
			}
			k.g.done()
		})
		for j := 0; j < s.N(4); j++ {
			rt.GoNamed("waiter", func() {
				for l := 0; l < 3; l++ {
					e.gap(s)
					k.waitAll(w)
				}
			})
		}
	}
	for i := 0; i < e.N(3); i++ {
		s := e.Stream("fin" + string(rune('0'+i)))
		rt.GoNamed("canceler", func() {
			if s.Chance(1, 2) {
				e.gap(s)
			} else {
				for j := 0; j < s.N(30); j++ {
					rt.Gosched()
				}
			}
			w := k.nodes[s.N(len(k.nodes))]
			if w.cx == nil {
				return
			}
			w.mark(true)
			k.busy++
			k.called = append(k.called, w)
			e.Log("cancel %v", w)
			if s.Chance(1, 2) {
				w.cx.Cancel()
			} else {
				w.cx.Expire()
			}
			e.Log("cancelled %v", w)
			// of several calls going on the first one does the work
			if k.busy--; k.busy == 0 {
				for _, w := range k.called {
					w.mark(false)
				}
				k.called = nil
			}
		})
	}
	sleep(5 * int64(time.Second))
	rt.Calm()
	for i := 0; i < 60; i++ {
		sleep(10 * int64(time.Second))
		if k.last > rt.Now() {
			sleep(k.last - rt.Now() + int64(time.Second))
		}
	}
	for _, w := range k.nodes {
		if w.live == 0 {
			k.quiet(w)
		}
		for _, it := range w.items {
			if it.what == "function" && it.mustRun && it.runs == 0 {
				e.Fail("C05", "function never run", "function %d was started through %v, which was alive, and has not run", it.n, w)
			}
		}
		for _, a := range w.wait {
			if !a.back && w.live > 0 {
				for _, it := range w.items {
					if !it.end && it.what == "function" && it.runs == 0 && it.mustRun {
						e.Fail("C05", "function never run", "function %d of %v", it.n, w)
					}
				}
			}
		}
	}
}
