package rt

import "unsafe"

// hchan models a channel.  The native channel serves only as identity.
type hchan struct {
	id     int
	cap    int
	buf    []interface{}
	head   int
	closed bool
	recvq  []*selWait
	sendq  []*selWait
}

func (c *hchan) n() int { return len(c.buf) - c.head }

func (c *hchan) popbuf() interface{} {
	v := c.buf[c.head]
	c.buf[c.head] = nil
	c.head++
	if c.head == len(c.buf) {
		c.buf = c.buf[:0]
		c.head = 0
	} else if c.head > 64 && c.head*2 > len(c.buf) {
		n := copy(c.buf, c.buf[c.head:])
		for i := n; i < len(c.buf); i++ {
			c.buf[i] = nil
		}
		c.buf = c.buf[:n]
		c.head = 0
	}
	return v
}

// selWait is one waiting case; all cases of a select share the state.
type selWait struct {
	s    *selState
	c    *hchan
	idx  int
	send bool
	v    interface{}
}

type selState struct {
	Waiter
	idx int
	v   interface{}
	ok  bool
}

func (w *World) hch(p unsafe.Pointer, cp int) *hchan {
	c := w.chans[p]
	if c == nil {
		c = &hchan{id: len(w.chans), cap: cp}
		w.chans[p] = c
	}
	return c
}

func deq(q *[]*selWait) *selWait {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if !x.s.Woken {
			return x
		}
	}
	return nil
}

// completes immediately if possible
func (w *World) tryRecv(c *hchan) (v interface{}, ok, done bool) {
	if c.n() > 0 {
		v = c.popbuf()
		if x := deq(&c.sendq); x != nil {
			c.buf = append(c.buf, x.v)
			w.fire(x, nil, true)
		}
		return v, true, true
	}
	if x := deq(&c.sendq); x != nil {
		v = x.v
		w.fire(x, nil, true)
		return v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

func (w *World) trySend(c *hchan, v interface{}) bool {
	if c.closed {
		panic(chanPanic("send on closed channel"))
	}
	if x := deq(&c.recvq); x != nil {
		w.fire(x, v, true)
		return true
	}
	if c.n() < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

type chanPanic string

func (c chanPanic) Error() string { return string(c) }
func (c chanPanic) RuntimeError() {}

func (w *World) fire(x *selWait, v interface{}, ok bool) {
	x.s.idx = x.idx
	x.s.v = v
	x.s.ok = ok
	x.s.Wake()
}

func (w *World) chanClose(c *hchan) {
	if c.closed {
		panic(chanPanic("close of closed channel"))
	}
	c.closed = true
	for {
		x := deq(&c.recvq)
		if x == nil {
			break
		}
		w.fire(x, nil, false)
	}
	for {
		x := deq(&c.sendq)
		if x == nil {
			break
		}
		w.fire(x, nil, false) // wakes up and panics
	}
}

func compactQ(q []*selWait) []*selWait {
	if len(q) < 16 {
		return q
	}
	k := q[:0:len(q)]
	live := 0
	for _, x := range q {
		if !x.s.Woken {
			live++
		}
	}
	if live*2 > len(q) {
		return q
	}
	k = make([]*selWait, 0, live+8)
	for _, x := range q {
		if !x.s.Woken {
			k = append(k, x)
		}
	}
	return k
}

func (w *World) chrecv(c *hchan) (interface{}, bool) {
	w.point(4)
	if c == nil {
		w.block("receive on nil channel")
	}
	if v, ok, done := w.tryRecv(c); done {
		return v, ok
	}
	s := &selState{Waiter: Waiter{t: w.cur}}
	c.recvq = append(compactQ(c.recvq), &selWait{s: s, c: c})
	s.Park("chan receive")
	return s.v, s.ok
}

func (w *World) chsend(c *hchan, v interface{}) {
	w.point(5)
	if c == nil {
		w.block("send on nil channel")
	}
	if w.trySend(c, v) {
		return
	}
	s := &selState{Waiter: Waiter{t: w.cur}}
	c.sendq = append(compactQ(c.sendq), &selWait{s: s, c: c, send: true, v: v})
	s.Park("chan send")
	if !s.ok {
		panic(chanPanic("send on closed channel"))
	}
}

// EvSend is a non-blocking send from an event callback (timers).
func EvSend[T any](ch chan T, v T) {
	w := W
	if w == nil || w.dying {
		return
	}
	c := w.hch(*(*unsafe.Pointer)(unsafe.Pointer(&ch)), cap(ch))
	if !c.closed {
		w.trySend(c, v)
	}
}

// SC is a channel seen from its sending side.
type SC[T any] struct{ ch chan<- T }

func S[T any](ch chan<- T) SC[T] { return SC[T]{ch} }

func hs[T any](w *World, ch chan<- T) *hchan {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		return nil
	}
	return w.hch(p, cap(ch))
}

func hr[T any](w *World, ch <-chan T) *hchan {
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	if p == nil {
		return nil
	}
	return w.hch(p, cap(ch))
}

func (s SC[T]) Send(v T) {
	w := W
	if w == nil {
		return
	}
	w.enterCheck()
	w.chsend(hs(w, s.ch), v)
}

func (s SC[T]) Close() {
	w := W
	if w == nil {
		return
	}
	w.point(6)
	c := hs(w, s.ch)
	if c == nil {
		panic(chanPanic("close of nil channel"))
	}
	w.chanClose(c)
}

// V makes a select case that sends v.
func (s SC[T]) V(v T) *SendCase {
	w := W
	if w == nil {
		return &SendCase{}
	}
	return &SendCase{c: hs(w, s.ch), v: v}
}

type SendCase struct {
	c *hchan
	v interface{}
}

type RecvCase[T any] struct {
	c  *hchan
	V  T
	OK bool
}

// R makes a select case that receives.
func R[T any](ch <-chan T) *RecvCase[T] {
	w := W
	if w == nil {
		return &RecvCase[T]{}
	}
	return &RecvCase[T]{c: hr(w, ch)}
}

func Recv[T any](ch <-chan T) T {
	w := W
	if w == nil {
		var z T
		return z
	}
	w.enterCheck()
	v, _ := w.chrecv(hr(w, ch))
	t, _ := v.(T)
	return t
}

func Recv2[T any](ch <-chan T) (T, bool) {
	w := W
	if w == nil {
		var z T
		return z, false
	}
	w.enterCheck()
	v, ok := w.chrecv(hr(w, ch))
	t, _ := v.(T)
	return t, ok
}

func Len[T any](ch <-chan T) int {
	w := W
	if w == nil {
		return 0
	}
	c := hr(w, ch)
	if c == nil {
		return 0
	}
	return c.n()
}

func LenS[T any](ch chan<- T) int {
	w := W
	if w == nil {
		return 0
	}
	c := hs(w, ch)
	if c == nil {
		return 0
	}
	return c.n()
}

type Case interface {
	core() (c *hchan, send bool, v interface{})
	set(v interface{}, ok bool)
}

func (s *SendCase) core() (*hchan, bool, interface{}) { return s.c, true, s.v }
func (s *SendCase) set(interface{}, bool)             {}
func (r *RecvCase[T]) core() (*hchan, bool, interface{}) {
	return r.c, false, nil
}
func (r *RecvCase[T]) set(v interface{}, ok bool) {
	r.V, _ = v.(T)
	r.OK = ok
}

// Select performs a select statement; -1 is the default case.
func Select(hasDefault bool, cases ...Case) int {
	w := W
	if w == nil {
		return -1
	}
	w.enterCheck()
	w.point(7)
	// Which ready case is taken is a decision: 0 takes the first in source
	// order, others rotate.
	n := len(cases)
	ready := 0
	first := -1
	var ri [8]int
	for i, x := range cases {
		c, send, _ := x.core()
		if c == nil {
			continue
		}
		ok := false
		if send {
			ok = c.closed || c.n() < c.cap || hasLive(&c.recvq)
		} else {
			ok = c.n() > 0 || c.closed || hasLive(&c.sendq)
		}
		if ok {
			if ready < len(ri) {
				ri[ready] = i
			}
			if first < 0 {
				first = i
			}
			ready++
		}
	}
	if ready > 0 {
		i := first
		if ready > 1 && !w.calm {
			k := ready
			if k > len(ri) {
				k = len(ri)
			}
			i = ri[w.sSel.N(k)]
		}
		c, send, v := cases[i].core()
		if send {
			if !w.trySend(c, v) {
				Fatal("simulator: select send not ready")
			}
		} else {
			v, ok, done := w.tryRecv(c)
			if !done {
				Fatal("simulator: select receive not ready")
			}
			cases[i].set(v, ok)
		}
		return i
	}
	if hasDefault {
		return -1
	}
	s := &selState{Waiter: Waiter{t: w.cur}}
	for i := 0; i < n; i++ {
		c, send, v := cases[i].core()
		if c == nil {
			continue
		}
		x := &selWait{s: s, c: c, idx: i, send: send, v: v}
		if send {
			c.sendq = append(compactQ(c.sendq), x)
		} else {
			c.recvq = append(compactQ(c.recvq), x)
		}
	}
	s.Park("select")
	x := cases[s.idx]
	if _, send, _ := x.core(); send {
		if !s.ok {
			panic(chanPanic("send on closed channel"))
		}
	} else {
		x.set(s.v, s.ok)
	}
	return s.idx
}

func hasLive(q *[]*selWait) bool {
	for len(*q) > 0 {
		if !(*q)[0].s.Woken {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

// SelectNone is the statement select {}.
func SelectNone() {
	w := W
	if w == nil {
		return
	}
	w.enterCheck()
	w.block("select {}")
}

// Cap is the tuning knob for constant channel capacities of 64 and more.
func Cap(n int) int {
	w := W
	if w == nil {
		return n
	}
	s := w.Stream("cap")
	if s.idx > 0 && w.capKeep != 0 {
		// one choice per run for all channels of the same declared size
		if v, ok := w.caps[n]; ok {
			return v
		}
	}
	w.capKeep = 1
	if w.caps == nil {
		w.caps = map[int]int{}
	}
	v := n
	switch s.Weighted(5, 2, 2, 2) {
	case 1:
		v = 1
	case 2:
		v = 2 + s.N(6)
	case 3:
		v = 8 + s.N(56)
	}
	w.caps[n] = v
	return v
}
