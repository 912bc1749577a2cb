// Package vsync stands in for sync.
package vsync

import (
	realsync "sync"

	"verifsim/rt"
)

type Locker = realsync.Locker

func dead() bool { return rt.Live() == false }

// Mutex: unlocking wakes one waiter, which competes again with others.
type Mutex struct {
	locked bool
	q      []*rt.Waiter
}

func (m *Mutex) Lock() {
	if dead() {
		return
	}
	rt.Point(10)
	for m.locked {
		x := rt.NewWaiter()
		m.q = append(m.q, x)
		x.Park("mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	if dead() {
		return true
	}
	rt.Point(11)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if dead() {
		return
	}
	if !m.locked {
		rt.Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	for len(m.q) > 0 {
		t := m.q[0]
		m.q = m.q[1:]
		if t.Wake() {
			break
		}
	}
	rt.Point(12)
}

// RWMutex: a waiting writer blocks new readers.
type RWMutex struct {
	w  bool
	r  int
	ww int
	q  []*rt.Waiter
}

func (m *RWMutex) wakeAll() {
	q := m.q
	m.q = nil
	for _, t := range q {
		t.Wake()
	}
}

func (m *RWMutex) Lock() {
	if dead() {
		return
	}
	rt.Point(13)
	m.ww++
	for m.w || m.r > 0 {
		x := rt.NewWaiter()
		m.q = append(m.q, x)
		x.Park("rwmutex lock")
	}
	m.ww--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	if dead() {
		return true
	}
	rt.Point(13)
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if dead() {
		return
	}
	if !m.w {
		rt.Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.wakeAll()
	rt.Point(14)
}

func (m *RWMutex) RLock() {
	if dead() {
		return
	}
	rt.Point(15)
	for m.w || m.ww > 0 {
		x := rt.NewWaiter()
		m.q = append(m.q, x)
		x.Park("rwmutex rlock")
	}
	m.r++
}

func (m *RWMutex) TryRLock() bool {
	if dead() {
		return true
	}
	rt.Point(15)
	if m.w || m.ww > 0 {
		return false
	}
	m.r++
	return true
}

func (m *RWMutex) RUnlock() {
	if dead() {
		return
	}
	if m.r <= 0 {
		rt.Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	if m.r == 0 {
		m.wakeAll()
	}
	rt.Point(16)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond wakes in FIFO order, as the real one does.
type Cond struct {
	L Locker
	q []*rt.Waiter
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if dead() {
		return
	}
	x := rt.NewWaiter()
	c.q = append(c.q, x)
	c.L.Unlock()
	x.Park("cond wait") // returns at once if the signal came meanwhile
	c.L.Lock()
}

func (c *Cond) Signal() {
	if dead() {
		return
	}
	rt.PointAny(17)
	if len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		t.Wake()
	}
}

func (c *Cond) Broadcast() {
	if dead() {
		return
	}
	rt.PointAny(18)
	q := c.q
	c.q = nil
	for _, t := range q {
		t.Wake()
	}
}

type WaitGroup struct {
	n int
	q []*rt.Waiter
}

func (g *WaitGroup) Add(d int) {
	if dead() {
		return
	}
	rt.Point(19)
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		q := g.q
		g.q = nil
		for _, t := range q {
			t.Wake()
		}
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	if dead() {
		return
	}
	rt.Point(20)
	for g.n > 0 {
		x := rt.NewWaiter()
		g.q = append(g.q, x)
		x.Park("waitgroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	rt.Point(21)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// Pool hands back items in last-in first-out order; whether an item is found
// at all is a decision, as in the real one.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	if dead() {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	rt.Point(22)
	n := len(p.items)
	if n > 0 {
		s := rt.S_("pool")
		if !s.Chance(1, 16) {
			i := n - 1
			if n > 1 && s.Chance(1, 8) {
				i = 0
			}
			x := p.items[i]
			p.items = append(p.items[:i:i], p.items[i+1:]...)
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if dead() || x == nil {
		return
	}
	rt.Point(23)
	p.items = append(p.items, x)
}

// Map keeps insertion order.
type Map struct {
	keys []interface{}
	m    map[interface{}]interface{}
}

func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	rt.Point(24)
	v, ok = m.m[k]
	return
}
func (m *Map) set(k, v interface{}) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Store(k, v interface{}) { rt.Point(25); m.set(k, v) }
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	rt.Point(25)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	rt.Point(25)
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	rt.Point(25)
	x, ok := m.m[k]
	m.set(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	rt.Point(25)
	if x, ok := m.m[k]; ok && x == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	rt.Point(25)
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	rt.Point(25)
	ks := append([]interface{}(nil), m.keys...)
	for _, k := range ks {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}
func (m *Map) Clear() { rt.Point(25); m.keys, m.m = nil, nil }
