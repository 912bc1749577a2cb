package scen

import (
	"net"
	"reflect"
	"sync"
	"time"
	"unsafe"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// A connection that has lived for four thousand million requests: its ids begin
// again, while some of the first requests are still outstanding.  Making that
// many requests is out of reach, so the counter of the connection is set
// forward while it is idle, to where it would be then (if it is still found
// where it was; otherwise the run is one like others).

var _ = register(&Scenario{Name: "client-ids", Props: []string{"N02", "N04"}, Weight: 1, Real: realClient, Stub: stubNet + "; " + stubPeer + "; the id counter of an old connection", Run: idsWrap})

// hidden follows unexported fields.
func hidden(v reflect.Value, names ...string) (r reflect.Value, ok bool) {
	for _, n := range names {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return
		}
		if v = v.FieldByName(n); !v.IsValid() {
			return
		}
		if v.CanAddr() {
			v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
		}
	}
	return v, true
}

// age sets the id counters of all connections of a client.
func age(sv *client.Server, id uint32) (n int) {
	m, ok := hidden(reflect.ValueOf(sv), "connections")
	if !ok || m.Kind() != reflect.Map {
		return
	}
	for _, k := range m.MapKeys() {
		c, ok := hidden(m.MapIndex(k), "Connection", "inFly", "curId")
		if ok && c.Kind() == reflect.Uint32 && c.CanSet() {
			c.SetUint(uint64(id))
			n++
		}
	}
	return
}

type wreq struct {
	*treq
	got  int // times the server received it
	id   uint32
	late bool // answered when asked to
}

type wrapWorld struct {
	e     *Env
	rc    nt.RCType
	m     sync.Mutex
	c     *vnet.SConn
	conns int
	b     *book
	reqs  []*wreq
	byMsg map[uint32]*wreq
	out   map[uint32]*wreq // outstanding on the wire
	ps    *rt.Stream
	hold  bool // new requests are answered late
	late  []*wreq
}

func (w *wrapWorld) send(sv *client.Server) *wreq {
	msg := uint32(0x10000 + len(w.reqs))
	t := &wreq{treq: w.b.add(iproto.RequestType(msg), mkBody(msg, 9, w.ps.N(30)))}
	w.reqs = append(w.reqs, t)
	w.byMsg[msg] = t
	t.req.Body = append(iproto.Body(nil), t.body...)
	t.send(sv)
	return t
}

func (w *wrapWorld) answer(t *wreq) {
	r := frame{msg: uint32(t.msg), id: t.id, body: mkBody(uint32(t.msg), 77, 8+w.ps.N(20))}
	t.offered("server", 0, r.body)
	delete(w.out, t.id)
	w.c.Write(encRes(w.rc, r))
}

func (w *wrapWorld) serve(c *vnet.SConn) {
	for {
		f, err := readFrame(c, w.rc, false)
		if err != nil {
			c.Close()
			return
		}
		w.m.Lock()
		if f.msg == pingMsg {
			c.Write(encRes(w.rc, frame{msg: pingMsg, id: f.id}))
			w.m.Unlock()
			continue
		}
		t := w.byMsg[f.msg]
		if t == nil || t.got > 0 {
			w.e.FailAny("request changed", "the server received %v, which was not sent or not again", f)
			return
		}
		t.got++
		t.id = f.id
		if o := w.out[f.id]; o != nil {
			w.e.FailAny("id used twice", "the server received %v with id %d while %v, which came with the same id, is outstanding", t.treq, f.id, o.treq)
		}
		if f.id == pingID {
			w.e.FailAny("reserved id", "the server received %v with the id of pings", t.treq)
		}
		w.out[f.id] = t
		w.e.Log("server: %v as %d", t.treq, f.id)
		switch {
		case w.hold && w.ps.Chance(1, 30):
			t.late = true
			w.late = append(w.late, t)
		case w.ps.Chance(1, 3):
			d := w.ps.Log(int64(20 * time.Millisecond))
			go func() {
				sleep(d)
				w.m.Lock()
				w.answer(t)
				w.m.Unlock()
			}()
		default:
			w.answer(t)
		}
		w.m.Unlock()
	}
}

func idsWrap(e *Env) {
	n := e.network()
	w := &wrapWorld{e: e, b: newBook(e, e.Prop), byMsg: map[uint32]*wreq{}, out: map[uint32]*wreq{}, ps: e.Stream("p")}
	w.rc = []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	l, err := net.Listen("tcp", "srv:1")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			w.conns++
			w.c = c.(*vnet.SConn)
			go w.serve(w.c)
		}
	}()
	cfg := client.ServerConfig{Address: "srv:1", RetCodeType: w.rc, Connections: 1, PingInterval: -1}
	if e.Chance(1, 2) {
		cfg.PingInterval = 20 * time.Second
	}
	sv := cfg.NewServer()
	iproto.Run(sv)
	s := e.Stream("sender")
	slow := int64(n.Lat+n.Jitter) * 4
	rows := 1 + e.N(2)
	w.hold = true
	some := func(k int) {
		for ; k > 0; k-- {
			t := w.send(sv)
			switch s.N(20) {
			case 0:
				t.offered("cancel", iproto.RcCanceled, nil)
				t.req.Cancel()
			case 1:
				e.gap(s)
			}
		}
	}
	// until the first rows are used up
	for i := 0; i < 50; i++ {
		sent := 0
		for _, t := range w.reqs {
			sent += t.got
		}
		left := rows*256 - 1 - sent
		if left == 0 {
			break
		}
		some(left)
		sleep(int64(3*time.Second) + slow + tol())
	}
	w.hold = false
	kept := len(w.late)
	if age(sv, ^uint32(0)-uint32(200+e.N(400))) == 1 {
		e.Probe("ids begin again")
	}
	t := w.send(sv)
	sleep(int64(2*time.Second) + slow + tol())
	if t.calls == 0 {
		e.FailAny("unanswered", "%v is not answered", t.treq)
	}
	// round the corner
	for i := 0; i < 3; i++ {
		some(300 + s.N(300))
		sleep(int64(time.Second))
		w.m.Lock()
		for len(w.late) > 0 && s.Chance(2, 3) {
			j := s.N(len(w.late))
			x := w.late[j]
			w.late = append(w.late[:j:j], w.late[j+1:]...)
			w.answer(x)
		}
		w.m.Unlock()
	}
	rt.Calm()
	sleep(int64(10*time.Second) + slow + tol())
	e.Log("%d were kept, %d are left", kept, len(w.late))
	for _, t := range w.reqs {
		if t.calls == 0 && !t.late {
			e.FailAny("unanswered", "%v is not answered at %d", t.treq, rt.Now())
		}
	}
	if w.conns != 1 {
		e.FailAny("connection lost", "the client has dialled %d times", w.conns)
	}
	// the rest fails with the connection
	brk := e.Chance(1, 2)
	w.m.Lock()
	if brk {
		w.c.Close()
	} else {
		for _, x := range w.late {
			w.answer(x)
		}
	}
	w.m.Unlock()
	sleep(int64(5*time.Second) + slow + tol())
	for _, t := range w.reqs {
		if t.calls == 0 {
			e.FailAny("outstanding request forgotten", "%v, sent at %d with id %d, is not answered at %d: connection broken=%v", t.treq, t.sentAt, t.id, rt.Now(), brk)
		}
		if brk && t.late {
			t.checkOutcome(e.Prop, iproto.RcIOError)
		} else {
			t.checkOutcome(e.Prop)
		}
	}
}
