package scen

import (
	"net"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// The number of connections is changed while requests queue up all the time:
// connections have no idle moment.

var _ = register(&Scenario{Name: "client-conns-busy", Props: []string{"N05"}, Weight: 1, Real: realClient, Stub: stubNet + "; " + stubPeer, Run: connsBusy})

func connsBusy(e *Env) {
	n := vnet.N()
	n.Window = 1024 << uint(e.N(3))
	if e.Chance(1, 3) {
		n.Jitter = time.Duration(e.w.Log(int64(5 * time.Millisecond)))
	}
	rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	b := newBook(e, "N05")
	byMsg := map[uint32]*treq{}
	pace := int64(2+e.N(10)) * int64(time.Millisecond)
	type link struct {
		c    *vnet.SConn
		over bool
	}
	var links []*link
	open := func() (n int) {
		for _, k := range links {
			if !k.over {
				n++
			}
		}
		return
	}
	l, err := net.Listen("tcp", "srv:1")
	if err != nil {
		panic(err)
	}
	serve := func(k *link) {
		var m sync.Mutex
		for {
			f, err := readFrame(k.c, rc, false)
			if err != nil {
				k.over = true
				k.c.Close()
				return
			}
			r := frame{msg: f.msg, id: f.id}
			if f.msg != pingMsg {
				sleep(pace)
				t := byMsg[f.msg]
				if t == nil {
					e.FailAny("request changed", "the server received %v, which was not sent", f)
					return
				}
				if t.execs++; t.execs > 1 {
					e.FailAny("request sent twice", "%v", t)
				}
				r.body = []byte{1, byte(f.msg)}
				t.offered("server", 0, r.body)
			}
			m.Lock()
			k.c.Write(encRes(rc, r))
			m.Unlock()
		}
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			k := &link{c: c.(*vnet.SConn)}
			links = append(links, k)
			go serve(k)
		}
	}()
	want := 1 + e.N(4)
	conf := want
	if want == 1 && e.Chance(1, 3) {
		conf = 0 // not set: one
	}
	sv := (&client.ServerConfig{Address: "srv:1", RetCodeType: rc, Connections: conf, PingInterval: -1, ReadTimeout: 2000 * time.Second, WriteTimeout: 2000 * time.Second}).NewServer()
	iproto.Run(sv)
	sleep(int64(2*time.Second) + tol())
	if k := open(); k != want {
		e.Fail("N05", "number not reached", "a client with %d connections configured has %d at %d", conf, k, rt.Now())
	}
	s := e.Stream("sender")
	stop := false
	g := newWg()
	g.add(1)
	size := 200 + s.N(800)
	add := func() {
		msg := uint32(0x10000 + len(b.all))
		t := b.add(iproto.RequestType(msg), mkBody(msg, 9, size))
		byMsg[msg] = t
		t.req.Body = append(iproto.Body(nil), t.body...)
		t.send(sv)
	}
	served := func() (n int) {
		for _, t := range b.all {
			if t.execs > 0 {
				n++
			}
		}
		return
	}
	// about so many requests wait all the time
	backlog := 100 + s.N(50)
	rt.GoNamed("sender", func() {
		defer g.done()
		for !stop {
			for i := len(b.all) - served(); i < backlog; i++ {
				add()
			}
			sleep(pace)
		}
	})
	sleep(int64(200 * time.Millisecond))
	// what a connection has taken already is served before it goes: the
	// buffers on the way hold no more than this
	drain := (int64(n.Window)*3 + 32<<10) / int64(size) * pace
	made := want
	for i := 1 + e.N(3); i > 0; i-- {
		to := 1 + e.N(4)
		if to > want {
			made += to - want
		}
		e.Log("connections: %d to %d", want, to)
		if to < want {
			e.Probe("lowered under load")
		}
		want = to
		sv.SetConnections(want)
		from := rt.Now()
		for {
			sleep(int64(100 * time.Millisecond))
			if open() == want || rt.Now() > from+drain+int64(3*time.Second)+2*tol() {
				break
			}
		}
		if k := open(); k != want {
			_, o := b.outstanding()
			_ = o
			e.Fail("N05", "number not kept under load", "the number of connections was set to %d at %d; at %d there are %d, while requests wait all the time", want, from, rt.Now(), k)
		}
	}
	// nothing breaks here
	if len(links) > made && tol() < int64(500*time.Millisecond) {
		e.Fail("N05", "needed connection closed", "the client has dialled %d connections, %d would have been enough: it closed some that were needed", len(links), made)
	}
	stop = true
	g.wait()
	rt.Calm()
	for i := 0; i < 100; i++ {
		if k, _ := b.outstanding(); k == 0 {
			break
		}
		sleep(int64(time.Second) + tol())
	}
	for _, t := range b.all {
		if t.calls == 0 {
			e.FailAny("unanswered", "%v was sent at %d and is not answered at %d", t, t.sentAt, rt.Now())
			continue
		}
		// (the reader of a surplus connection may be slow to see that it goes)
		t.checkOutcome("N05", iproto.RcIOError, iproto.RcShutdown)
	}
	sv.Stop()
	l.Close()
}
