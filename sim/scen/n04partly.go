package scen

import (
	"net"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// A client that got only some of its connections, to a server which takes no
// more of them and is slow: requests wait, and dials fail all the time.  No
// request may fail while a connection is there.

var _ = register(&Scenario{Name: "client-partly", Props: []string{"N04"}, Weight: 1, Real: realClient, Stub: stubNet + "; " + stubPeer, Run: partly})

func partly(e *Env) {
	n := e.network()
	if e.Chance(2, 3) {
		n.Window = 512 << uint(e.N(4))
	}
	rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	b := newBook(e, "N04")
	byMsg := map[uint32]*treq{}
	ps := e.Stream("p")
	good := 1 + e.N(2)
	var conns []*vnet.SConn
	pongs := 0
	pauseTill := int64(0)
	var l net.Listener
	serve := func(c *vnet.SConn) {
		var m sync.Mutex
		write := func(b []byte) {
			m.Lock()
			c.Write(b)
			m.Unlock()
		}
		for {
			if d := pauseTill - rt.Now(); d > 0 {
				sleep(d)
			}
			f, err := readFrame(c, rc, false)
			if err != nil {
				c.Close()
				return
			}
			if f.msg == pingMsg {
				write(encRes(rc, frame{msg: pingMsg, id: f.id}))
				pongs++
				continue
			}
			t := byMsg[f.msg]
			if t == nil {
				e.FailAny("request changed", "the server received %v, which was not sent", f)
				return
			}
			if t.execs++; t.execs > 1 {
				e.FailAny("request sent twice", "%v", t)
			}
			answer := func() {
				r := frame{msg: f.msg, id: f.id, body: mkBody(f.msg, 3, 5)}
				t.offered("server", 0, r.body)
				write(encRes(rc, r))
			}
			if ps.Chance(1, 4) {
				d := ps.Log(int64(time.Second))
				go func() {
					sleep(d)
					answer()
				}()
			} else {
				answer()
			}
			if ps.Chance(1, 10) {
				sleep(ps.Log(int64(100 * time.Millisecond)))
			}
		}
	}
	l, err := net.Listen("tcp", "srv:1")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			if len(conns) == good { // it came just before the door was shut
				c.Close()
				continue
			}
			conns = append(conns, c.(*vnet.SConn))
			go serve(c.(*vnet.SConn))
			if len(conns) == good {
				l.Close()
			}
		}
	}()
	cfg := client.ServerConfig{Address: "srv:1", RetCodeType: rc, Connections: good + 1 + e.N(2), PingInterval: -1, ReadTimeout: 2000 * time.Second, WriteTimeout: 2000 * time.Second}
	if e.Chance(1, 3) {
		cfg.Timeout = 3000 * time.Second
	}
	sv := cfg.NewServer()
	iproto.Run(sv)
	slow := int64(n.Lat+n.Jitter) * 10
	for i := 0; pongs < good && i < 100; i++ {
		sleep(int64(time.Second) + slow + tol())
	}
	if pongs < good {
		e.Probe("never connected")
		return
	}
	sleep(int64(time.Second) + slow + tol())
	s := e.Stream("sender")
	var broke int64
	g := newWg()
	g.add(1)
	rt.GoNamed("sender", func() {
		defer g.done()
		for i := 1 + s.N(6); i > 0; i-- {
			if s.Chance(2, 3) {
				pauseTill = rt.Now() + s.Log(int64(3*time.Second))
			}
			for j := s.N(80); j > 0; j-- {
				msg := uint32(0x10000 + len(b.all))
				t := b.add(iproto.RequestType(msg), mkBody(msg, 9, bodySize(s)))
				byMsg[msg] = t
				t.req.Body = append(iproto.Body(nil), t.body...)
				t.send(sv)
				if s.Chance(1, 20) {
					e.gap(s)
				}
			}
			sleep(e.dur(s) / 10)
			if good == 2 && broke == 0 && s.Chance(1, 6) {
				c := conns[s.N(2)]
				e.Log("break %v", c.LocalAddr())
				if s.Chance(1, 2) {
					c.Pair().Reset()
				} else {
					c.Close()
				}
				broke = rt.Now()
			}
		}
	})
	g.wait()
	rt.Calm()
	for i := 0; i < 300; i++ {
		if k, _ := b.outstanding(); k == 0 {
			break
		}
		sleep(int64(time.Second) + tol())
	}
	busy := 0
	for _, t := range b.all {
		if t.calls == 0 {
			e.FailAny("unanswered", "%v was sent at %d and is not answered at %d", t, t.sentAt, rt.Now())
			continue
		}
		if t.code == iproto.RcIOError && broke > 0 {
			// it may have been on the connection that was lost
			if t.sentAt <= broke && t.at >= broke && t.at <= broke+slow+int64(time.Second)+t.tol {
				continue
			}
			if t.sentAt > broke && t.sentAt <= broke+slow+int64(time.Second)+t.tol {
				continue
			}
		}
		if t.at > t.sentAt+int64(200*time.Millisecond) {
			busy++
		}
		if t.code == iproto.RcIOError {
			e.Fail("N04", "failed although connected", "%v was sent at %d and failed at %d; a connection was there all the time", t, t.sentAt, t.at)
		}
		t.checkOutcome("N04")
	}
	if busy > 0 {
		e.Probe("waited while dials fail")
	}
	for _, c := range conns {
		c.Close()
	}
	sv.Stop()
}
