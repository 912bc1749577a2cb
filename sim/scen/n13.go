package scen

import (
	"fmt"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// N13: the registry of clients.

var _ = register(&Scenario{Name: "registry", Props: []string{"N13"}, Weight: 3, Real: realCore + "; " + realNet, Stub: stubNet + "; the handlers of the services", Run: func(e *Env) { registry(e, false) }})
var _ = register(&Scenario{Name: "registry-stop", Props: []string{"N13"}, Weight: 3, Real: realCore + "; " + realNet, Stub: stubNet + "; the handlers of the services", Run: func(e *Env) { registry(e, true) }})

type hand struct {
	addr     int
	c        *client.Server
	from, to int64 // when Get was running, as event stamps
}

type rstop struct {
	from, to int64
}

func registry(e *Env, stops bool) {
	n := e.network()
	naddr := 1 + e.N(4)
	rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	b := newBook(e, "N13")
	down := map[string]bool{}
	// a second registry made from the same configuration
	others := 0
	if e.Chance(1, 3) {
		others = 1 + e.N(3)
	}
	// some of the addresses are Unix sockets
	var names []string
	unix := e.Chance(1, 3)
	for i := 0; i < naddr+others; i++ {
		if unix && e.Chance(1, 2) {
			names = append(names, fmt.Sprintf("/run/srv%d", i))
		} else {
			names = append(names, fmt.Sprintf("srv%d:1", i))
		}
	}
	for i := 0; i < naddr+others; i++ {
		i := i
		if e.Chance(1, 8) {
			down[names[i]] = true
			continue
		}
		network := "tcp"
		if names[i][0] == '/' {
			network = "unix"
		}
		s := (&server.Config{Network: network, Address: names[i], RCType: rc, EndPoint: iproto.SF(func(r *iproto.Request) {
			r.RespondBytes(0, []byte{byte(i)})
		})}).NewServer()
		if err := s.Run(); err != nil {
			e.FailAny("server does not run", "%v", err)
			return
		}
	}
	conns := 1 + e.N(2)
	a := &client.Auto{Config: &client.ServerConfig{RetCodeType: rc, Connections: conns, PingInterval: -1}}
	a2 := &client.Auto{Config: a.Config}
	var hands []*hand
	var sts []*rstop
	get := func(i int) *hand {
		h := &hand{addr: i, from: rt.Seq()}
		if i < naddr {
			h.c = a.Get(names[i])
		} else {
			h.c = a2.Get(names[i])
		}
		h.to = rt.Seq()
		hands = append(hands, h)
		if h.c == nil {
			e.Fail("N13", "no client", "Get returned nil")
			return h
		}
		if !h.c.Runned() {
			e.Fail("N13", "not running", "Get returned a client that does not run")
		}
		return h
	}
	type rreq struct {
		*treq
		h *hand
	}
	var reqs []*rreq
	use := func(h *hand) {
		t := b.add(7, mkBody(7, uint32(len(reqs)), 8))
		t.offered("server", 0, []byte{byte(h.addr)})
		reqs = append(reqs, &rreq{t, h})
		t.send(h.c)
	}
	g := newWg()
	for i := 2 + e.N(5); i > 0; i-- {
		s := e.Stream("g" + string(rune('a'+i)))
		g.add(1)
		rt.GoNamed("getter", func() {
			defer g.done()
			for j := 1 + s.N(6); j > 0; j-- {
				if s.Chance(1, 3) {
					e.gap(s)
				}
				h := get(s.N(naddr + others))
				if h.c == nil {
					return
				}
				if s.Chance(1, 2) {
					use(h)
				}
			}
		})
	}
	if stops {
		s := e.Stream("stop")
		for i := 1 + s.N(2); i > 0; i-- {
			g.add(1)
			rt.GoNamed("stopper", func() {
				defer g.done()
				for j := 1 + s.N(2); j > 0; j-- {
					if s.Chance(2, 3) {
						sleep(e.dur(s) / 20)
					}
					r := &rstop{from: rt.Seq()}
					sts = append(sts, r)
					r.to = 1 << 62
					e.Log("stop")
					a.Stop()
					r.to = rt.Seq()
				}
			})
		}
	}
	if done := go_("join", g.wait); !waitFor(done, int64(100*time.Second)) {
		e.Fail("N13", "blocked", "Get, Stop or a sender did not return")
		return
	}
	rt.Calm()
	same := func() {
		for i, x := range hands {
			for _, y := range hands[:i] {
				if x.addr != y.addr {
					if x.c == y.c {
						e.Fail("N13", "shared", "addresses %d and %d got the same client", x.addr, y.addr)
					}
					continue
				}
				lo, hi := y.from, x.to
				if x.from < lo {
					lo = x.from
				}
				if y.to > hi {
					hi = y.to
				}
				touched, between := false, false
				for _, s := range sts {
					if x.addr >= naddr {
						continue
					}
					if s.to >= lo && s.from <= hi {
						touched = true
					}
					if y.to < s.from && s.to < x.from || x.to < s.from && s.to < y.from {
						between = true
					}
				}
				if x.c != y.c && !touched {
					e.Fail("N13", "two clients", "address %d got two clients", x.addr)
				}
				if x.c == y.c && between {
					e.Fail("N13", "stopped client handed out", "address %d got the same client before and after a stop", x.addr)
				}
			}
		}
	}
	same()
	sleep(int64(5 * time.Second))
	settle := func() {
		sleep(int64(5 * time.Second))
		if n.Window < 4096 || (n.Seg > 0 && n.Seg < 200) || n.Lat+n.Jitter > 20*time.Millisecond {
			sleep(int64(10 * time.Second))
		}
	}
	settle()
	count := func() map[string]int {
		m := map[string]int{}
		for _, p := range n.Pairs() {
			if p.A.CWAt == 0 {
				m[p.A.RemoteAddr().String()]++
			}
		}
		return m
	}
	// only the clients of the last registry are connected
	cur := map[int]*client.Server{}
	for i := 0; i < naddr+others; i++ {
		h := get(i)
		if h.c == nil {
			return
		}
		cur[i] = h.c
		use(h)
	}
	same()
	settle()
	for ad, c := range count() {
		if c != conns {
			e.Fail("N13", "more clients than one", "%d connections to %s, %d are configured", c, ad, conns)
		}
	}
	for i := 0; i < naddr+others; i++ {
		if ad := names[i]; !down[ad] && count()[ad] != conns {
			e.Fail("N13", "client does not run", "%d connections to %s, %d are configured", count()[ad], ad, conns)
		}
	}
	for _, t := range reqs {
		if t.calls == 0 {
			e.Fail("N13", "unanswered", "%v, sent to a client of address %d", t.treq, t.h.addr)
			continue
		}
		t.checkOutcome("N13", iproto.RcShutdown, iproto.RcIOError)
		if t.code != 0 && (!stops || t.h.addr >= naddr) && !down[names[t.h.addr]] {
			e.Fail("N13", "client does not work", "%v got code %x", t.treq, uint32(t.code))
		}
		if t.code == iproto.RcShutdown {
			ok := false
			for _, s := range sts {
				if t.h.addr < naddr && s.to > t.h.from && s.from < rt.Seq() {
					ok = true
				}
			}
			if !ok {
				e.Fail("N13", "stopped client handed out", "%v was sent to a client got after the last stop and was answered with the shutdown code", t.treq)
			}
		}
	}
	// the end
	a.Stop()
	a2.Stop()
	last := b.add(7, mkBody(7, 99, 8))
	h := hands[e.N(len(hands))]
	last.send(h.c)
	sleep(10 * ms)
	if last.calls == 0 || last.code != iproto.RcShutdown {
		e.Fail("N13", "not stopped", "the registry was stopped and a client of it answers a request with %d answers, code %x", last.calls, uint32(last.code))
	}
	settle()
	if m := count(); len(m) > 0 {
		e.Fail("N13", "not stopped", "the registry was stopped and connections are left: %v", m)
	}
	if x := rt.LiveIn("go-iproto/net/client"); x > 0 {
		e.Fail("N13", "left running", "%d goroutines of stopped clients are left", x)
	}
	x := get(0)
	if x.c != nil && x.c == cur[0] {
		e.Fail("N13", "stopped client handed out", "after the stop Get returned the client it had returned before")
	}
	if x.c != nil && !down[names[0]] {
		use(x)
		settle()
		if t := reqs[len(reqs)-1]; t.calls != 1 || t.code != 0 {
			e.Fail("N13", "not running", "a client got after a stop does not answer")
		}
	}
	_ = vnet.N
}
