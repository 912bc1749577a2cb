package scen

import (
	"fmt"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// C10 with network clients as children: those that have no connection take
// nothing and spoil nothing.

var _ = register(&Scenario{Name: "balancer-clients", Props: []string{"C10"}, Weight: 1, Real: realCore + "; " + realNet, Stub: stubNet + "; the handlers of the services", Run: balancerClients})

func balancerClients(e *Env) {
	n := e.network()
	rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	b := newBook(e, "C10")
	hs := e.Stream("h")
	lazy := e.Chance(1, 2)
	up := 1 + e.N(2)
	down := 1 + e.N(2)
	late := e.N(2)
	var addrs []string
	listen := func(i int) {
		s := (&server.Config{Network: "tcp", Address: addrs[i], RCType: rc, EndPoint: iproto.SF(func(r *iproto.Request) {
			var k uint32
			for j := 0; j < 4; j++ {
				k |= uint32(r.Body[j]) << uint(8*j)
			}
			t := b.all[k]
			if t.execs++; t.execs > 1 {
				e.Fail("C10", "request served twice", "%v", t)
			}
			answer := func() {
				t.offered("server", 0, []byte{byte(i), byte(k)})
				r.RespondBytes(0, []byte{byte(i), byte(k)})
			}
			if lazy && hs.Chance(1, 2) {
				d := e.dur(hs) / 10
				go func() {
					sleep(d)
					answer()
				}()
				return
			}
			answer()
		})}).NewServer()
		if err := s.Run(); err != nil {
			e.FailAny("server does not run", "%v", err)
		}
	}
	kinds := []int{}
	for i := 0; i < up+down+late; i++ {
		k := 0
		if i >= up {
			k = 1
		}
		if i >= up+down {
			k = 2
		}
		kinds = append(kinds, k)
	}
	for i := range kinds {
		j := i + e.N(len(kinds)-i)
		kinds[i], kinds[j] = kinds[j], kinds[i]
	}
	g := newWg()
	ls := e.Stream("late")
	for i, k := range kinds {
		i := i
		addrs = append(addrs, fmt.Sprintf("srv%d:1", i))
		switch k {
		case 0:
			listen(i)
		case 2:
			d := e.dur(ls)
			g.add(1)
			go func() {
				sleep(d)
				listen(i)
				g.done()
			}()
		}
	}
	bp := &iproto.BalancerPoint{}
	bp.Init()
	ran := false
	child := func(i int) iproto.EndPoint {
		return (&client.ServerConfig{Network: "tcp", Address: addrs[i], RetCodeType: rc, Connections: 1 + e.N(2), PingInterval: -1}).NewServer()
	}
	var after []int
	for i := range kinds {
		switch e.N(4) {
		case 0: // while it runs
			after = append(after, i)
		case 1: // below another one
			in := &iproto.BalancerPoint{}
			in.Init()
			in.AddChild(child(i))
			bp.AddChild(in)
		default:
			bp.AddChild(child(i))
		}
	}
	iproto.Run(bp)
	ran = true
	stopIt := e.Chance(1, 3)
	if len(after) > 0 {
		s := e.Stream("add")
		g.add(1)
		rt.GoNamed("adder", func() {
			defer g.done()
			for _, i := range after {
				if s.Chance(1, 2) {
					e.gap(s)
				}
				bp.AddChild(child(i))
			}
		})
	}
	for i := 1 + e.N(3); i > 0; i-- {
		s := e.Stream("client" + string(rune('0'+i)))
		g.add(1)
		rt.GoNamed("sender", func() {
			defer g.done()
			for j := 1 + s.N(10); j > 0; j-- {
				k := uint32(len(b.all))
				t := b.add(7, []byte{byte(k), byte(k >> 8), byte(k >> 16), byte(k >> 24)})
				t.send(bp)
				if s.Chance(1, 3) {
					sleep(e.dur(s) / 10)
				} else {
					e.gap(s)
				}
			}
		})
	}
	stopped := int64(-1)
	stop := func() {
		e.Log("stop")
		stopped = rt.Now()
		bp.Stop()
	}
	if stopIt {
		s := e.Stream("stop")
		g.add(1)
		rt.GoNamed("stopper", func() {
			defer g.done()
			sleep(e.dur(s))
			stop()
		})
	}
	if !waitFor(go_("join", g.wait), int64(1000*time.Second)) {
		e.Fail("C10", "blocked", "a sender, AddChild or Stop did not return")
		return
	}
	rt.Calm()
	settle := func() {
		sleep(int64(10 * time.Second))
		if n.Window < 4096 || (n.Seg > 0 && n.Seg < 200) || n.Lat+n.Jitter > 20*time.Millisecond {
			sleep(int64(60 * time.Second))
		}
	}
	settle()
	if lazy {
		sleep(int64(20 * time.Second))
	}
	if c, t := b.outstanding(); c > 0 {
		e.Fail("C10", "request not taken", "%d requests are not answered though a child has working connections; the first is %v", c, t)
	}
	for _, t := range b.all {
		if stopped >= 0 {
			t.checkOutcome("C10", iproto.RcShutdown, iproto.RcIOError)
		} else {
			t.checkOutcome("C10")
		}
	}
	if stopped < 0 {
		stop()
	}
	settle()
	if lazy {
		sleep(int64(20 * time.Second))
	}
	open := 0
	for _, p := range vnet.N().Pairs() {
		if !p.A.Done() {
			open++
		}
	}
	if x := rt.LiveIn("go-iproto/net/client"); x > 0 || open > 0 {
		e.Fail("C10", "child not stopped", "the balancer was stopped and %d goroutines and %d connections of its children are left", x, open)
	}
	_ = ran
}
