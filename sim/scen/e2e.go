package scen

import (
	"fmt"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// Real clients and real servers together, directly, through a proxy or with a
// balancer over several servers.

func regE2E(name string, w int, k eknobs, props ...string) bool {
	return register(&Scenario{Name: name, Props: props, Weight: w, Real: realCore + "; " + realNet, Stub: stubNet + "; the handlers of the services", Run: func(e *Env) { e2eRun(e, k) }})
}

var _ = regE2E("whole", 1, eknobs{}, "N02", "N03", "N07")
var _ = regE2E("whole-limits", 1, eknobs{limits: true, many: true}, "N02", "N07")
var _ = regE2E("whole-breaks", 1, eknobs{breaks: true, limits: true}, "N02", "N03", "N04", "N09")
var _ = regE2E("whole-server-stop", 1, eknobs{stopSrv: true}, "N10", "N04", "N03")
var _ = regE2E("whole-client-stop", 1, eknobs{stopCli: true}, "N06")
var _ = regE2E("whole-resend", 1, eknobs{breaks: true, resend: true}, "C01")
var _ = regE2E("whole-multi", 1, eknobs{multi: true, limits: true}, "C06")
var _ = regE2E("whole-multi-breaks", 1, eknobs{multi: true, breaks: true}, "C06")
var _ = regE2E("whole-both-stop", 1, eknobs{stopCli: true, stopSrv: true, breaks: true, limits: true}, "N06", "N10")

type eknobs struct {
	limits  bool
	breaks  bool
	many    bool
	stopSrv bool
	stopCli bool
	resend  bool // hooks send what failed again
	multi   bool // requests are issued through multi-requests
}

type esrv struct {
	w       *eworld
	n       int
	addr    string
	rc      nt.RCType
	s       *server.Server
	stopAt  int64
	stopRet int64
	slack   int64
	up      *ecli // what a proxy forwards to
}

type ecli struct {
	w      *eworld
	c      *client.Server
	to     *esrv
	bal    *iproto.BalancerPoint
	ep     iproto.EndPoint
	stopAt int64
	kids   []*ecli
}

type ereq struct {
	*treq
	cli    *ecli
	limit  int64
	cancel bool
	execs  int
	on     *esrv
	execAt int64
	got    *iproto.Request
	front  int // times a proxy has seen it
	hook   *retry
	g      *egroup
}

type egroup struct {
	n    int
	reqs []*ereq
	got  int
	lim  bool
	canc bool
	done bool
}

// tries counts how often it may have been sent.
func (t *ereq) tries() int {
	if t.hook != nil {
		return 1 + t.hook.used
	}
	return 1
}

type eworld struct {
	e     *Env
	k     eknobs
	b     *book
	srvs  []*esrv
	leafs []*esrv
	clis  []*ecli
	reqs  []*ereq
	grps  []*egroup
	byMsg map[uint32]*ereq
	hs    *rt.Stream
	last  int64
	top   int
	unix  bool
	rcmap map[iproto.RetCode]iproto.RetCode
}

// seen: what code the caller sees when the leaf answers c.
func (w *eworld) seen(t *ereq, leaf *esrv, c iproto.RetCode) iproto.RetCode {
	hop := func(s *esrv, c iproto.RetCode) iproto.RetCode {
		if c&7 == 3 {
			if m := w.rcmap[c]; m != 0 {
				c = m
			} else {
				c = c&^7 | 2
			}
		}
		return iproto.RetCode(wireCode(s.rc, 1, uint32(c)))
	}
	c = hop(leaf, c)
	if w.top == 1 {
		c = hop(w.srvs[len(w.srvs)-1], c)
	}
	return c
}

func (w *eworld) server(rc nt.RCType, up *ecli) *esrv {
	s := &esrv{w: w, n: len(w.srvs), addr: fmt.Sprintf("srv%d:1", len(w.srvs)), rc: rc, up: up, stopAt: -1, stopRet: -1}
	network := "tcp"
	if w.unix {
		s.addr, network = "/run/"+s.addr[:4], "unix"
	}
	cfg := server.Config{Network: network, Address: s.addr, RCType: rc, RCMap: w.rcmap}
	if up != nil {
		cfg.EndPoint = iproto.Route(func(r *iproto.Request) {
			if t := w.byMsg[uint32(r.Msg)]; t != nil {
				t.front++
				if t.front > t.tries() {
					w.e.FailAny("executed twice", "%v reached the proxy again", t.treq)
				}
			}
			up.ep.Send(r)
		})
	} else {
		cfg.EndPoint = iproto.SF(s.exec)
	}
	s.s = cfg.NewServer()
	if err := s.s.Run(); err != nil {
		w.e.FailAny("server does not run", "%v", err)
	}
	w.srvs = append(w.srvs, s)
	return s
}

func (s *esrv) exec(r *iproto.Request) {
	w, e := s.w, s.w.e
	t := w.byMsg[uint32(r.Msg)]
	if t == nil {
		e.FailAny("request made up", "server %d was given msg %x", s.n, uint32(r.Msg))
		return
	}
	t.execs++
	t.on = s
	t.execAt = rt.Now()
	t.got = r
	e.Log("server %d executes %v", s.n, t.treq)
	if t.execs > t.tries() {
		e.FailAny("executed twice", "%v", t.treq)
	}
	if string(r.Body) != string(t.body) && !r.Performed() {
		e.FailAny("request changed", "%v was sent with body %d %s and executed with %d %s", t.treq, len(t.body), short(t.body), len(r.Body), short(r.Body))
	}
	if s.stopRet >= 0 && t.sentAt > s.stopRet && t.execAt-s.stopRet > 2*(rt.Slack()-s.slack)+eps+2*ms {
		e.Fail("N10", "executed after the stop", "%v was sent at %d, server %d had been stopped at %d, and it was executed at %d", t.treq, t.sentAt, s.n, s.stopRet, t.execAt)
	}
	ans := func() {
		code := svcCodes[w.hs.N(len(svcCodes))]
		sz := bodySize(w.hs)
		if w.k.many {
			sz %= 200
		}
		body := mkBody(uint32(r.Msg), 31, sz)
		t.offered("handler", w.seen(t, s, code), body)
		r.RespondBytes(code, append([]byte(nil), body...))
	}
	d := int64(0)
	switch w.hs.N(3) {
	case 0:
		ans()
		return
	case 1:
		d = e.dur(w.hs)
	case 2:
		d = w.hs.Log(20 * ms)
	}
	if x := rt.Now() + d; x > w.last {
		w.last = x
	}
	go func() {
		sleep(d)
		ans()
	}()
}

func (w *eworld) client(to *esrv, run bool) *ecli {
	e := w.e
	cfg := client.ServerConfig{Address: to.addr, RetCodeType: to.rc, Connections: 1 + e.N(3)}
	cfg.PingInterval = []time.Duration{0, -1, 300 * time.Millisecond}[e.N(3)]
	if w.k.limits && e.Chance(1, 5) {
		cfg.Timeout = time.Duration(1 + e.dur(e.w))
	}
	c := &ecli{w: w, c: cfg.NewServer(), to: to, stopAt: -1}
	c.ep = c.c
	if run {
		iproto.Run(c.c)
	}
	return c
}

func e2eRun(e *Env, k eknobs) {
	n := e.network()
	w := &eworld{e: e, k: k, b: newBook(e, e.Prop), byMsg: map[uint32]*ereq{}, hs: e.Stream("h")}
	rc := func() nt.RCType { return []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)] }
	if e.Chance(1, 3) {
		w.rcmap = map[iproto.RetCode]iproto.RetCode{iproto.RcShutdown: 0x71, iproto.RcIOError: 0x62, 0x4203: 0x55}
	}
	w.top = e.N(3)
	w.unix = e.Chance(1, 10)
	switch w.top {
	case 0:
		// one server
		s := w.server(rc(), nil)
		for i := 1 + e.N(3); i > 0; i-- {
			w.clis = append(w.clis, w.client(s, true))
		}
	case 1:
		// a proxy before the server
		s := w.server(rc(), nil)
		up := w.client(s, true)
		p := w.server(rc(), up)
		for i := 1 + e.N(2); i > 0; i-- {
			w.clis = append(w.clis, w.client(p, true))
		}
	case 2:
		// two servers and a balancer
		var ss []*esrv
		r := rc()
		for i := 1 + e.N(3); i > 0; i-- {
			ss = append(ss, w.server(r, nil))
		}
		b := &iproto.BalancerPoint{}
		b.Init()
		c := &ecli{w: w, bal: b, ep: b, stopAt: -1}
		for _, s := range ss {
			kid := w.client(s, false)
			c.kids = append(c.kids, kid)
			b.AddChild(kid.c)
		}
		iproto.Run(b)
		w.clis = append(w.clis, c)
	}
	g := newWg()
	per := 1 + e.N(12)
	if k.many {
		per = 20 + e.N(200)
	}
	send := func(s *rt.Stream, c *ecli) {
		sz := bodySize(s)
		if k.many {
			sz %= 100
		}
		msg := uint32(0x10000 + len(w.reqs))
		t := &ereq{treq: w.b.add(iproto.RequestType(msg), mkBody(msg, 5, sz)), cli: c}
		w.reqs = append(w.reqs, t)
		w.byMsg[msg] = t
		t.req.Body = append(iproto.Body(nil), t.body...)
		if k.limits && s.Chance(1, 4) {
			t.limit = 1 + e.dur(s)
			t.req.SetTimeout(time.Duration(t.limit))
		}
		if k.limits && s.Chance(1, 8) {
			t.cancel = true
			d := e.dur(s)
			go func() {
				sleep(d)
				t.req.Cancel()
			}()
		}
		if k.resend && s.Chance(3, 4) {
			m := &retry{left: 1 + s.N(3), codes: map[iproto.RetCode]bool{iproto.RcIOError: true}}
			if s.Chance(1, 3) {
				m.codes[svcCodes[s.N(len(svcCodes))]] = true
			}
			m.onTry = func() { e.Probe("resent") }
			m.send = func(r *iproto.Request) {
				e.gap(w.hs)
				c.ep.Send(r)
			}
			if t.req.ChainBookmark(m) {
				t.hook = m
				t.onResp = func() {
					if m.left > 0 && m.codes[t.code] {
						e.FailAny("answered past the resend hook", "%v was answered with %x although its hook would send it again on that", t.treq, uint32(t.code))
					}
				}
			}
		}
		t.send(c.ep)
	}
	// group issues some requests through a multi-request and collects it
	group := func(s *rt.Stream, num int) {
		gr := &egroup{n: len(w.grps)}
		w.grps = append(w.grps, gr)
		var m *iproto.MultiRequest
		var cx *iproto.Context
		if s.Chance(1, 2) {
			cx = &iproto.Context{}
			m = cx.NewMulti()
		} else {
			m = &iproto.MultiRequest{}
		}
		c := w.clis[s.N(len(w.clis))]
		if k.limits && s.Chance(1, 4) {
			gr.lim = true
			m.SetTimeout(time.Duration(1 + e.dur(s)))
		}
		if k.limits && s.Chance(1, 6) {
			gr.canc = true
			d := e.dur(s)
			go func() {
				sleep(d)
				if cx != nil {
					cx.Cancel()
				} else {
					m.Cancel()
				}
			}()
		}
		for j := 0; j < num; j++ {
			msg := uint32(0x10000 + len(w.reqs))
			t := &ereq{treq: &treq{e: e, prop: e.Prop, n: len(w.reqs), msg: iproto.RequestType(msg), id: uint32(j), done: make(chan bool)}, cli: c, g: gr}
			t.body = mkBody(msg, 5, bodySize(s))
			w.reqs = append(w.reqs, t)
			w.b.all = append(w.b.all, t.treq)
			w.byMsg[msg] = t
			gr.reqs = append(gr.reqs, t)
			t.sentAt = rt.Now()
			if gr.lim {
				t.limit = 1
			}
			t.cancel = gr.canc
			t.req = m.SendMsgBody(c.ep, t.msg, append(iproto.Body(nil), t.body...))
			if s.Chance(1, 4) {
				e.gap(s)
			}
		}
		take := func(r *iproto.Response) {
			gr.got++
			if r == nil || int(r.Id) >= len(gr.reqs) {
				e.FailAny("response of nobody", "group %d got %+v", gr.n, r)
				return
			}
			gr.reqs[r.Id].Respond(r)
		}
		g.add(1)
		rt.GoNamed("collector", func() {
			defer g.done()
			if s.Chance(1, 2) {
				for r := range m.Each() {
					take(r)
				}
			} else {
				for _, r := range m.Results() {
					take(r)
				}
			}
			gr.done = true
			if gr.got != len(gr.reqs) {
				e.FailAny("wrong number of responses", "group %d of %d requests yielded %d responses", gr.n, len(gr.reqs), gr.got)
			}
			if cx != nil {
				cx.WaitAll()
			}
		})
	}
	for i := 1 + e.N(4); i > 0; i-- {
		s := e.Stream("s" + string(rune('a'+i)))
		g.add(1)
		rt.GoNamed("sender", func() {
			defer g.done()
			burst := s.Chance(1, 3)
			for j := 0; j < per; j++ {
				if k.multi {
					x := 1 + s.N(8)
					if s.Chance(1, 8) {
						x += s.N(60)
					}
					group(s, x)
					j += x
					continue
				}
				send(s, w.clis[s.N(len(w.clis))])
				if !burst {
					e.gap(s)
				}
			}
		})
	}
	if k.breaks {
		s := e.Stream("chaos")
		g.add(1)
		rt.GoNamed("chaos", func() {
			defer g.done()
			for i := 1 + s.N(5); i > 0; i-- {
				sleep(e.dur(s))
				var l []*vnet.Pair
				for _, p := range n.Pairs() {
					if p.A.CWAt == 0 && p.B.CWAt == 0 {
						l = append(l, p)
					}
				}
				if len(l) == 0 {
					continue
				}
				p := l[s.N(len(l))]
				switch s.N(6) {
				case 0:
					p.Reset()
				case 1:
					p.ResetA()
				case 2:
					p.A.WriteErrAfter = 1 + int(s.Log(500))
				case 3:
					p.B.WriteErrAfter = 1 + int(s.Log(500))
				case 4:
					p.A.ReadErr = true
				case 5:
					p.Hold()
					d := e.dur(s)
					go func() {
						sleep(d)
						p.Heal()
					}()
				}
			}
		})
	}
	if k.stopSrv {
		s := e.Stream("stops")
		g.add(1)
		rt.GoNamed("server stop", func() {
			defer g.done()
			sleep(e.dur(s))
			for _, v := range w.srvs {
				if s.Chance(1, 3) && len(w.srvs) > 1 {
					continue
				}
				sleep(e.dur(s))
				v.stopAt = rt.Now()
				v.slack = rt.Slack()
				e.Log("stop server %d", v.n)
				v.s.Stop()
				v.stopRet = rt.Now()
			}
		})
	}
	if k.stopCli {
		s := e.Stream("stopc")
		g.add(1)
		rt.GoNamed("client stop", func() {
			defer g.done()
			for _, c := range w.clis {
				if s.Chance(1, 4) {
					continue
				}
				sleep(e.dur(s))
				c.stopAt = rt.Now()
				e.Log("stop client")
				c.ep.Stop()
			}
		})
	}
	if done := go_("join", g.wait); !waitFor(done, int64(300*time.Second)) {
		e.FailAny("sender blocked", "a sender did not finish")
		return
	}
	rt.Calm()
	for _, p := range n.Pairs() {
		p.Heal()
		p.A.WriteErrAfter, p.B.WriteErrAfter, p.A.ReadErr = 0, 0, false
	}
	settle := int64(10 * time.Second)
	if n.Window < 4096 || (n.Seg > 0 && n.Seg < 200) || n.Lat+n.Jitter > 20*time.Millisecond {
		settle += int64(120 * time.Second)
	}
	sleep(settle)
	if k.stopSrv {
		// each failed dial fails what the queue holds, and the run may have
		// made that small
		for i := 0; i < len(w.reqs)+5; i++ {
			if c, _ := w.b.outstanding(); c == 0 {
				break
			}
			sleep(int64(5300 * time.Millisecond))
		}
	}
	w.check()
	// and the rest stops
	for _, c := range w.clis {
		c.ep.Stop()
	}
	for i := len(w.srvs) - 1; i >= 0; i-- {
		if w.srvs[i].up != nil {
			w.srvs[i].up.ep.Stop()
		}
	}
	sleep(int64(5 * time.Second))
	if settle > int64(20*time.Second) {
		sleep(int64(60 * time.Second))
	}
	for _, s := range w.srvs {
		s.s.Stop()
	}
	sleep(int64(5 * time.Second))
	for _, p := range n.Pairs() {
		if p.A.CWAt == 0 {
			e.Fail("N06", "connection left behind", "a connection of a client that was stopped is open")
		}
		if p.B.CWAt == 0 && p.B.Accepted {
			e.Fail("N10", "connection left behind", "a connection of a server that was stopped is open")
		}
	}
	for _, s := range w.srvs {
		if !isClosed(s.s.Running) {
			e.Fail("N10", "stop does not finish", "server %d was stopped and all its clients too; it has not finished", s.n)
		}
	}
	if x := rt.LiveIn("go-iproto/net/server"); x > 0 {
		e.Fail("N10", "left running", "%d goroutines of stopped servers are left", x)
	}
	if x := rt.LiveIn("go-iproto/net/client"); x > 0 {
		e.Fail("N06", "left running", "%d goroutines of stopped clients are left", x)
	}
}

func (w *eworld) check() {
	e, k := w.e, w.k
	allDown := false
	if w.top == 2 {
		// a balancer without any server left keeps its queue
		allDown = true
		for _, s := range w.srvs {
			if s.stopAt < 0 {
				allDown = false
			}
		}
	}
	for _, t := range w.reqs {
		if t.calls == 0 {
			if allDown && t.execs == 0 && t.cli.stopAt < 0 {
				continue
			}
			e.FailAny("unanswered", "%v, sent at %d, executed %d times, is not answered long after all faults ended", t.treq, t.sentAt, t.execs)
			continue
		}
		var extra []iproto.RetCode
		io := func(c iproto.RetCode) {
			extra = append(extra, c)
			if w.top == 1 {
				p := w.srvs[len(w.srvs)-1]
				m := w.rcmap[c]
				if m == 0 {
					m = c&^7 | 2
				}
				extra = append(extra, iproto.RetCode(wireCode(p.rc, 1, uint32(m))))
			}
		}
		if k.limits {
			io(iproto.RcTimeout)
		}
		if t.cancel {
			io(iproto.RcCanceled)
		}
		if k.breaks {
			io(iproto.RcIOError)
			io(iproto.RcCanceled)
		}
		if k.stopSrv {
			io(iproto.RcIOError)
			io(iproto.RcShutdown)
		}
		if k.stopCli {
			extra = append(extra, iproto.RcShutdown)
		}
		if t.onlyIO() {
			io(iproto.RcIOError)
		}
		t.checkOutcome(e.Prop, extra...)
		mine := false
		for _, o := range t.offers {
			if o.code == t.code && string(o.body) == string(t.rbody) {
				mine = true
			}
		}
		if t.execs > 0 && !mine && !k.breaks && !k.limits {
			e.FailAny("answer lost", "%v was executed by server %d at %d, answered by its handler, and the caller got code %x at %d", t.treq, t.on.n, t.execAt, uint32(t.code), t.at)
		}
		if t.execs == 0 && !k.breaks && !k.limits && !k.stopSrv && !k.stopCli && !t.onlyIO() {
			e.FailAny("not executed", "%v was never executed and got code %x", t.treq, uint32(t.code))
		}
	}
}

// onlyIO: no connection was there when it was sent (a refused dial fails what
// is queued; cannot happen when the server runs).
func (t *ereq) onlyIO() bool { return false }
