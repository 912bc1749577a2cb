package scen

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

// loopPoint is a user-written endpoint: its loop takes requests and answers
// them by itself or hands them to goroutines.
type loopPoint struct {
	iproto.SimplePoint
	h       func(r *iproto.Request)
	async   bool
	got     func(r *iproto.Request)
	delay   int64
	exited  bool
	claims  bool
	useMark bool
}

type userMark struct {
	iproto.Bookmark
	n int
}

func (m *userMark) Respond(*iproto.Response) { m.n++ }

func (p *loopPoint) Loop() {
	for {
		select {
		case r, ok := <-p.ReceiveChan():
			if !ok {
				p.exited = true
				return
			}
			if p.got != nil {
				p.got(r)
			}
			var m iproto.RequestBookmark
			if p.useMark {
				m = &userMark{}
			}
			if !r.SetInFly(m) {
				continue
			}
			if p.async {
				go p.h(r)
			} else {
				p.h(r)
			}
			if p.delay > 0 {
				time.Sleep(time.Duration(p.delay))
			}
		case <-p.ExitChan():
			p.exited = true
			return
		}
	}
}

func newLoopPoint(timeout time.Duration, h func(*iproto.Request)) *loopPoint {
	p := &loopPoint{h: h}
	p.Timeout = timeout
	p.SimplePoint.Init(p)
	return p
}

// panicky values
type boomErr struct{}

// retry is a resend hook: it puts a request back and sends it again.
type retry struct {
	iproto.Bookmark
	left  int
	codes map[iproto.RetCode]bool
	send  func(*iproto.Request)
	used  int
	early bool // ask Performed inside
	onTry func()
	again func(*iproto.Request) // instead of send: answer it in another way
}

func (m *retry) Respond(res *iproto.Response) {
	if m.left == 0 || !m.codes[res.Code] {
		return
	}
	m.left--
	m.used++
	r := m.Request
	if m.again != nil {
		if r.ResetToPending() {
			m.onTry()
			again := m.again
			go again(r)
		}
		return
	}
	if r.ResetToNew() {
		if m.onTry != nil {
			m.onTry()
		}
		send := m.send
		go send(r)
	}
}

var _ = rt.Now

// sendSpy notes what is sent to a service.
type sendSpy struct {
	iproto.Service
	seen map[iproto.RequestType]int
}

func newSendSpy(s iproto.Service) *sendSpy {
	return &sendSpy{s, map[iproto.RequestType]int{}}
}

func (s *sendSpy) Send(r *iproto.Request) {
	s.seen[r.Msg]++
	s.Service.Send(r)
}

// sent is called when a call that makes a request and sends it has returned.
func (s *sendSpy) sent(e *Env, prop string, r *iproto.Request, msg iproto.RequestType) {
	if n := s.seen[msg]; n > 1 || n == 0 && !r.Performed() {
		e.Fail(prop, "request not sent", "a call that makes and sends a request returned, and the service has got request %d %d times", msg, n)
	}
}
