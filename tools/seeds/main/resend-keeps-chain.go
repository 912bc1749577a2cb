package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

type hook struct {
	iproto.Bookmark
	n int
	f func(*iproto.Request)
}

func (h *hook) Respond(res *iproto.Response) {
	if res.Code == iproto.RcIOError && h.n > 0 {
		h.n--
		req := h.Request
		req.ResetToPending()
		h.f(req)
	}
}

func main() {
	got := make(chan iproto.Response, 10)
	r := &iproto.Request{Msg: 1, Id: 7, Body: []byte("body")}
	r.Responder = iproto.Callback(func(res *iproto.Response) { got <- *res })
	queue := make(chan *iproto.Request, 10)
	// two failures, and both have to be caught by the same hook
	r.ChainBookmark(&hook{n: 2, f: func(q *iproto.Request) { queue <- q }})
	r.SetPending()
	r.IOError()
	q := <-queue
	q.IOError()
	select {
	case q = <-queue:
	case <-time.After(2 * time.Second):
		fail("the second failure was not sent again")
	}
	if !q.SetInFly(nil) {
		fail("the request is not pending")
	}
	q.RespondBytes(iproto.RcOK, []byte("answer"))
	select {
	case res := <-got:
		if res.Code != iproto.RcOK || string(res.Body) != "answer" {
			fail("got code %x body %q", res.Code, res.Body)
		}
	case <-time.After(2 * time.Second):
		fail("no answer")
	}
	ok()
}
