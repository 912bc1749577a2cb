package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	expired := make(chan bool, 1)
	serv := iproto.BF{N: 1, Timeout: 30 * time.Millisecond}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		until(3*time.Second, func() bool { return !cx.Alive() })
		expired <- cx.Timeout()
		time.Sleep(50 * time.Millisecond)
		return iproto.RcOK, iproto.Body("late")
	})
	res := make(iproto.Chan, 1)
	serv.Send(&iproto.Request{Msg: 1, Responder: res})
	select {
	case r := <-res:
		if r.Code != iproto.RcOK || string(r.Body) != "late" {
			fail("code %x body %q", r.Code, r.Body)
		}
		if !<-expired {
			fail("the context was not expired")
		}
	case <-time.After(5 * time.Second):
		fail("no answer")
	}
	ok()
}
