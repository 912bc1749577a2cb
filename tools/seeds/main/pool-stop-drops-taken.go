package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	hold := make(chan bool)
	serv := iproto.BF{N: 1}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		<-hold
		return iproto.RcOK, nil
	})
	send := func(m iproto.RequestType) iproto.Chan {
		res := make(iproto.Chan, 1)
		serv.Send(&iproto.Request{Msg: m, Responder: res})
		time.Sleep(50 * time.Millisecond)
		return res
	}
	a, b, c := send(1), send(2), send(3)
	serv.Stop()
	for i, ch := range []iproto.Chan{c, b} {
		select {
		case r := <-ch:
			if r.Code != iproto.RcShutdown {
				fail("request %d got code %x", 3-i, r.Code)
			}
		case <-time.After(3 * time.Second):
			fail("request %d is not answered after the stop", 3-i)
		}
	}
	close(hold)
	<-a
	ok()
}
