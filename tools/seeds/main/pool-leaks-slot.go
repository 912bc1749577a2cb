package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	hold := make(chan bool)
	serv := iproto.BF{N: 1}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		if r.Msg == 1 {
			<-hold
		}
		return iproto.RcOK, nil
	})
	send := func(m iproto.RequestType) (*iproto.Request, iproto.Chan) {
		res := make(iproto.Chan, 1)
		r := &iproto.Request{Msg: m, Responder: res}
		serv.Send(r)
		return r, res
	}
	_, a := send(1)
	time.Sleep(50 * time.Millisecond)
	r, b := send(2)
	time.Sleep(50 * time.Millisecond) // taken from the queue by now
	r.Cancel()
	<-b
	close(hold)
	<-a
	_, c := send(3)
	select {
	case <-c:
	case <-time.After(3 * time.Second):
		fail("the pool serves nothing any more")
	}
	ok()
}
