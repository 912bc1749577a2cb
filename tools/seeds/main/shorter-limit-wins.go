package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	serv := iproto.BF{N: 1, Timeout: 100 * time.Millisecond}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		if r.Msg == 1 {
			time.Sleep(500 * time.Millisecond)
		}
		return iproto.RcOK, nil
	})
	iproto.SendMsgBody(serv, 1, nil)
	res := make(iproto.Chan, 1)
	r := &iproto.Request{Msg: 2, Responder: res}
	r.SetTimeout(30 * time.Second)
	serv.Send(r)
	if a := <-res; a.Code != iproto.RcOK {
		fail("a request with 30 s left was answered with %x", a.Code)
	}
	ok()
}
