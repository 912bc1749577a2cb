package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	cx := &iproto.Context{}
	silent := iproto.SF(func(*iproto.Request) {})
	var res []<-chan *iproto.Response
	for i := 0; i < 40; i++ {
		_, ch := cx.SendMsgBody(silent, 1, iproto.Body("x"))
		res = append(res, ch)
	}
	cx.Cancel()
	for i, ch := range res {
		select {
		case r := <-ch:
			if r.Code != iproto.RcCanceled {
				fail("request %d: code %x", i, r.Code)
			}
		case <-time.After(2 * time.Second):
			fail("request %d was not cancelled", i)
		}
	}
	ok()
}
