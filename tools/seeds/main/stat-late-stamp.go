package main

import (
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	var m sync.Mutex
	var ds []time.Duration
	bare := iproto.SF(func(r *iproto.Request) {
		time.Sleep(20 * time.Millisecond)
		r.RespondBytes(iproto.RcOK, nil)
		time.Sleep(60 * time.Millisecond)
	})
	s := iproto.StatWrap(bare, func(r *iproto.Request, d time.Duration) {
		m.Lock()
		ds = append(ds, d)
		m.Unlock()
	})
	res := make(iproto.Chan, 1)
	s.Send(&iproto.Request{Msg: 1, Responder: res})
	<-res
	m.Lock()
	defer m.Unlock()
	if len(ds) != 1 || ds[0] < 15*time.Millisecond || ds[0] > 10*time.Second {
		fail("reported %v", ds)
	}
	ok()
}
