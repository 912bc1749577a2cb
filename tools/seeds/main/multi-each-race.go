package main

import (
	"runtime"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	runtime.GOMAXPROCS(8)
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		const n = 40
		m := &iproto.MultiRequest{}
		var held []*iproto.Request
		serv := iproto.SF(func(r *iproto.Request) { held = append(held, r) })
		for i := 0; i < n; i++ {
			m.SendMsgBody(serv, 1, iproto.Body("x"))
		}
		var start int32
		for k := 0; k < 4; k++ {
			part := held[k*n/4 : (k+1)*n/4]
			go func() {
				for atomic.LoadInt32(&start) == 0 {
				}
				for _, r := range part {
					r.RespondBytes(iproto.RcOK, nil)
				}
			}()
		}
		atomic.StoreInt32(&start, 1)
		for x := 0; x < 50; x++ {
			runtime.Gosched()
		}
		ch := m.Each()
		got := 0
		limit := time.After(3 * time.Second)
	Loop:
		for {
			select {
			case _, more := <-ch:
				if !more {
					break Loop
				}
				got++
			case <-limit:
				fail("the stream did not end: %d of %d answers", got, n)
			}
		}
		if got != n {
			fail("%d of %d answers", got, n)
		}
	}
	ok()
}
