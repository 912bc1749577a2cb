package main

import (
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	var stats, answers int32
	serv := iproto.BF{N: 8}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		return iproto.RcOK, nil
	})
	st := iproto.StatWrap(serv, func(*iproto.Request, time.Duration) { atomic.AddInt32(&stats, 1) })
	const workers, each = 16, 20000
	if !within(60*time.Second, func() {
		var wg sync.WaitGroup
		for i := 0; i < workers; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < each; j++ {
					iproto.CallMsgBody(st, 1, nil)
					atomic.AddInt32(&answers, 1)
				}
			}()
		}
		wg.Wait()
	}) {
		fail("%d of %d requests were answered", atomic.LoadInt32(&answers), workers*each)
	}
	if n := atomic.LoadInt32(&stats); n != workers*each {
		fail("%d requests, %d reports", workers*each, n)
	}
	ok()
}
