package main

import (
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	runtime.GOMAXPROCS(8)
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		const n = 4
		var calls int32
		r := &iproto.Request{Msg: 1, Id: 1}
		r.Responder = iproto.Callback(func(*iproto.Response) { atomic.AddInt32(&calls, 1) })
		r.SetPending()
		r.SetInFly(nil)
		var wg sync.WaitGroup
		var start, crashed int32
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						atomic.StoreInt32(&crashed, 1)
					}
				}()
				atomic.AddInt32(&start, 1)
				for atomic.LoadInt32(&start) < n {
				}
				r.RespondBytes(iproto.RcOK, []byte{byte(i)})
			}()
		}
		if !within(5*time.Second, wg.Wait) {
			fail("answering twice blocked or crashed")
		}
		if crashed != 0 {
			fail("a second answer crashed")
		}
		if calls != 1 {
			fail("answered %d times", calls)
		}
	}
	ok()
}
