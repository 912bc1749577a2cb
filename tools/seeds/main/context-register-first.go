package main

import (
	"runtime"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	runtime.GOMAXPROCS(8)
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		cx := &iproto.Context{}
		var go1 int32
		done := make(chan bool)
		go func() {
			for atomic.LoadInt32(&go1) == 0 {
			}
			cx.Cancel()
			close(done)
		}()
		var reqs []<-chan *iproto.Response
		for i := 0; i < 60; i++ {
			if i == 10 {
				atomic.StoreInt32(&go1, 1)
			}
			_, ch := cx.NewRequest(1, iproto.Body("x"))
			reqs = append(reqs, ch)
		}
		<-done
		for i, ch := range reqs {
			select {
			case <-ch:
			case <-time.After(2 * time.Second):
				fail("request %d was not cancelled with its context", i)
			}
		}
	}
	ok()
}
