package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	runtime.GOMAXPROCS(8)
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		const n = 4
		m := &iproto.MultiRequest{}
		var held []*iproto.Request
		serv := iproto.SF(func(r *iproto.Request) { held = append(held, r) })
		for i := 0; i < n; i++ {
			m.SendMsgBody(serv, 1, iproto.Body("x"))
		}
		ch := m.Each()
		var start int32
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						fmt.Println("FAIL: panic:", e)
						os.Exit(1)
					}
				}()
				atomic.AddInt32(&start, 1)
				for atomic.LoadInt32(&start) < n {
				}
				held[k].RespondBytes(iproto.RcOK, nil)
			}()
		}
		got := 0
		for range ch {
			got++
		}
		wg.Wait()
		if got != n {
			fail("%d of %d answers", got, n)
		}
	}
	ok()
}
