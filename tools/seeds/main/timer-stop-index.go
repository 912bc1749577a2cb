package main

import (
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

type tm struct {
	t iproto.Timer
	f func()
}

func (t *tm) Timer() *iproto.Timer { return &t.t }
func (t *tm) Expire()              { t.f() }

func main() {
	runtime.GOMAXPROCS(8)
	var armed, fired int64
	var wg sync.WaitGroup
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					fmt.Println("FAIL: panic:", e)
					os.Exit(1)
				}
			}()
			for time.Now().Before(end) {
				var ts [40]*tm
				for j := range ts {
					ts[j] = &tm{f: func() {}}
					ts[j].t.After(time.Duration(j)*time.Microsecond, ts[j])
					// one that nobody stops
					k := &tm{f: func() { atomic.AddInt64(&fired, 1) }}
					atomic.AddInt64(&armed, 1)
					k.t.After(time.Duration(200+j)*time.Microsecond, k)
				}
				for _, t := range ts {
					t.t.Stop()
				}
			}
		}()
	}
	wg.Wait()
	time.Sleep(2 * time.Second)
	if a, f := atomic.LoadInt64(&armed), atomic.LoadInt64(&fired); a != f {
		fail("%d timers armed and never stopped, %d fired", a, f)
	}
	ok()
}
