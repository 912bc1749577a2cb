package main

import (
	"runtime"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

type point struct {
	iproto.SimplePoint
	ran chan bool
}

func (p *point) Loop() {
	p.ran <- true
	<-p.ExitChan()
}

func main() {
	runtime.GOMAXPROCS(8)
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		b := &iproto.BalancerPoint{}
		b.Init()
		ran := make(chan bool, 300)
		const n = 40
		iproto.Run(b)
		for i := 0; i < n; i++ {
			p := &point{ran: ran}
			p.Init(p)
			b.AddChild(p)
		}
		for i := 0; i < n; i++ {
			select {
			case <-ran:
			case <-time.After(2 * time.Second):
				fail("%d of %d children were run", i, n)
			}
		}
		b.Stop()
	}
	ok()
}
