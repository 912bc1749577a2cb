package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

type point struct {
	iproto.SimplePoint
	gone chan bool
}

func (p *point) Loop() {
	<-p.ExitChan()
	p.gone <- true
}

func main() {
	b := &iproto.BalancerPoint{}
	b.Init()
	gone := make(chan bool, 10)
	for i := 0; i < 3; i++ {
		p := &point{gone: gone}
		p.Init(p)
		b.AddChild(p)
	}
	iproto.Run(b)
	time.Sleep(50 * time.Millisecond)
	b.Stop()
	for i := 0; i < 3; i++ {
		select {
		case <-gone:
		case <-time.After(2 * time.Second):
			fail("%d of 3 children were stopped", i)
		}
	}
	ok()
}
