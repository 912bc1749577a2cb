package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

type point struct {
	iproto.SimplePoint
	open chan bool
	got  chan uint32
}

func (p *point) Loop() {
	<-p.open
	for r := range p.ReceiveChan() {
		if r.SetInFly(nil) {
			p.got <- r.Id
			r.RespondBytes(iproto.RcOK, nil)
		}
	}
}

func main() {
	const all = 200000
	for round := 0; round < 8; round++ {
		p := &point{open: make(chan bool), got: make(chan uint32, all)}
		p.Init(p)
		iproto.Run(p)
		go func() {
			for i := 0; i < all; i++ {
				if i == 16500 {
					close(p.open)
				}
				p.Send(&iproto.Request{Id: uint32(i), Responder: iproto.Callback(func(*iproto.Response) {})})
			}
		}()
		for n := 0; n < all; n++ {
			select {
			case id := <-p.got:
				if id != uint32(n) {
					fail("request %d came instead of %d", id, n)
				}
			case <-time.After(5 * time.Second):
				fail("request %d never arrived", n)
			}
		}
		p.Stop()
	}
	ok()
}
