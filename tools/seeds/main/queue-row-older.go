package main

import (
	"runtime"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

type point struct {
	iproto.SimplePoint
	open chan bool
	got  chan uint32
}

func (p *point) Loop() {
	<-p.open
	for r := range p.ReceiveChan() {
		if r.SetInFly(nil) {
			p.got <- r.Id
			r.RespondBytes(iproto.RcOK, nil)
		}
	}
}

func main() {
	runtime.GOMAXPROCS(8)
	const senders, each = 8, 20000
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		p := &point{open: make(chan bool), got: make(chan uint32, senders*each)}
		p.Init(p)
		iproto.Run(p)
		var wg sync.WaitGroup
		for s := 0; s < senders; s++ {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < each; i++ {
					p.Send(&iproto.Request{Id: uint32(s*each + i), Responder: iproto.Callback(func(*iproto.Response) {})})
				}
			}()
		}
		wg.Wait()
		close(p.open)
		last := [senders]int{}
		for n := 0; n < senders*each; n++ {
			select {
			case id := <-p.got:
				s, i := int(id)/each, int(id)%each
				if last[s] != i {
					fail("request %d of sender %d came instead of %d", i, s, last[s])
				}
				last[s]++
			case <-time.After(5 * time.Second):
				fail("%d of %d requests never arrived", senders*each-n, senders*each)
			}
		}
		p.Stop()
	}
	ok()
}
