package main

import (
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	addr, _ := listen(func(c *net.TCPConn) {
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				return
			}
			c.Write(frame(msg, id, body))
		}
	})
	for round := 0; round < 200; round++ {
		a := &client.Auto{Config: &client.ServerConfig{PingInterval: time.Hour}}
		var got [8]*client.Server
		var wg sync.WaitGroup
		var start int32
		for i := range got {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt32(&start, 1)
				for atomic.LoadInt32(&start) < int32(len(got)) {
				}
				got[i] = a.Get(addr)
			}()
		}
		wg.Wait()
		for i := range got {
			if got[i] == nil || got[i] != got[0] {
				fail("round %d: two clients for one address", round)
			}
		}
		a.Stop()
	}
	ok()
}
