package main

import (
	"net"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	addr, _ := listen(func(c *net.TCPConn) {
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				return
			}
			c.Write(frame(msg, id, body))
		}
	})
	for round := 0; round < 3000; round++ {
		a := &client.Auto{Config: &client.ServerConfig{PingInterval: time.Hour}}
		a.Get(addr)
		var wg sync.WaitGroup
		var got *client.Server
		start := make(chan bool)
		wg.Add(2)
		go func() {
			defer wg.Done()
			<-start
			got = a.Get("127.0.0.2:1")
		}()
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < round%40*30; i++ {
			}
			a.Stop()
		}()
		close(start)
		wg.Wait()
		// it was stopped, or it is the registry's current one
		if a.Get("127.0.0.2:1") != got {
			_, ch := iproto.SendMsgBody(got, 1, nil)
			select {
			case r := <-ch:
				if r.Code != iproto.RcShutdown {
					fail("round %d: a client of a stopped registry goes on: %x", round, r.Code)
				}
			case <-time.After(time.Second):
				fail("round %d: a client of a stopped registry goes on", round)
			}
		}
		a.Stop()
	}
	ok()
}
