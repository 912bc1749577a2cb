package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

func main() {
	addr := freeAddr()
	got := make(chan *iproto.Request, 100)
	cfg := &server.Config{Network: "tcp", Address: addr, ReadTimeout: time.Second, EndPoint: iproto.SF(func(r *iproto.Request) {
		got <- r
	})}
	s := cfg.NewServer()
	check(s.Run())
	c := client.ServerConfig{Address: addr, Connections: 1, PingInterval: 100 * time.Millisecond}.NewServer()
	iproto.Run(c)
	_, a := iproto.SendMsgBody(c, 1, nil)
	ra := <-got
	time.Sleep(2500 * time.Millisecond)
	// the connection must still take requests
	_, b := iproto.SendMsgBody(c, 2, nil)
	select {
	case r := <-got:
		if r.Responder != ra.Responder {
			fail("the connection of a client that sends pings was replaced")
		}
		r.RespondBytes(0, nil)
	case res := <-b:
		fail("request answered with %x", res.Code)
	case <-time.After(3 * time.Second):
		fail("request not received")
	}
	ra.RespondBytes(0, nil)
	if res := <-a; res.Code != 0 {
		fail("request answered with %x", res.Code)
	}
	if res := <-b; res.Code != 0 {
		fail("request answered with %x", res.Code)
	}
	ok()
}
