package main

import (
	"net"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	const n = 700
	addr, _ := listen(func(c *net.TCPConn) {
		for k := 0; ; {
			msg, id, body, err := readFrame(c)
			if err != nil {
				return
			}
			if msg == pingMsg {
				c.Write(frame(msg, id, body))
				continue
			}
			if k++; k == n {
				c.Close()
				return
			}
		}
	})
	s := client.ServerConfig{Address: addr, PingInterval: time.Hour}.NewServer()
	iproto.Run(s)
	var res []iproto.Chan
	for i := 0; i < n; i++ {
		ch := make(iproto.Chan, 1)
		res = append(res, ch)
		s.Send(&iproto.Request{Msg: 3, Body: []byte("x"), Responder: ch})
	}
	limit := time.After(10 * time.Second)
	for i, ch := range res {
		select {
		case r := <-ch:
			if r.Code != iproto.RcIOError {
				fail("request %d: code %x", i, r.Code)
			}
		case <-limit:
			fail("request %d was not failed", i)
		}
	}
	ok()
}
