package main

import (
	"net"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	addr, _ := listen(func(c *net.TCPConn) {
		n := 0
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				return
			}
			if msg == pingMsg {
				if n < 1 {
					c.Write(frame(msg, id, body))
				}
				n++
				continue
			}
			// an answer, and the beginning of another one together with it
			f := append(resp(msg, id, 0, []byte("answer")), resp(msg, id+1, 0, []byte("never complete"))[:7]...)
			c.Write(f)
			time.Sleep(time.Hour)
		}
	})
	cfg := client.ServerConfig{Address: addr, PingInterval: 50 * time.Millisecond, ReadTimeout: 300 * time.Millisecond, WriteTimeout: time.Second}
	s := cfg.NewServer()
	iproto.Run(s)
	send := func() iproto.Chan {
		res := make(iproto.Chan, 1)
		s.Send(&iproto.Request{Msg: 3, Body: []byte("q"), Responder: res})
		return res
	}
	var a, b iproto.Chan
	a = send()
	b = send()
	for i, ch := range []iproto.Chan{a, b} {
		select {
		case r := <-ch:
			if i == 1 && r.Code != iproto.RcIOError {
				fail("code %x", r.Code)
			}
		case <-time.After(5 * time.Second):
			fail("the dead peer was not noticed")
		}
	}
	ok()
}
