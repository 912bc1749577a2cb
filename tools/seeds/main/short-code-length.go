package main

import (
	"net"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	addr, _ := listen(func(c *net.TCPConn) {
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				return
			}
			switch {
			case msg == pingMsg:
				c.Write(frame(msg, id, body))
			case msg == 9:
				c.Write(frame(msg, id, []byte{1, 2})) // too short for a code
			default:
				c.Write(resp(msg, id, 0, body))
			}
		}
	})
	s := client.ServerConfig{Address: addr, PingInterval: time.Hour}.NewServer()
	iproto.Run(s)
	call := func(m iproto.RequestType) *iproto.Response {
		ch := make(iproto.Chan, 1)
		s.Send(&iproto.Request{Msg: m, Body: []byte("x"), Responder: ch})
		select {
		case r := <-ch:
			return r
		case <-time.After(3 * time.Second):
			fail("request %d was not answered", m)
		}
		return nil
	}
	call(1)
	call(9)
	// whatever became of that connection, later requests are answered
	if !until(5*time.Second, func() bool { r := call(2); return r.Code == 0 && string(r.Body) == "x" }) {
		fail("later requests are not answered")
	}
	ok()
}
