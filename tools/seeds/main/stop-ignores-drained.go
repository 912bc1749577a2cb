package main

import (
	"net"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	stopped := make(chan bool)
	closed := make(chan bool, 10)
	addr, _ := listen(func(c *net.TCPConn) {
		var m, id uint32
		var b []byte
		for {
			msg, i, body, err := readFrame(c)
			if err != nil {
				break // the client closed its sending half
			}
			if msg == pingMsg {
				c.Write(frame(msg, i, body))
				continue
			}
			m, id, b = msg, i, body
		}
		<-stopped
		c.Write(resp(m, id, 0, b))
		// the server keeps its half open: only the client can end this
		for i := 0; i < 100; i++ {
			time.Sleep(50 * time.Millisecond)
			if _, err := c.Write(frame(pingMsg, pingId, nil)); err != nil {
				closed <- true
				return
			}
		}
	})
	s := client.ServerConfig{Address: addr, PingInterval: time.Hour}.NewServer()
	iproto.Run(s)
	res := make(iproto.Chan, 1)
	s.Send(&iproto.Request{Msg: 3, Body: []byte("x"), Responder: res})
	time.Sleep(200 * time.Millisecond)
	s.Stop()
	time.Sleep(200 * time.Millisecond)
	close(stopped)
	select {
	case r := <-res:
		if r.Code != 0 {
			fail("code %x", r.Code)
		}
	case <-time.After(3 * time.Second):
		fail("no answer")
	}
	select {
	case <-closed:
	case <-time.After(4 * time.Second):
		fail("the connection of the stopped client is still open")
	}
	ok()
}
