package main

import (
	"net"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	const conns, n = 6, 60
	var got, done, links int32
	addr, _ := listen(func(c *net.TCPConn) {
		atomic.AddInt32(&links, 1)
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				break
			}
			if msg == pingMsg {
				c.Write(frame(msg, id, body))
				continue
			}
			atomic.AddInt32(&got, 1) // and no answer
		}
		time.Sleep(200 * time.Millisecond)
		c.Close()
	})
	s := client.ServerConfig{Address: addr, Connections: conns, PingInterval: time.Hour}.NewServer()
	iproto.Run(s)
	if !until(10*time.Second, func() bool { return atomic.LoadInt32(&links) == conns }) {
		check(net.ErrClosed)
	}
	time.Sleep(300 * time.Millisecond)
	for i := 0; i < n; i++ {
		s.Send(&iproto.Request{Msg: 1, Responder: iproto.Callback(func(*iproto.Response) { atomic.AddInt32(&done, 1) })})
		time.Sleep(5 * time.Millisecond) // all connections get some
	}
	if !until(10*time.Second, func() bool { return atomic.LoadInt32(&got) == n }) {
		check(net.ErrClosed)
	}
	s.Stop()
	if !until(10*time.Second, func() bool { return atomic.LoadInt32(&done) == n }) {
		fail("the client was stopped and the server has closed all connections: %d of %d requests are answered", atomic.LoadInt32(&done), n)
	}
	ok()
}
