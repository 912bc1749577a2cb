package main

import (
	"net"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	var n int32
	addr, _ := listen(func(c *net.TCPConn) {
		atomic.AddInt32(&n, 1)
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				break
			}
			if msg == pingMsg {
				c.Write(frame(msg, id, body))
			}
		}
		c.Close()
		atomic.AddInt32(&n, -1)
	})
	s := client.ServerConfig{Address: addr, Connections: 2, PingInterval: time.Hour}.NewServer()
	iproto.Run(s)
	reach := func(k int32) {
		s.SetConnections(int(k))
		if !until(6*time.Second, func() bool { return atomic.LoadInt32(&n) == k }) {
			fail("%d connections, not the %d that were set", atomic.LoadInt32(&n), k)
		}
		time.Sleep(time.Second)
		if x := atomic.LoadInt32(&n); x != k {
			fail("%d connections, not the %d that were set", x, k)
		}
	}
	reach(2)
	reach(4)
	reach(1)
	ok()
}
