package main

import (
	"net"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	var n, served int32
	addr, _ := listen(func(c *net.TCPConn) {
		atomic.AddInt32(&n, 1)
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				break
			}
			if msg == pingMsg {
				c.Write(frame(msg, id, body))
				continue
			}
			if atomic.AddInt32(&served, 1)%5 == 0 {
				time.Sleep(time.Millisecond)
			}
			c.Write(resp(msg, id, 0, nil))
		}
		c.Close()
		atomic.AddInt32(&n, -1)
	})
	s := client.ServerConfig{Address: addr, Connections: 3, PingInterval: time.Hour}.NewServer()
	iproto.Run(s)
	if !until(10*time.Second, func() bool { return atomic.LoadInt32(&n) == 3 }) {
		check(net.ErrClosed)
	}
	// requests wait all the time: far more than the sockets hold
	var stop int32
	var sent int32
	body := make([]byte, 2000)
	go func() {
		for atomic.LoadInt32(&stop) == 0 {
			if atomic.LoadInt32(&sent)-atomic.LoadInt32(&served) < 60000 {
				for i := 0; i < 5000; i++ {
					s.Send(&iproto.Request{Msg: 1, Body: body, Responder: iproto.Callback(func(*iproto.Response) {})})
				}
				atomic.AddInt32(&sent, 5000)
			}
		}
	}()
	time.Sleep(500 * time.Millisecond)
	s.SetConnections(1)
	good := until(20*time.Second, func() bool { return atomic.LoadInt32(&n) == 1 })
	atomic.StoreInt32(&stop, 1)
	if !good {
		fail("the number of connections was set to 1, there are %d 20 s later", atomic.LoadInt32(&n))
	}
	ok()
}
