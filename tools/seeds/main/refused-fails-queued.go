package main

import (
	"net"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	hold := make(chan bool)
	up := make(chan bool)
	go func() {
		nc, err := l.Accept()
		check(err)
		l.Close() // no more
		c := nc.(*net.TCPConn)
		greeted := false
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				return
			}
			if msg == pingMsg {
				c.Write(frame(msg, id, body))
				if !greeted {
					greeted = true
					close(up)
					<-hold
				}
				continue
			}
			c.Write(resp(msg, id, 0, nil))
		}
	}()
	s := client.ServerConfig{Address: l.Addr().String(), Connections: 2, PingInterval: time.Hour, ReadTimeout: time.Hour, WriteTimeout: time.Hour}.NewServer()
	iproto.Run(s)
	select {
	case <-up:
	case <-time.After(20 * time.Second):
		check(net.ErrClosed)
	}
	time.Sleep(300 * time.Millisecond)
	var done, failed int32
	const n = 64
	body := make([]byte, 1<<20)
	for i := 0; i < n; i++ {
		s.Send(&iproto.Request{Msg: 1, Body: body, Responder: iproto.Callback(func(r *iproto.Response) {
			if r.Code != 0 {
				atomic.AddInt32(&failed, 1)
			}
			atomic.AddInt32(&done, 1)
		})})
	}
	time.Sleep(5 * time.Second)
	close(hold)
	if !until(60*time.Second, func() bool { return atomic.LoadInt32(&done) == n }) {
		fail("%d of %d requests are answered", atomic.LoadInt32(&done), n)
	}
	if f := atomic.LoadInt32(&failed); f > 0 {
		fail("%d of %d requests failed, though a connection was there all the time", f, n)
	}
	ok()
}
