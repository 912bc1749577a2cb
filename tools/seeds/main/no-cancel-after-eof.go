package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
)

func main() {
	addr := freeAddr()
	gone := make(chan bool, 10)
	serv := iproto.BF{N: 4}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		if r.Msg == 1 {
			time.Sleep(500 * time.Millisecond)
			return iproto.RcOK, iproto.Body(make([]byte, 1<<20))
		}
		gone <- until(6*time.Second, func() bool { return !cx.Alive() })
		return iproto.RcOK, nil
	})
	s := (&server.Config{Network: "tcp", Address: addr, EndPoint: serv, WriteTimeout: 300 * time.Millisecond}).NewServer()
	check(s.Run())
	c := dial(addr)
	c.Write(frame(2, 1, nil))
	for i := 0; i < 20; i++ {
		c.Write(frame(1, uint32(2+i), nil))
	}
	time.Sleep(100 * time.Millisecond)
	c.CloseWrite()
	time.Sleep(100 * time.Millisecond)
	c.SetLinger(0)
	c.Close()
	if !<-gone {
		fail("the handler of a client that is gone was not cancelled")
	}
	ok()
}
