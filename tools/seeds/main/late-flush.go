package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
)

func main() {
	addr := freeAddr()
	cfg := &server.Config{Network: "tcp", Address: addr, EndPoint: iproto.SF(func(r *iproto.Request) {
		if r.Msg == 1 {
			return // in work for ever
		}
		go func() {
			time.Sleep(50 * time.Millisecond)
			r.RespondBytes(0, []byte("x"))
		}()
	})}
	s := cfg.NewServer()
	check(s.Run())
	for slow := 0; slow < 5; slow++ {
		c := dial(addr)
		for i := 0; i < slow; i++ {
			c.Write(frame(1, uint32(i+1), nil))
		}
		c.Write(frame(2, 100, nil))
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		if _, id, _, err := readFrame(c); err != nil || id != 100 {
			fail("with %d other requests in work the answer does not come: id %d, %v", slow, id, err)
		}
		c.Close()
	}
	ok()
}
