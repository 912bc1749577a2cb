package main

import (
	"fmt"
	"net"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/client"
)

func main() {
	const n = 1200
	addr, _ := listen(func(c *net.TCPConn) {
		type q struct {
			msg, id uint32
			body    []byte
		}
		var qs []q
		for {
			msg, id, body, err := readFrame(c)
			if err != nil {
				return
			}
			if msg == pingMsg {
				c.Write(frame(msg, id, body))
				continue
			}
			qs = append(qs, q{msg, id, body})
			if len(qs) == n {
				// one of each row of ids at the very end
				for pass := 0; pass < 2; pass++ {
					for i, x := range qs {
						if (i%256 == 100) == (pass == 1) {
							c.Write(resp(x.msg, x.id, 0, x.body))
						}
					}
				}
			}
		}
	})
	s := client.ServerConfig{Address: addr, PingInterval: time.Hour}.NewServer()
	iproto.Run(s)
	var res []iproto.Chan
	for i := 0; i < n; i++ {
		ch := make(iproto.Chan, 1)
		res = append(res, ch)
		s.Send(&iproto.Request{Msg: 3, Body: []byte(fmt.Sprint("body ", i)), Responder: ch})
	}
	limit := time.After(10 * time.Second)
	for i, ch := range res {
		select {
		case r := <-ch:
			if r.Code != 0 || string(r.Body) != fmt.Sprint("body ", i) {
				fail("request %d: code %x body %q", i, r.Code, r.Body)
			}
		case <-limit:
			fail("request %d was not answered", i)
		}
	}
	ok()
}
