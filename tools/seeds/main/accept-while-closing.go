package main

import (
	"net"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
)

func main() {
	leaf := iproto.SF(func(r *iproto.Request) { r.RespondBytes(iproto.RcOK, nil) })
	for end := time.Now().Add(25 * time.Second); time.Now().Before(end); {
		s := (&server.Config{Network: "tcp", Address: "127.0.0.1:0", EndPoint: leaf}).NewServer()
		addr := freeAddr()
		s.Address = addr
		if s.Run() != nil {
			continue
		}
		var wg sync.WaitGroup
		var m sync.Mutex
		var conns []net.Conn
		quit := make(chan bool)
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 40; k++ {
					select {
					case <-quit:
						return
					default:
					}
					if c, err := net.Dial("tcp", addr); err == nil {
						m.Lock()
						conns = append(conns, c)
						m.Unlock()
					}
				}
			}()
		}
		time.Sleep(2 * time.Millisecond)
		s.Stop()
		close(quit)
		wg.Wait()
		select {
		case <-s.Running:
		case <-time.After(3 * time.Second):
			fail("the stopped server did not finish")
		}
		for _, c := range conns {
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
		}
	}
	ok()
}
