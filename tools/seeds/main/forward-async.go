package main

import (
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
)

func main() {
	var m sync.Mutex
	var order []uint32
	addr := freeAddr()
	cfg := &server.Config{Network: "tcp", Address: addr, EndPoint: iproto.SF(func(r *iproto.Request) {
		m.Lock()
		order = append(order, r.Id)
		m.Unlock()
	})}
	s := cfg.NewServer()
	check(s.Run())
	const n = 3000
	for round := 0; round < 20; round++ {
		order = nil
		c := dial(addr)
		var all []byte
		for i := 0; i < n; i++ {
			all = append(all, frame(2, uint32(i), nil)...)
		}
		c.Write(all)
		if !until(10*time.Second, func() bool { m.Lock(); defer m.Unlock(); return len(order) == n }) {
			fail("%d of %d requests were executed", len(order), n)
		}
		for i, id := range order {
			if id != uint32(i) {
				fail("request %d was executed as number %d", id, i)
			}
		}
		c.Close()
	}
	ok()
}
