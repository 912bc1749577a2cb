package main

import (
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
)

func main() {
	const n = 2000
	var m sync.Mutex
	var held []*iproto.Request
	addr := freeAddr()
	cfg := &server.Config{Network: "tcp", Address: addr, EndPoint: iproto.SF(func(r *iproto.Request) {
		m.Lock()
		held = append(held, r)
		m.Unlock()
	})}
	s := cfg.NewServer()
	check(s.Run())
	c := dial(addr)
	for i := 0; i < n; i++ {
		c.Write(frame(2, uint32(i+1), nil))
	}
	if !until(5*time.Second, func() bool { m.Lock(); defer m.Unlock(); return len(held) == n }) {
		fail("%d of %d requests were executed", len(held), n)
	}
	big := make([]byte, 50000)
	if !within(10*time.Second, func() {
		for _, r := range held[:n-1] {
			r.RespondBytes(iproto.RcOK, big)
		}
	}) {
		fail("a client that does not read blocks the one who answers it")
	}
	c.SetReadDeadline(time.Now().Add(20 * time.Second))
	for i := 0; i < n-1; i++ {
		if _, _, _, err := readFrame(c); err != nil {
			fail("answer %d: %v", i, err)
		}
		if i == 500 && !within(5*time.Second, func() { held[n-1].RespondBytes(iproto.RcOK, nil) }) {
			fail("a slow client blocks the one who answers it")
		}
	}
	ok()
}
