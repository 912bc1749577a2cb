package main

import (
	"fmt"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
)

func main() {
	const n = 100
	var m sync.Mutex
	var held []*iproto.Request
	addr := freeAddr()
	cfg := &server.Config{Network: "tcp", Address: addr, EndPoint: iproto.SF(func(r *iproto.Request) {
		m.Lock()
		held = append(held, r)
		m.Unlock()
	})}
	s := cfg.NewServer()
	check(s.Run())
	c := dial(addr)
	for i := 0; i < n; i++ {
		c.Write(frame(2, uint32(i+1), []byte(fmt.Sprint("body ", i))))
	}
	if !until(5*time.Second, func() bool { m.Lock(); defer m.Unlock(); return len(held) == n }) {
		fail("%d of %d requests were executed", len(held), n)
	}
	for i, r := range held {
		if r.Id != uint32(i+1) || string(r.Body) != fmt.Sprint("body ", i) {
			fail("request %d has id %d and body %q", i, r.Id, r.Body)
		}
	}
	go func() {
		for _, r := range held {
			r.RespondBytes(iproto.RcOK, r.Body)
		}
	}()
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	seen := map[uint32]bool{}
	for i := 0; i < n; i++ {
		_, id, body, err := readFrame(c)
		if err != nil || seen[id] || string(body[4:]) != fmt.Sprint("body ", id-1) {
			fail("answer %d: id %d %q %v", i, id, body, err)
		}
		seen[id] = true
	}
	ok()
}
