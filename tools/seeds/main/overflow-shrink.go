package main

import (
	"fmt"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/net/server"
)

func main() {
	const n = 3000
	var m sync.Mutex
	var held []*iproto.Request
	addr := freeAddr()
	cfg := &server.Config{Network: "tcp", Address: addr, EndPoint: iproto.SF(func(r *iproto.Request) {
		m.Lock()
		held = append(held, r)
		m.Unlock()
	})}
	s := cfg.NewServer()
	check(s.Run())
	for round := 0; round < 5; round++ {
		held = nil
		c := dial(addr)
		var all []byte
		for i := 0; i < n; i++ {
			all = append(all, frame(2, uint32(i+1), []byte(fmt.Sprint("body ", i)))...)
		}
		c.Write(all)
		if !until(5*time.Second, func() bool { m.Lock(); defer m.Unlock(); return len(held) == n }) {
			fail("%d of %d requests were executed", len(held), n)
		}
		go func() {
			big := make([]byte, 20000)
			for _, r := range held {
				r.RespondBytes(iproto.RcOK, append(big[:len(big):len(big)], r.Body...))
			}
		}()
		time.Sleep(300 * time.Millisecond)
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		seen := map[uint32]bool{}
		for i := 0; i < n; i++ {
			_, id, body, err := readFrame(c)
			if err != nil || seen[id] || string(body[20004:]) != fmt.Sprint("body ", id-1) {
				fail("answer %d: id %d (seen before: %v) %v", i, id, seen[id], err)
			}
			seen[id] = true
		}
		c.Close()
	}
	ok()
}
