package main

import (
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	for last := 0; last < 5; last++ {
		cx := &iproto.Context{}
		var go1 [5]chan bool
		for i := range go1 {
			i := i
			go1[i] = make(chan bool)
			cx.Go(func(*iproto.Context) { <-go1[i] })
		}
		waited := make(chan bool)
		go func() { cx.WaitAll(); close(waited) }()
		time.Sleep(20 * time.Millisecond)
		for i := range go1 {
			if i != last {
				close(go1[i])
			}
		}
		time.Sleep(20 * time.Millisecond)
		select {
		case <-waited:
			fail("WaitAll returned although child %d runs", last)
		default:
		}
		close(go1[last])
		select {
		case <-waited:
		case <-time.After(2 * time.Second):
			fail("WaitAll did not return when child %d ended last", last)
		}
	}
	ok()
}
