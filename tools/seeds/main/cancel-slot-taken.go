package main

import (
	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	cx := &iproto.Context{}
	a, _ := cx.NewRequest(1, nil)
	b, _ := cx.NewRequest(2, nil)
	a.Cancel()
	c, _ := cx.NewRequest(3, nil)
	cx.Cancel()
	for i, r := range []*iproto.Request{a, b, c} {
		if !r.Performed() {
			fail("request %d of a cancelled context is not cancelled", i)
		}
	}
	ok()
}
