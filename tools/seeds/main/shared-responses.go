package main

import (
	iproto "github.com/funny-falcon/go-iproto"
)

func main() {
	serv := iproto.SF(func(r *iproto.Request) { r.RespondBytes(iproto.RcOK, r.Body) })
	m := &iproto.MultiRequest{}
	const n = 50
	for i := 0; i < n; i++ {
		m.SendMsgBody(serv, 1, iproto.Body{byte(i)})
	}
	seen := map[uint32]bool{}
	for _, res := range m.Results() {
		if seen[res.Id] || len(res.Body) != 1 || uint32(res.Body[0]) != res.Id {
			fail("response %d seen before: %v, body %v", res.Id, seen[res.Id], res.Body)
		}
		seen[res.Id] = true
	}
	if len(seen) != n {
		fail("%d of %d responses", len(seen), n)
	}
	ok()
}
