package main

import (
	"bytes"

	nt "github.com/funny-falcon/go-iproto/net"
)

func main() {
	sizes := []int{10, 900, 1000, 1100, 2000, 2050, 3000, 1500, 4000, 4100, 9000, 1024, 1025, 12}
	for shift := 0; shift < len(sizes); shift++ {
		for mul := 1; mul < 6; mul++ {
			var out, want bytes.Buffer
			var w nt.HeaderWriter
			w.Init(&out, 0, nt.RC4byte)
			for i := range sizes {
				body := bytes.Repeat([]byte{byte(i + 1)}, sizes[(i*mul+shift)%len(sizes)])
				w.WriteRequest(nt.Request{Msg: 5, Id: uint32(i), Body: body})
				want.Write(frame(5, uint32(i), body))
			}
			w.Flush()
			if !bytes.Equal(out.Bytes(), want.Bytes()) {
				fail("the stream is not the frames that were written (shift %d, mul %d)", shift, mul)
			}
		}
	}
	ok()
}
