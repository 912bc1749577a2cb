package main

import (
	"bytes"
	"runtime"
	"runtime/debug"

	"github.com/funny-falcon/go-iproto/marshal"
)

func main() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	a := marshal.Write("first value")
	b := marshal.Write("second value")
	was := append([]byte(nil), b...)
	_ = append(a, bytes.Repeat([]byte{0xee}, 20)...)
	if !bytes.Equal(b, was) {
		fail("appending to a body changed the next one: % x", b)
	}
	ok()
}
