package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"time"
)

func init() { log.SetOutput(io.Discard) }

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

func ok() {
	fmt.Println("ok")
	os.Exit(0)
}

func check(err error) {
	if err != nil {
		fmt.Println("demo could not run:", err)
		os.Exit(3)
	}
}

// within tells whether f returned within d.
func within(d time.Duration, f func()) bool {
	ch := make(chan bool)
	go func() { f(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

// until polls f for d.
func until(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

const pingMsg = 0xFF00
const pingId = 0xFFFFFFFF

func frame(msg, id uint32, body []byte) []byte {
	b := make([]byte, 12, 12+len(body))
	binary.LittleEndian.PutUint32(b, msg)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(body)))
	binary.LittleEndian.PutUint32(b[8:], id)
	return append(b, body...)
}

// resp is a response frame with a 4 byte code.
func resp(msg, id, code uint32, body []byte) []byte {
	b := make([]byte, 4, 4+len(body))
	binary.LittleEndian.PutUint32(b, code)
	return frame(msg, id, append(b, body...))
}

func readFrame(c io.Reader) (msg, id uint32, body []byte, err error) {
	var h [12]byte
	if _, err = io.ReadFull(c, h[:]); err != nil {
		return
	}
	msg, id = binary.LittleEndian.Uint32(h[:]), binary.LittleEndian.Uint32(h[8:])
	body = make([]byte, binary.LittleEndian.Uint32(h[4:]))
	_, err = io.ReadFull(c, body)
	return
}

// listen serves every accepted connection with f.
func listen(f func(c *net.TCPConn)) (addr string, l net.Listener) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f(c.(*net.TCPConn))
		}
	}()
	return l.Addr().String(), l
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	defer l.Close()
	return l.Addr().String()
}

func dial(addr string) *net.TCPConn {
	for i := 0; i < 200; i++ {
		if c, err := net.Dial("tcp", addr); err == nil {
			return c.(*net.TCPConn)
		}
		time.Sleep(10 * time.Millisecond)
	}
	check(fmt.Errorf("cannot dial %s", addr))
	return nil
}

var _ = dial
var _ = freeAddr
