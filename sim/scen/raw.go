package scen

import (
	"encoding/binary"
	"io"
	"net"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// The harness's own codec of the wire protocol.

const pingMsg = uint32(iproto.Ping)
const pingID = uint32(iproto.PingRequestId)

func rcLen(rc nt.RCType) int {
	switch rc {
	case nt.RC4byte:
		return 4
	case nt.RC1byte:
		return 1
	}
	return 0
}

// frame is what goes over the wire.
type frame struct {
	msg, id uint32
	code    uint32
	body    []byte
}

func encReq(f frame) []byte {
	b := make([]byte, 12, 12+len(f.body))
	binary.LittleEndian.PutUint32(b, f.msg)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(f.body)))
	binary.LittleEndian.PutUint32(b[8:], f.id)
	return append(b, f.body...)
}

func encRes(rc nt.RCType, f frame) []byte {
	n := rcLen(rc)
	if f.msg == pingMsg {
		n = 0
	}
	b := make([]byte, 12+n, 12+n+len(f.body))
	binary.LittleEndian.PutUint32(b, f.msg)
	binary.LittleEndian.PutUint32(b[4:], uint32(n+len(f.body)))
	binary.LittleEndian.PutUint32(b[8:], f.id)
	switch n {
	case 1:
		b[12] = byte(f.code)
	case 4:
		binary.LittleEndian.PutUint32(b[12:], f.code)
	}
	return append(b, f.body...)
}

// wireCode is what is left of a code on the wire.
func wireCode(rc nt.RCType, msg, code uint32) uint32 {
	if msg == pingMsg {
		return 0
	}
	switch rcLen(rc) {
	case 0:
		return 0
	case 1:
		return code & 0xff
	}
	return code
}

// readFrame reads one frame; answers tells that codes are expected.
func readFrame(c io.Reader, rc nt.RCType, answers bool) (f frame, err error) {
	var h [12]byte
	if _, err = io.ReadFull(c, h[:]); err != nil {
		return
	}
	f.msg = binary.LittleEndian.Uint32(h[:])
	n := int(binary.LittleEndian.Uint32(h[4:]))
	f.id = binary.LittleEndian.Uint32(h[8:])
	b := make([]byte, n)
	if _, err = io.ReadFull(c, b); err != nil {
		if err == io.EOF {
			err = io.ErrUnexpectedEOF
		}
		return
	}
	if answers && f.msg != pingMsg {
		switch rcLen(rc) {
		case 1:
			if len(b) < 1 {
				err = io.ErrShortBuffer
				return
			}
			f.code, b = uint32(b[0]), b[1:]
		case 4:
			if len(b) < 4 {
				err = io.ErrShortBuffer
				return
			}
			f.code, b = binary.LittleEndian.Uint32(b), b[4:]
		}
	}
	f.body = b
	return
}

// network sets the network's manners for a run: from perfect to awkward.
func (e *Env) network() *vnet.Net {
	n := vnet.N()
	switch e.N(4) {
	case 0:
	case 1:
		n.Split = true
	case 2:
		n.Split = true
		n.Seg = 1 + e.N(1500)
		n.Jitter = time.Duration(e.w.Log(int64(5 * time.Millisecond)))
	case 3:
		n.Jitter = time.Duration(e.w.Log(int64(50 * time.Millisecond)))
		n.Lat = time.Duration(e.w.Log(int64(20 * time.Millisecond)))
	}
	if e.Chance(1, 4) {
		n.Window = 512 << uint(e.N(6))
	}
	if e.Chance(1, 12) {
		n.Seg = 1 + e.N(20)
	}
	return n
}

// bodySize picks sizes around the buffers' sizes.
func bodySize(s *rt.Stream) int {
	switch s.Weighted(4, 3, 2, 2, 1) {
	case 0:
		return s.N(20)
	case 1:
		return int(s.Log(600))
	case 2:
		return 1000 + s.N(50)
	case 3:
		return []int{4096, 8192, 4084, 8180, 2048, 1024, 3072}[s.N(7)] - 20 + s.N(40)
	}
	return int(s.Log(30000))
}

// pipe makes a connection over the simulated network.
func pipe(addr string) (a, b *vnet.SConn) {
	l, err := net.Listen("tcp", addr)
	if err != nil {
		panic(err)
	}
	ch := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			panic(err)
		}
		ch <- c
	}()
	c, err := net.Dial("tcp", addr)
	if err != nil {
		panic(err)
	}
	s := <-ch
	l.Close()
	return c.(*vnet.SConn), s.(*vnet.SConn)
}
