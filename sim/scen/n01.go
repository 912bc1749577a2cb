package scen

import (
	"bytes"
	"fmt"
	"io"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"verifsim/rt"
	"verifsim/rt/vnet"
)

// N01: frames over any segmentation, truncation and failure.

const realFrames = "package net: HeaderReader, HeaderWriter, SliceReader, BufWriter"

var _ = register(&Scenario{Name: "frames", Props: []string{"N01", "C12"}, Weight: 3, Real: realFrames, Stub: stubNet, Run: frames})
var _ = register(&Scenario{Name: "frame-limits", Props: []string{"N01"}, Weight: 1, Real: realFrames, Stub: stubNet, Run: frameLimits})

func (f frame) String() string {
	return fmt.Sprintf("{msg %x id %x code %x body %d %s}", f.msg, f.id, f.code, len(f.body), short(f.body))
}

func same(a, b frame) bool {
	return a.msg == b.msg && a.id == b.id && a.code == b.code && bytes.Equal(a.body, b.body)
}

// eager is a reader that, as readers may, returns the end of the stream along
// with the last bytes, and sometimes nothing at all.
type eager struct {
	c *vnet.SConn
	s *rt.Stream
}

func (r *eager) Read(b []byte) (n int, err error) {
	if r.s.Chance(1, 10) {
		return 0, nil
	}
	n, err = r.c.Read(b)
	if n > 0 && err == nil && r.c.Unread() == 0 && r.c.SawEOF() && r.c.RstAt == 0 {
		rt.Count("net.data with end")
		err = io.EOF
	}
	return
}

func frames(e *Env) {
	e.network()
	rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	answers := e.Chance(1, 2)
	rawW := e.Chance(1, 4)
	rawR := !rawW && e.Chance(1, 4)
	odd := rawW && answers && e.Chance(1, 3) // frames shorter than the code
	handshake := !answers && e.Chance(1, 5)
	if e.Chance(1, 10) {
		// a greeting that is none
		f := frame{msg: pingMsg, id: pingID}
		switch e.N(3) {
		case 0:
			f.msg = uint32(e.N(1 << 16))
		case 1:
			f.id = uint32(e.N(1 << 16))
		case 2:
			f.msg, f.id = uint32(e.N(1000)), uint32(e.N(1000))
		}
		if f.msg != pingMsg || f.id != pingID {
			var r nt.HeaderReader
			r.Init(bytes.NewReader(encReq(f)), 0, rc)
			if r.ReadPing() == nil {
				e.Fail("N01", "a made-up ping", "%v was read as the greeting ping", f)
			}
		}
	}
	a, b := pipe("peer:1")
	ws := e.Stream("wr")
	rs := e.Stream("rd")
	n := 1 + e.N(12)
	if e.Chance(1, 30) {
		n = 300
	}
	big := n < 6 && e.Chance(1, 300)
	if big {
		vnet.N().Seg = 0
		vnet.N().Window = 1 << 20
	}
	var sent []frame
	var stream []byte
	var ends []int
	next := func(i int) (f frame, raw []byte) {
		f = frame{msg: uint32(1 + ws.N(200)), id: uint32(ws.N(1 << 30)), code: uint32(ws.N(1 << 16))}
		if ws.Chance(1, 8) {
			f.id = []uint32{0, pingID, 1, 256}[ws.N(4)]
		}
		if ws.Chance(1, 8) {
			f.msg = []uint32{pingMsg, 0, 0xffffffff}[ws.N(3)]
		}
		sz := bodySize(ws)
		if n > 100 {
			sz %= 64
		}
		if big && ws.Chance(1, 2) {
			sz = 1<<20 - 30 + int(ws.Log(1500000))
		}
		f.body = mkBody(uint32(i), f.id, sz)
		if i == 0 && handshake {
			f.msg, f.id = pingMsg, pingID
			f.body = nil
			if rawW && ws.Chance(1, 2) {
				f.body = mkBody(9, 9, ws.N(20))
			}
		}
		if answers {
			if odd && rcLen(rc) > 0 && f.msg != pingMsg && ws.Chance(1, 3) {
				k := ws.N(rcLen(rc))
				f.body = mkBody(3, 3, k)
				raw = encReq(f)
				f.code = uint32(iproto.RcProtocolError)
				return
			}
			f.code = wireCode(rc, f.msg, f.code)
			raw = encRes(rc, f)
		} else {
			f.code = 0
			raw = encReq(f)
		}
		return
	}
	// a fault at some byte
	fault := e.Weighted(4, 2, 1, 1)
	var all []frame
	var raws [][]byte
	for i := 0; i < n; i++ {
		f, raw := next(i)
		all = append(all, f)
		raws = append(raws, raw)
		stream = append(stream, raw...)
		ends = append(ends, len(stream))
	}
	cut := len(stream)
	if fault > 0 {
		cut = e.N(len(stream) + 1)
		if e.Chance(1, 2) {
			// near the end of a frame or of its header
			cut = ends[e.N(len(ends))] - 3 + e.N(18)
			if cut < 0 {
				cut = 0
			}
			if cut > len(stream) {
				cut = len(stream)
			}
		}
	}
	var werr error
	wrote := false
	switch fault {
	case 1:
		// end of stream after cut bytes: written by hand
		rawW = true
		rt.Count("fault.truncate")
	case 2:
		if cut < len(stream) {
			a.WriteErrAfter = cut + 1
		}
	case 3:
		d := e.dur(e.w)
		if e.Chance(1, 3) {
			b.ReadErr = true
			break
		}
		rt.GoNamed("resetter", func() {
			if d > 0 {
				sleep(d)
			}
			a.Pair().Reset()
		})
	}
	g := newWg()
	g.add(1)
	rt.GoNamed("writer", func() {
		defer g.done()
		defer func() { wrote = true }()
		if rawW {
			lim := len(stream)
			if fault == 1 {
				lim = cut
			}
			for p := 0; p < lim; {
				k := 1 + int(ws.Log(int64(lim-p)))
				if k > lim-p {
					k = lim - p
				}
				if _, werr = a.Write(stream[p : p+k]); werr != nil {
					return
				}
				p += k
				e.gap(ws)
			}
			for i := range all {
				if ends[i] <= lim {
					sent = append(sent, all[i])
				}
			}
			a.CloseWrite()
			return
		}
		var w nt.HeaderWriter
		w.Init(a, time.Duration(ws.N(2))*time.Hour, rc)
		for i, f := range all {
			var keep []byte
			keep = append(keep, f.body...)
			if answers {
				code := f.code
				if rcLen(rc) == 1 {
					code |= 0x1200
				} else if rcLen(rc) == 0 || f.msg == pingMsg {
					code = 0x1234
				}
				werr = w.WriteResponse(nt.Response{Id: f.id, Msg: iproto.RequestType(f.msg), Code: iproto.RetCode(code), Body: f.body})
			} else if i == 0 && handshake && len(f.body) == 0 {
				werr = w.Ping()
			} else {
				werr = w.WriteRequest(nt.Request{Id: f.id, Msg: iproto.RequestType(f.msg), Body: f.body})
			}
			if !bytes.Equal(keep, f.body) {
				e.Fail("N01", "writer changes the body", "%v", f)
			}
			if werr != nil {
				return
			}
			if ws.Chance(1, 4) {
				if werr = w.Flush(); werr != nil {
					return
				}
				e.gap(ws)
			}
		}
		if werr = w.Flush(); werr != nil {
			return
		}
		sent = all
		a.CloseWrite()
	})
	type kept struct {
		f    frame
		copy []byte
	}
	var got []kept
	var rerr error
	g.add(1)
	rt.GoNamed("reader", func() {
		defer g.done()
		var r nt.HeaderReader
		var src io.Reader = b
		if e.Chance(1, 3) {
			src = &eager{c: b, s: rs}
		}
		r.Init(src, time.Duration(rs.N(2))*time.Hour, rc)
		for {
			var f frame
			if rawR {
				f, rerr = readFrame(b, rc, answers)
			} else if handshake && len(got) == 0 {
				if rerr = r.ReadPing(); rerr == nil {
					f = all[0]
				}
			} else if answers {
				var x nt.Response
				x, rerr = r.ReadResponse()
				f = frame{uint32(x.Msg), x.Id, uint32(x.Code), x.Body}
			} else {
				var x nt.Request
				x, rerr = r.ReadRequest()
				f = frame{uint32(x.Msg), x.Id, 0, x.Body}
			}
			if rerr != nil {
				return
			}
			i := len(got)
			if i >= len(all) {
				e.Fail("N01", "made-up frame", "%d frames were written and another one was read: %v", len(all), f)
				return
			}
			if !same(f, all[i]) {
				e.Fail("N01", "frame differs", "frame %d of %d (code width %d) was written as %v and read as %v", i, len(all), rcLen(rc), all[i], f)
				return
			}
			got = append(got, kept{f, append([]byte(nil), f.body...)})
			if rs.Chance(1, 6) {
				// whoever got a body may append to it
				_ = append(f.body, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee, 0xee)
			}
			e.gap(rs)
		}
	})
	g.wait()
	if rerr == nil {
		return
	}
	if fault == 0 || fault == 1 {
		if len(got) != len(sent) {
			e.Fail("N01", "frame lost", "%d frames were written in full (%d of %d bytes), %d were read, then %v", len(sent), cut, len(stream), len(got), rerr)
		}
		if werr != nil {
			e.Fail("N01", "write fails", "%v", werr)
		}
		if fault == 0 && rerr != io.EOF {
			e.Probe("end not plain")
		}
	}
	if fault == 2 && cut < len(stream) && werr == nil && !rawW && wrote {
		e.Fail("N01", "write error swallowed", "the connection failed after %d of %d bytes and no write reported it", cut, len(stream))
	}
	for i, k := range got {
		if !bytes.Equal(k.f.body, k.copy) {
			e.Fail("N01", "body changed", "frame %d", i)
			e.Fail("C12", "body changed", "the body of frame %d was %s when it was read and is %s later", i, short(k.copy), short(k.f.body))
		}
	}
	if len(got) > 0 && len(got) < len(all) {
		e.Probe("stopped inside")
	}
}

// frameLimits: read and write limits expire when the peer stalls, and only
// then.
func frameLimits(e *Env) {
	n := e.network()
	_ = n
	rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[e.N(3)]
	a, b := pipe("peer:1")
	lim := int64(1+e.N(50)) * 100 * ms
	s := e.Stream("x")
	if e.Chance(1, 2) {
		// the peer sends some bytes with pauses, the last longer than the limit
		k := 1 + e.N(6)
		var stream []byte
		for i := 0; i < k; i++ {
			stream = append(stream, encReq(frame{msg: 1, id: uint32(i), body: mkBody(1, 2, s.N(60))})...)
		}
		stop := e.N(len(stream)) // never completes
		lastTx := rt.Now()
		done := false
		rt.GoNamed("peer", func() {
			for p := 0; p < stop; {
				m := 1 + s.N(stop-p)
				lastTx = rt.Now()
				if _, err := a.Write(stream[p : p+m]); err != nil {
					return
				}
				p += m
				if s.Chance(1, 2) {
					sleep(int64(s.N(int(lim/ms/2))) * ms)
				}
			}
			done = true
		})
		var r nt.HeaderReader
		r.Init(b, time.Duration(lim), rc)
		lastRx := rt.Now()
		for {
			rx := b.RxBytes
			began := rt.Now()
			_, err := r.ReadRequest()
			if b.RxBytes != rx {
				lastRx = rt.Now()
			}
			if err == nil {
				continue
			}
			if err == io.EOF || err == io.ErrUnexpectedEOF {
				e.Fail("N01", "end of stream made up", "%v", err)
			}
			_ = began
			if d := rt.Now() - lastTx; d > lim+int64(200*ms)+2*tol() && done {
				e.Fail("N01", "read limit late", "the peer fell silent at %d, limit %d, the error %v came at %d", lastTx, lim, err, rt.Now())
			}
			if d := rt.Now() - lastTx; d < lim && done && rt.Now()-lastRx < lim-tol() && lastRx > lastTx+lim {
				e.Fail("N01", "read limit early", "limit %d", lim)
			}
			if rt.Now()-lastTx < lim-tol() {
				e.Fail("N01", "read limit early", "the peer sent bytes at %d, limit %d, the error %v came at %d", lastTx, lim, err, rt.Now())
			}
			return
		}
	}
	// the peer accepts nothing from some point on
	vnet.N().Window = 100 + e.N(5000)
	eat := e.N(20000)
	var w nt.HeaderWriter
	w.Init(a, time.Duration(lim), rc)
	lastEat := rt.Now()
	rt.GoNamed("peer", func() {
		buf := make([]byte, 300)
		for eat > 0 {
			k, err := b.Read(buf)
			if err != nil {
				return
			}
			eat -= k
			lastEat = rt.Now()
			if s.Chance(1, 4) {
				sleep(int64(s.N(int(lim/ms/2))) * ms)
			}
		}
	})
	for i := 0; i < 2000; i++ {
		f := nt.Response{Id: uint32(i), Msg: 1, Body: mkBody(1, 2, s.N(400))}
		began := rt.Now()
		err := w.WriteResponse(f)
		if err == nil && s.Chance(1, 3) {
			err = w.Flush()
		}
		if err != nil {
			d := rt.Now() - began
			if d < lim-tol() {
				e.Fail("N01", "write limit early", "limit %d, the write failed with %v after %d", lim, err, d)
			}
			if d > 2*lim+tol() {
				e.Fail("N01", "write limit late", "limit %d, the write failed with %v after %d", lim, err, d)
			}
			return
		}
		if d := rt.Now() - began; d > 2*lim+2*tol() {
			e.Fail("N01", "write limit late", "limit %d, the write took %d", lim, d)
		}
	}
	e.Fail("N01", "write limit ignored", "all written though the peer takes nothing since %d", lastEat)
}
