package scen

import (
	"bytes"
	"fmt"
	"strings"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
	"verifsim/rt"
	"verifsim/rt/vdump"
)

// C12: encoding and decoding from many goroutines.

type eInts struct {
	A int8
	B uint16
	C int32
	D uint64
	E float32
	F float64
}
type eBer struct {
	A uint8  `iproto:"ber"`
	B uint16 `iproto:"ber"`
	C uint32 `iproto:"ber"`
	D uint64 `iproto:"ber"`
	E uint64 `iproto:"size(ber),ber"`
}
type eSized struct {
	A int8     `iproto:"size(ber)"`
	B uint16   `iproto:"size(i8)"`
	C int32    `iproto:"size(i16)"`
	D uint64   `iproto:"size(i32)"`
	S string   `iproto:"size(ber)"`
	X [2]int16 `iproto:"cnt(ber)"`
	Y []uint32 `iproto:"size(i16)"`
}
type eInner struct {
	X int16
	S string
}
type eDeep struct {
	A eInner
	B []eInner `iproto:"cnt(i16)"`
	C *eInner
	D [3]eInts
}
type eSkip struct {
	A uint32
	B uint32 `iproto:"skip"`
	C []byte `iproto:"size(no)"`
}
type eTree struct {
	V    uint8
	Kids []eTree `iproto:"cnt(i8)"`
}
type eArr struct {
	A [2]uint32
	B [2]uint32 `iproto:"size(ber),ber"`
	C []uint64  `iproto:"cnt(ber),ber"`
	D []int8
	E []float64 `iproto:"cnt(i8)"`
}
type eIface struct {
	A interface{}   `iproto:"cnt(i16)"`
	B []interface{} `iproto:"cnt(i16)"`
}
type eTuple struct {
	I int32
	F byte
	B []byte
	S string
}
type eTail struct {
	I int32
	T []int32 `sbox:"tail"`
}
type eTailS struct {
	I int32
	T []eTuple2 `sbox:"tailsplit"`
}
type eTuple2 struct {
	A int16
	B string
}
type eNamed uint32
type eNames []eNamed
type eBad struct {
	A uint32
	C chan int
}
type eBadTag struct {
	A uint32 `iproto:"size(q)"`
}

// eWrap has parts whose sizes are known only once they are encoded.
type eWrap struct {
	A eInner   `iproto:"size(ber)"`
	B []eInner `iproto:"size(i16)"`
	C eInner   `iproto:"size(i32)"`
}

// eHand encodes itself.
type eHand struct {
	N int
	B []byte
}

func (h eHand) IWrite(w *marshal.Writer) {
	w.IntUint32(h.N)
	for i := 0; i < h.N; i++ {
		w.Bytes(h.B)
	}
	w.Write(eInner{int16(h.N), "in hand"})
}

func (h *eHand) IRead(r *marshal.Reader) {
	h.N = r.IntUint32()
	h.B = r.Slice(h.N)
}

// eBoom panics in the middle.
type eBoom struct {
	Pre  int
	What string
}

func (h eBoom) IWrite(w *marshal.Writer) {
	for i := 0; i < h.Pre; i++ {
		w.Uint8(0xbb)
	}
	panic(h.What)
}

type eBoomIn struct {
	A uint64
	B eInts
	H eBoom
}

type eMsg struct {
	A uint32
	B string
}

func (eMsg) IMsg() iproto.RequestType { return 0x77 }

// coded is one operation; do gives its result and the bodies it was given.
type coded struct {
	name string
	do   func(x *codecx) (string, [][]byte)
	same func(x *codecx) (string, [][]byte) // gives the same result, if not nil
}

// codecx is the goroutine's own context.
type codecx struct {
	cx    *iproto.Context
	multi *iproto.MultiRequest
	w     *marshal.Writer
	serv  iproto.Service
	seen  [][]byte
}

func fill(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = seed + byte(i)*7
	}
	return b
}

func ops() []coded {
	str := string(fill(30, 'a'))
	deep := eDeep{A: eInner{3, "x"}, B: []eInner{{4, "yy"}, {5, str}}, C: &eInner{6, "z"}}
	deep.D[1] = eInts{1, 2, 3, 4, 5, 6}
	tree := eTree{1, []eTree{{2, []eTree{{3, nil}}}, {4, nil}}}
	vals := []interface{}{
		nil, uint8(7), int16(-5), uint32(77), int64(-9), float64(2.5), str, fill(20, 3), []int32{1, -2, 3}, []uint64{9, 8},
		eInts{-1, 2, -3, 4, 1.5, -2.5}, &eInts{1, 2, 3, 4, 5, 6}, eBer{1, 300, 70000, 1 << 40, 1 << 62},
		eSized{1, 2, 3, 4, "sized", [2]int16{5, 6}, []uint32{7, 8, 9}}, deep, &deep, eSkip{1, 2, fill(9, 1)}, tree,
		eArr{[2]uint32{1, 2}, [2]uint32{3, 400}, []uint64{5, 600000}, []int8{-1, 1}, []float64{1, 2}},
		eIface{eInner{1, "q"}, []interface{}{eInner{2, "w"}, uint32(3), "str"}},
		eNamed(5), eNames{1, 2, 3}, []eInner{{1, "a"}, {2, "b"}}, [2]eInner{{1, "a"}, {2, "b"}}, []interface{}{uint8(1), "two", eInner{3, "x"}},
		eHand{3, fill(5, 9)}, []eHand{{1, fill(3, 2)}, {2, fill(4, 4)}}, fill(700, 5), fill(5000, 6), eBad{}, eBadTag{},
		eBoom{5, "boom"}, eBoomIn{1, eInts{}, eBoom{3, "boom in"}}, eBoom{600, "big boom"},
		sbox.SelectReq{Space: 1, Index: 2, Limit: 3, Keys: []uint32{1, 2}}, sbox.StoreReq{Space: 1, Return: true, Tuple: eTuple{1, 2, fill(3, 3), "s"}},
		sbox.RPCReq{Name: "proc", Args: []string{"a", "bb"}}, sbox.DeleteReq{Space: 4, Key: uint32(5)}, iproto.Body(fill(12, 8)),
		eMsg{1, "msg"}, eWrap{eInner{1, "one"}, []eInner{{2, "two"}, {3, "three"}}, eInner{4, "four"}}, &eWrap{}, eWrap{B: []eInner{{5, str}, {6, str}}, C: eInner{7, str}},
	}
	tuples := []interface{}{
		uint8(1), int32(-2), uint64(3), "str", fill(10, 2), []interface{}{uint8(1), "x", fill(3, 3)}, eTuple{1, 2, fill(3, 3), "abc"},
		&eTuple{5, 6, nil, ""}, []int32{1, 2}, []string{"a", "bb"}, eNamed(9), eTail{1, []int32{2, 3}}, eTailS{1, []eTuple2{{2, "b"}, {3, "c"}}}, eNames{4, 5}, [3]uint8{1, 2, 3}, [2]int32{1, 2}, eBad{},
	}
	dests := []func() interface{}{
		func() interface{} { return new(uint32) },
		func() interface{} { return new(string) },
		func() interface{} { return new([]byte) },
		func() interface{} { return new([]int32) },
		func() interface{} { return new(eInts) },
		func() interface{} { return new(eBer) },
		func() interface{} { return new(eSized) },
		func() interface{} { return new(eDeep) },
		func() interface{} { return new(eSkip) },
		func() interface{} { return new(eTree) },
		func() interface{} { return new(eArr) },
		func() interface{} { return new(eNames) },
		func() interface{} { return new([]eInner) },
		func() interface{} { return new([2]eInner) },
		func() interface{} { return new(eHand) },
		func() interface{} { return new([]eHand) },
		func() interface{} { return &[]interface{}{new(uint8), new(string), new(eInner)} },
		func() interface{} { return make([]uint16, 3) },
		func() interface{} { return new(eBad) },
		func() interface{} { return new(eWrap) },
	}
	wrap := eWrap{eInner{1, "one"}, []eInner{{2, "two"}, {3, "three"}}, eInner{4, "four"}}
	tdests := []func() interface{}{
		func() interface{} { return new(uint32) },
		func() interface{} { return new(string) },
		func() interface{} { return new([]byte) },
		func() interface{} { return new([]int32) },
		func() interface{} { return new(eTuple) },
		func() interface{} { return new(eTail) },
		func() interface{} { return new(eTailS) },
		func() interface{} { return new(eNames) },
		func() interface{} { return new([2]int32) },
		func() interface{} { return new(eNamed) },
	}
	rdests := []func() interface{}{
		func() interface{} { return new([]eTuple) },
		func() interface{} { return new(eTuple) },
		func() interface{} { return new([3]eTuple2) },
		func() interface{} { return []*eTuple2{{}, {}} },
		func() interface{} { return new([]uint32) },
		func() interface{} { return []interface{}{new(eTuple), new([]eTuple2)} },
		func() interface{} { return new([]string) },
	}
	// bodies to decode, written by hand-kept encoders of the harness
	var bodies [][]byte
	le := func(n uint32) []byte { return []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)} }
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	bodies = append(bodies, nil, le(7), cat(le(3), []byte("abc")), cat(le(2), le(5), le(6)), cat(le(1), le(3), []byte("abcdefghi")), bytes.Repeat([]byte{1, 0, 0, 0, 1, 0}, 14),
		cat(le(1), []byte{4}, le(9)), cat(le(4), []byte{4}, le(1), []byte{1, 2}, []byte{3, 1, 2, 3}, []byte{2, 'h', 'i'}),
		cat(le(2), le(3), []byte("xyz")), []byte{1, 2}, cat([]byte{1, 2}, []byte{0, 0}), make([]byte, 64), bytes.Repeat([]byte{2, 0, 0, 0}, 20))
	tup := func(fields ...[]byte) []byte {
		b := le(uint32(len(fields)))
		for _, f := range fields {
			b = cat(b, []byte{byte(len(f))}, f)
		}
		return b
	}
	sized := func(t []byte) []byte { return cat(le(uint32(len(t)-4)), t) }
	t1 := tup(le(1), []byte{2}, []byte{1, 2, 3}, []byte("str"))
	t2 := tup([]byte{5, 0}, []byte("b"))
	results := [][]byte{cat(le(1), sized(t1)), cat(le(2), sized(t1), sized(t1)), cat(le(2), sized(t2), sized(t2)), cat(le(1), sized(tup(le(4)))), le(0), cat(le(3), sized(t1)), {1}, cat(le(2), sized(t1), sized(t2)), cat(le(1), sized(tup([]byte("only"))))}
	tbodies := [][]byte{t1, t2, tup(le(4)), tup([]byte("s")), tup(le(1), le(2), le(3)), tup(le(1), []byte{5, 0}, []byte("x"), []byte{6, 0}, []byte("y")), le(0), {2}}

	var out []coded
	add := func(name string, do func(x *codecx) (string, [][]byte)) {
		out = append(out, coded{name: name, do: do})
	}
	body := func(b []byte) (string, [][]byte) { return fmt.Sprintf("%x", b), [][]byte{b} }
	for i, v := range vals {
		v := v
		n := fmt.Sprintf("#%d %T", i, v)
		first := len(out)
		add("Write "+n, func(x *codecx) (string, [][]byte) { return body(marshal.Write(v)) })
		add("WriteTail "+n, func(x *codecx) (string, [][]byte) { return body(marshal.WriteTail(v)) })
		add("SendMsgBody "+n, func(x *codecx) (string, [][]byte) {
			r, ch := iproto.SendMsgBody(x.serv, 5, v)
			res := <-ch
			_ = r
			return body(res.Body)
		})
		add("CallMsgBody "+n, func(x *codecx) (string, [][]byte) { return body(iproto.CallMsgBody(x.serv, 5, v).Body) })
		add("Context.NewRequest "+n, func(x *codecx) (string, [][]byte) {
			r, _ := x.cx.NewRequest(3, v)
			return body(r.Body)
		})
		add("Context.CallMsgBody "+n, func(x *codecx) (string, [][]byte) { return body(x.cx.CallMsgBody(x.serv, 3, v).Body) })
		add("own Writer "+n, func(x *codecx) (string, [][]byte) {
			x.w.Reset()
			x.w.Write(v)
			return body(x.w.Written())
		})
		add("Respond "+n, func(x *codecx) (string, [][]byte) {
			var got []byte
			r := &iproto.Request{Responder: iproto.Callback(func(res *iproto.Response) { got = res.Body })}
			iproto.SF(func(r *iproto.Request) { r.Respond(0, v) }).Send(r)
			return body(got)
		})
		if rd, ok := v.(iproto.RequestData); ok {
			add("Context.Call "+n, func(x *codecx) (string, [][]byte) { return body(x.cx.Call(x.serv, rd).Body) })
		}
		// all of them make the same body (WriteTail leaves something out)
		for j := first; j < len(out); j++ {
			if j != first+1 {
				out[j].same = out[first].do
			}
		}
	}
	for i, v := range tuples {
		v := v
		n := fmt.Sprintf("#%d %T", i, v)
		add("WriteTuple "+n, func(x *codecx) (string, [][]byte) {
			w := &marshal.Writer{}
			sbox.WriteTuple(w, v)
			return body(w.Written())
		})
		add("StoreReq "+n, func(x *codecx) (string, [][]byte) { return body(marshal.Write(sbox.StoreReq{Space: 1, Tuple: v})) })
		add("SelectReq "+n, func(x *codecx) (string, [][]byte) {
			return body(marshal.Write(sbox.SelectReq{Space: 1, Keys: v}))
		})
	}
	for bi, b := range bodies {
		b := b
		for i, d := range dests {
			d := d
			n := fmt.Sprintf("body %d into #%d", bi, i)
			add("Read "+n, func(x *codecx) (string, [][]byte) {
				v := d()
				err := marshal.Read(b, v)
				return fmt.Sprintf("%s err %v", vdump.Dump(v), err), nil
			})
			if _, ok := d().(*[]interface{}); ok {
				continue // has no end, also alone
			}
			add("ReadTail "+n, func(x *codecx) (string, [][]byte) {
				v := d()
				err := iproto.Body(b).ReadTail(v)
				return fmt.Sprintf("%s err %v", vdump.Dump(v), err), nil
			})
		}
	}
	trips := []struct {
		v interface{}
		d func() interface{}
	}{
		{vals[10], dests[4]}, {vals[12], dests[5]}, {vals[13], dests[6]}, {deep, dests[7]}, {tree, dests[9]}, {vals[18], dests[10]},
		{vals[21], dests[11]}, {vals[22], dests[12]}, {vals[23], dests[13]}, {vals[24], dests[16]}, {str, dests[1]}, {fill(20, 3), dests[2]}, {vals[8], dests[3]}, {wrap, dests[19]},
	}
	for i, t := range trips {
		t := t
		add(fmt.Sprintf("there and back #%d %T", i, t.v), func(x *codecx) (string, [][]byte) {
			b := marshal.Write(t.v)
			v := t.d()
			err := marshal.Read(b, v)
			return fmt.Sprintf("%x %s err %v", b, vdump.Dump(v), err), [][]byte{b}
		})
	}
	for bi, b := range tbodies {
		b := b
		for i, d := range tdests {
			d := d
			n := fmt.Sprintf("tuple %d into #%d", bi, i)
			add("ReadRawTuple "+n, func(x *codecx) (string, [][]byte) {
				v := d()
				r := &marshal.Reader{Body: b}
				err := sbox.ReadRawTuple(r, v)
				return fmt.Sprintf("%s err %v", vdump.Dump(v), err), nil
			})
		}
	}
	for bi, b := range results {
		b := b
		for i, d := range rdests {
			d := d
			n := fmt.Sprintf("result %d into #%d", bi, i)
			add("ReadMany "+n, func(x *codecx) (string, [][]byte) {
				v := d()
				read, total, err := sbox.ReadMany(b, v)
				return fmt.Sprintf("%s %d %d err %v", vdump.Dump(v), read, total, err), nil
			})
		}
		for i, d := range tdests {
			d := d
			n := fmt.Sprintf("result %d into #%d", bi, i)
			add("ReadFirst "+n, func(x *codecx) (string, [][]byte) {
				v := d()
				read, total, err := sbox.ReadFirst(b, v)
				return fmt.Sprintf("%s %v %d err %v", vdump.Dump(v), read, total, err), nil
			})
		}
	}
	return out
}

// run runs one operation; a panic is its result.
func (c *coded) run(x *codecx) (res string, bodies [][]byte) {
	defer func() {
		if p := recover(); p != nil {
			res, bodies = vdump.Clean(fmt.Sprintf("panic %v", p)), nil
		}
	}()
	res, bodies = c.do(x)
	return vdump.Clean(res), bodies
}

func newCodecx() *codecx {
	return &codecx{cx: &iproto.Context{}, w: &marshal.Writer{}, serv: iproto.SF(func(r *iproto.Request) { r.RespondBytes(0, r.Body) })}
}

var _ = register(&Scenario{Name: "codec", Props: []string{"C12"}, Weight: 4, Real: realCore + " and package sbox", Stub: stubCore, Run: func(e *Env) { codecs(e, false) }})
var _ = register(&Scenario{Name: "codec-pool", Props: []string{"C12"}, Weight: 1, Real: realCore + " and package sbox", Stub: stubCore, Run: func(e *Env) { codecs(e, true) }})

func codecs(e *Env, inPool bool) {
	all := ops()
	// a few operations that meet each other often
	var sel []coded
	n := 1 + e.N(5)
	if e.Chance(1, 2) {
		// of one kind
		kind := func(c coded) string { return c.name[:strings.IndexByte(c.name, ' ')] }
		k := kind(all[e.N(len(all))])
		if e.Chance(1, 3) {
			k = "Write"
		}
		var l []coded
		for _, c := range all {
			if kind(c) == k {
				l = append(l, c)
			}
		}
		all = l
	}
	for i := 0; i < n; i++ {
		sel = append(sel, all[e.N(len(all))])
	}
	most := 4
	if e.Chance(1, 3) {
		most = 12
	}
	alone := make([]string, len(sel))
	for i := range sel {
		ResetAll()
		alone[i], _ = sel[i].run(newCodecx())
		if sel[i].same != nil {
			if w, _ := (&coded{name: "Write", do: sel[i].same}).run(newCodecx()); w != alone[i] {
				e.Fail("C12", "differs", "%s gave %.300s and encoding the value gives %.300s", sel[i].name, alone[i], w)
			}
		}
	}
	ResetAll()
	type kept struct {
		b, copy []byte
		op      string
	}
	var bodies []kept
	check := func() {
		for _, k := range bodies {
			if !bytes.Equal(k.b, k.copy) {
				e.Fail("C12", "body changed", "a body made by %s was %s and is %s later", k.op, short(k.copy), short(k.b))
			}
		}
	}
	work := func(x *codecx, s *rt.Stream, ops int) {
		for k := 0; k < ops; k++ {
			i := s.N(len(sel))
			res, bs := sel[i].run(x)
			if res != alone[i] {
				e.Fail("C12", "differs", "%s gave %.300s and alone it gives %.300s", sel[i].name, res, alone[i])
			}
			for _, b := range bs {
				bodies = append(bodies, kept{b, append([]byte(nil), b...), sel[i].name})
				// the caller may append to what it was given
				if s.Chance(1, 4) {
					_ = append(b, 0xee, 0xee, 0xee, 0xee)
				}
			}
		}
	}
	tasks := 2 + e.N(4)
	g := newWg()
	if !inPool {
		g.add(tasks)
		for i := 0; i < tasks; i++ {
			s := e.Stream("codec" + string(rune('0'+i)))
			rt.GoNamed("codec", func() {
				x := newCodecx()
				work(x, s, 1+s.N(most))
				if s.Chance(1, 2) {
					x.cx.Done()
					x = newCodecx()
					work(x, s, 1+s.N(3))
				}
				x.cx.Done()
				g.done()
			})
		}
		g.wait()
		check()
		return
	}
	// in the workers of a pool, whose contexts hand generators on
	serv := iproto.BF{N: 1 + e.N(3)}.New(func(cx *iproto.Context, r *iproto.Request) (iproto.RetCode, interface{}) {
		s := e.Stream("codec" + string(rune('0'+r.Id%4)))
		x := newCodecx()
		x.cx = cx
		work(x, s, 1+s.N(4))
		if s.Chance(1, 6) {
			panic("worker")
		}
		// some child works too
		if s.Chance(1, 3) {
			ch := make(chan bool)
			if _, ok := cx.Child(); ok {
				cx.Go(func(cx *iproto.Context) {
					x := newCodecx()
					x.cx = cx
					work(x, e.Stream("child"), 1)
					close(ch)
				})
				<-ch
			}
		}
		return 0, nil
	})
	g.add(tasks)
	for i := 0; i < tasks; i++ {
		i := i
		rt.GoNamed("sender", func() {
			for k := 0; k < 3; k++ {
				ch := make(chan bool)
				serv.Send(&iproto.Request{Id: uint32(i), Msg: 1, Responder: iproto.Callback(func(*iproto.Response) { close(ch) })})
				<-ch
			}
			g.done()
		})
	}
	g.wait()
	check()
	serv.Stop()
}
