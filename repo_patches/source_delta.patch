From ab5c0ddc64d51eec9910c784d065c51ae6816ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 01/42] fix: timer heap could lose its wake-up and fire late or
 never

---
 custom_timer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index 4f60ff7..c81e0f0 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -104,7 +104,13 @@ func newHeap(i uint32) *tHeap {
 }
 
 func (h *tHeap) loop() {
-	t := time.AfterFunc(time.Hour, h.c.Signal)
+	t := time.AfterFunc(time.Hour, func() {
+		// without the lock the signal could come between the loop's look at
+		// the clock and its wait, and be lost
+		h.m.Lock()
+		h.c.Signal()
+		h.m.Unlock()
+	})
 	h.m.Lock()
 Loop:
 	for {
-- 
2.43.0


From ebd6ce47a95ede216e923a5846c00a486ce7f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 02/42] fix: timers and durations followed steps of the wall
 clock

---
 epoch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/epoch.go b/epoch.go
index 4b61c88..06a344a 100644
--- a/epoch.go
+++ b/epoch.go
@@ -8,12 +8,17 @@ type Epoch time.Duration
 
 var epoch = time.Date(2010, time.January, 1, 0, 0, 0, 0, time.UTC)
 
+// start carries the monotonic clock reading, so that epochs taken with
+// NowEpoch do not jump when the wall clock is stepped.
+var start = time.Now()
+var startEpoch = NewEpoch(start)
+
 func NewEpoch(tm time.Time) Epoch {
 	return Epoch(tm.Sub(epoch))
 }
 
 func NowEpoch() Epoch {
-	return Epoch(time.Now().Sub(epoch))
+	return startEpoch + Epoch(time.Now().Sub(start))
 }
 
 func (e Epoch) Before(o Epoch) bool {
-- 
2.43.0


From e85e49502e22ee4c5fdd8b4883b1006e94faf570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 03/42] fix: Context.Child never reported success, so Go and
 its kin ran nothing

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 80a085e..1c3eef4 100644
--- a/context.go
+++ b/context.go
@@ -215,6 +215,7 @@ func (c *Context) Child() (child *Context, ok bool) {
 	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
 	if rc == 0 {
 		c.AddCanceler(child)
+		ok = true
 	} else {
 		child.Cancel()
 	}
-- 
2.43.0


From 3d9d5bdd1e12c62842f64b3e5b9b1c7d1a248255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:02 +0000
Subject: [PATCH 04/42] fix: only one of several goroutines in Context.WaitAll
 was woken

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 1c3eef4..40e7141 100644
--- a/context.go
+++ b/context.go
@@ -72,7 +72,7 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 		delete(c.cancelsm, cn)
 	}
 	if c.cancelsn == 0 && len(c.cancelsm) == 0 {
-		c.childCond.Signal()
+		c.childCond.Broadcast()
 	}
 	c.m.Unlock()
 }
-- 
2.43.0


From 57cd697d0c2b43ace2c15641488d1d15fb6d67ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 05/42] fix: Context.Cancel missed requests registered
 meanwhile and spun until children ended

---
 context.go | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/context.go b/context.go
index 40e7141..25ae4bf 100644
--- a/context.go
+++ b/context.go
@@ -2,7 +2,6 @@ package iproto
 
 import (
 	"log"
-	"runtime"
 	"sync"
 	"sync/atomic"
 )
@@ -104,36 +103,36 @@ func (c *Context) AddCanceler(cn Canceler) {
 	}
 }
 
-func (c *Context) cancelAll() {
-	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
-		c.m.Lock()
-		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
-		for i := 0; i < len(c.cancels); i++ {
-			if c.cancels[i] != nil {
-				cancels = append(cancels, c.cancels[i])
-			}
-		}
-		for cancel := range c.cancelsm {
-			cancels = append(cancels, cancel)
-		}
+// cancelAll sets the state and cancels everything registered so far.  Both
+// happen under the lock AddCanceler takes, so whoever registers later sees the
+// state.  It does not wait until the cancelled ones are gone.
+func (c *Context) cancelAll(state CxState) {
+	c.m.Lock()
+	if !atomic.CompareAndSwapUint32((*uint32)(&c.State), 0, uint32(state)) {
 		c.m.Unlock()
-		for _, cancel := range cancels {
-			cancel.Cancel()
+		return
+	}
+	cancels := make([]Canceler, 0, len(c.cancels)+len(c.cancelsm))
+	for i := 0; i < len(c.cancels); i++ {
+		if c.cancels[i] != nil {
+			cancels = append(cancels, c.cancels[i])
 		}
-		runtime.Gosched()
+	}
+	for cancel := range c.cancelsm {
+		cancels = append(cancels, cancel)
+	}
+	c.m.Unlock()
+	for _, cancel := range cancels {
+		cancel.Cancel()
 	}
 }
 
 func (c *Context) Cancel() {
-	if atomic.CompareAndSwapUint32((*uint32)(&c.State), 0, uint32(CxCanceled)) {
-		c.cancelAll()
-	}
+	c.cancelAll(CxCanceled)
 }
 
 func (c *Context) Expire() {
-	if atomic.CompareAndSwapUint32((*uint32)(&c.State), 0, uint32(CxTimeout)) {
-		c.cancelAll()
-	}
+	c.cancelAll(CxTimeout)
 }
 
 func (c *Context) NewRequest(msg RequestType, body interface{}) (r *Request, res <-chan *Response) {
-- 
2.43.0


From 5770b32b5fea8927f58ca6dad0320b4a19483c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:39 +0000
Subject: [PATCH 06/42] fix: failing a multi-request could dereference a
 request answered meanwhile

---
 wait_group.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 1a4d011..f32a2bb 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -215,8 +215,9 @@ func (w *MultiRequest) performFailAll() {
 	w.m.Unlock()
 
 	for i := 0; i < r; i++ {
-		if allReqs[i] != nil {
-			w.performFail(allReqs[i])
+		// the entry is cleared when the request is answered meanwhile
+		if req := allReqs[i]; req != nil {
+			w.performFail(req)
 		}
 	}
 }
-- 
2.43.0


From 7e90782cb78e516167336483329e07d4638216a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 07/42] fix: MultiRequest.Each raced with late responses and
 held its context when all were in

---
 wait_group.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index f32a2bb..25d54d8 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -126,16 +126,22 @@ func (w *MultiRequest) Each() <-chan *Response {
 		w.gen.Release()
 	}
 	w.setKind(mrChan)
-	w.ch = make(chan *Response, w.r)
+	// published only when it is filled: Respond sends to it without the lock
+	ch := make(chan *Response, w.r)
 
 	for _, resp := range w.responses {
 		w.requests[resp.Id] = nil
-		w.ch <- resp
+		ch <- resp
 	}
 	w.responses = nil
 	if w.c == w.r {
-		close(w.ch)
+		close(ch)
+		w.timer.Stop()
+		if w.cx != nil {
+			w.cx.RemoveCanceler(w)
+		}
 	}
+	w.ch = ch
 	w.m.Unlock()
 	return w.ch
 }
-- 
2.43.0


From 0defca9f4755a521ac80ef2a9df13f8b30c8e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 08/42] fix: a request body could start with the rest of one
 whose encoder panicked

---
 generator.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator.go b/generator.go
index 8f3ecb5..952cadd 100644
--- a/generator.go
+++ b/generator.go
@@ -36,6 +36,8 @@ func (gen *RGenerator) Request(id uint32, msg RequestType, val interface{}) (req
 	req.Msg = msg
 	var ok bool
 	if req.Body, ok = val.(Body); !ok {
+		// a panic inside an earlier value may have left a part of it
+		gen.w.Reset()
 		gen.w.Write(val)
 		req.Body = gen.w.Written()
 	}
-- 
2.43.0


From b931a9670b96dcb099b60857aa694cadc2690870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 09/42] fix: a stopped worker pool swallowed its queue without
 answering

---
 parallel_service.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parallel_service.go b/parallel_service.go
index 6267c6a..9eaa227 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -93,11 +93,12 @@ Loop:
 		}
 	}
 
-	for {
+	// the queue of a child belongs to its parent
+	for serv.Standalone() {
 		if req, ok = <-serv.ReceiveChan(); !ok {
 			break
 		}
-		req.Respond(RcShutdown, nil)
+		req.ShutDown()
 	}
 }
 
-- 
2.43.0


From 55edcb8a8efe22cb4713c75decf2dcc96bae4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:26 +0000
Subject: [PATCH 10/42] fix: stopping an endpoint blocked until its loop took
 notice

---
 service.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/service.go b/service.go
index 5fa1b3d..596e740 100644
--- a/service.go
+++ b/service.go
@@ -113,7 +113,7 @@ func (s *SimplePoint) RunChild(p EndPoint) {
 
 func (s *SimplePoint) Init(p PointLoop) {
 	s.PointLoop = p
-	s.exit = make(chan bool)
+	s.exit = make(chan bool, 1)
 }
 
 func (s *SimplePoint) ExitChan() <-chan bool {
@@ -148,11 +148,14 @@ func (s *SimplePoint) Send(r *Request) {
 }
 
 func (s *SimplePoint) Stop() {
+	s.stopped = true
 	if s.standalone {
 		s.b.close()
 	}
-	s.stopped = true
-	s.exit <- true
+	select {
+	case s.exit <- true:
+	default:
+	}
 }
 
 func (s *SimplePoint) Stopped() bool {
-- 
2.43.0


From 9e6b52bd51ca9125e66cf049c37cb518fb82a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:27 +0000
Subject: [PATCH 11/42] fix: requests queued at or sent after the stop of an
 endpoint were lost or panicked the sender

---
 buffer.go | 52 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/buffer.go b/buffer.go
index a33e3c8..9e2c9d1 100644
--- a/buffer.go
+++ b/buffer.go
@@ -36,6 +36,9 @@ type Buffer struct {
 	ch         chan *Request
 	onExit     func()
 	set        chan bool
+	stop       chan bool
+	closed     uint32
+	pushers    int32
 	m          sync.Mutex
 	rows       map[uint64]*bufferRow
 	head, tail uint64
@@ -47,9 +50,22 @@ func (b *Buffer) init() {
 	row := new(bufferRow)
 	b.hRow, b.tRow, b.rows[0] = row, row, row
 	b.set = make(chan bool, 1)
+	b.stop = make(chan bool)
 }
 
 func (b *Buffer) push(r *Request) {
+	atomic.AddInt32(&b.pushers, 1)
+	if atomic.LoadUint32(&b.closed) == 0 {
+		b.put(r)
+	} else {
+		r.ShutDown()
+	}
+	if atomic.AddInt32(&b.pushers, -1) == 0 && atomic.LoadUint32(&b.closed) != 0 {
+		b.notify()
+	}
+}
+
+func (b *Buffer) put(r *Request) {
 	if b.tail == b.head {
 		select {
 		case b.ch <- r:
@@ -78,18 +94,36 @@ func (b *Buffer) push(r *Request) {
 	} else {
 		middle.state = bsFree
 	}
+	b.notify()
+}
+
+func (b *Buffer) notify() {
 	select {
 	case b.set <- true:
 	default:
 	}
 }
 
+// close lets the loop fail what is queued and close the channel; requests
+// pushed later are failed at once.
 func (b *Buffer) close() {
-	select {
-	case b.set <- true:
-	default:
+	if atomic.CompareAndSwapUint32(&b.closed, 0, 1) {
+		close(b.stop)
+		b.notify()
+	}
+}
+
+// finish is called when nobody can push any more.
+func (b *Buffer) finish() {
+	for {
+		select {
+		case req := <-b.ch:
+			req.ShutDown()
+		default:
+			close(b.ch)
+			return
+		}
 	}
-	close(b.set)
 }
 
 func (b *Buffer) loop() {
@@ -117,11 +151,19 @@ func (b *Buffer) loop() {
 				req := middle.Request
 				middle.state = bsFree
 				if req != nil && req.IsPending() {
-					b.ch <- req
+					select {
+					case b.ch <- req:
+					case <-b.stop:
+						req.ShutDown()
+					}
 				}
 			case bsFree:
 			}
 		}
+		if atomic.LoadUint32(&b.closed) != 0 && atomic.LoadInt32(&b.pushers) == 0 && b.head == atomic.LoadUint64(&b.tail) {
+			b.finish()
+			break
+		}
 	}
 	if b.onExit != nil {
 		b.onExit()
-- 
2.43.0


From 8ea511f68eb9ada1321ea9a2a7aa3f968f067635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:27 +0000
Subject: [PATCH 12/42] fix: a child added to a balancer while it starts was
 run twice

---
 balancer.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/balancer.go b/balancer.go
index f7e3aff..334f36f 100644
--- a/balancer.go
+++ b/balancer.go
@@ -1,7 +1,12 @@
 package iproto
 
+import "sync"
+
 type BalancerPoint struct {
 	SimplePoint
+	m        sync.Mutex
+	looping  bool
+	exited   bool
 	children []EndPoint
 }
 
@@ -10,18 +15,26 @@ func (b *BalancerPoint) Init() {
 }
 
 func (b *BalancerPoint) AddChild(ch EndPoint) {
+	b.m.Lock()
+	defer b.m.Unlock()
 	b.children = append(b.children, ch)
-	if b.Runned() {
-		ch.Run(b.b.ch)
+	if b.looping && !b.exited {
+		b.RunChild(ch)
 	}
 }
 
 func (b *BalancerPoint) Loop() {
+	b.m.Lock()
+	b.looping = true
 	for _, ch := range b.children {
 		b.RunChild(ch)
 	}
+	b.m.Unlock()
 	<-b.ExitChan()
+	b.m.Lock()
+	b.exited = true
 	for _, ch := range b.children {
 		ch.Stop()
 	}
+	b.m.Unlock()
 }
-- 
2.43.0


From a95c891c0a31d4fb6409c8f379bfe950824ae1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 13/42] fix: a handler's answer with the time-out code became
 an internal error

---
 parallel_service.go | 9 ++++++++-
 request.go          | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parallel_service.go b/parallel_service.go
index 9eaa227..e64b978 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -117,6 +117,13 @@ func (serv *ParallelService) inc(ctx *ReqContext) {
 func (serv *ParallelService) serv(ctx *ReqContext) {
 	defer serv.inc(ctx)
 	if req := ctx.Request; req != nil {
-		req.Respond(serv.f(&ctx.Context, req))
+		code, val := serv.f(&ctx.Context, req)
+		if code == RcTimeout {
+			// it is the handler's answer and not the expiry of the request
+			req.Lock()
+			ctx.answered = true
+			req.Unlock()
+		}
+		req.Respond(code, val)
 	}
 }
diff --git a/request.go b/request.go
index c4da8a6..bdc6fae 100644
--- a/request.go
+++ b/request.go
@@ -191,12 +191,13 @@ func (r *Request) ChainBookmark(res RequestBookmark) (chained bool) {
 type ReqContext struct {
 	Bookmark
 	Context
+	answered bool
 }
 
 func (cm *ReqContext) Respond(res *Response) {
 	if res.Code == RcCanceled {
 		cm.Cancel()
-	} else if res.Code == RcTimeout {
+	} else if res.Code == RcTimeout && !cm.answered {
 		cm.Expire()
 		cm.Request.ResetToPending()
 		cm.Request.SetInFly(nil)
-- 
2.43.0


From 53d40a707abb92ed2ebff70361de73c8efd119bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 14/42] fix: a function started while its context was being
 cancelled ran unseen by WaitAll

---
 context.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/context.go b/context.go
index 25ae4bf..3cffe6b 100644
--- a/context.go
+++ b/context.go
@@ -77,7 +77,12 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 }
 
 func (c *Context) AddCanceler(cn Canceler) {
-	var ok bool
+	c.addCanceler(cn)
+}
+
+// addCanceler tells whether cn was registered; a finished context cancels it
+// at once instead.
+func (c *Context) addCanceler(cn Canceler) (ok bool) {
 	c.m.Lock()
 	c.childCond.L = &c.m
 	ok = c.State == 0
@@ -101,6 +106,7 @@ func (c *Context) AddCanceler(cn Canceler) {
 	if !ok {
 		cn.Cancel()
 	}
+	return
 }
 
 // cancelAll sets the state and cancels everything registered so far.  Both
@@ -213,8 +219,7 @@ func (c *Context) Child() (child *Context, ok bool) {
 	child = &Context{parent: c}
 	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
 	if rc == 0 {
-		c.AddCanceler(child)
-		ok = true
+		ok = c.addCanceler(child)
 	} else {
 		child.Cancel()
 	}
-- 
2.43.0


From 819677b68f752671b825517232eb2079243aca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:54 +0000
Subject: [PATCH 15/42] fix: []float64 was encoded in overlapping steps and
 left stale bytes in the body

---
 marshal/writer_any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_any.go b/marshal/writer_any.go
index 775f75f..26a7a8c 100644
--- a/marshal/writer_any.go
+++ b/marshal/writer_any.go
@@ -113,7 +113,7 @@ func (w *Writer) Float32sl(i []float32) {
 func (w *Writer) Float64sl(i []float64) {
 	l := w.ensure(len(i) * 8)
 	for j := 0; j < len(i); j++ {
-		le.PutUint64(w.buf[l+j*4:], math.Float64bits(i[j]))
+		le.PutUint64(w.buf[l+j*8:], math.Float64bits(i[j]))
 	}
 	return
 }
-- 
2.43.0


From c653c3906f154d1daa29a368b6edf9d3cb0be0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 16/42] fix: reading a one byte return code at the end of the
 buffer read nothing

---
 net/slice_reader.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c833dff..518f543 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -55,12 +55,11 @@ func (sl *SliceReader) ReadByte() (res byte, err error) {
 		sl.buf = sl.buf[1:]
 		return
 	}
-	var buf []byte
 	var n int
-	if cap(buf) == 0 {
-		buf = make([]byte, len(sl.buf), sl.size)
+	buf := make([]byte, sl.size)
+	for n == 0 && err == nil {
+		n, err = sl.read(buf)
 	}
-	n, err = sl.read(buf)
 	if n >= 1 {
 		res = buf[0]
 		sl.buf = buf[1:n]
-- 
2.43.0


From f632daa35216890e0edaea25c049c8ff61e9ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 17/42] fix: a one byte return code took four bytes in the
 stream

---
 net/buf_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/buf_writer.go b/net/buf_writer.go
index 0da728b..3f49824 100644
--- a/net/buf_writer.go
+++ b/net/buf_writer.go
@@ -58,14 +58,14 @@ func (w *BufWriter) Write3Uint32(i, j, k uint32) (err error) {
 }
 
 func (w *BufWriter) WriteByte(i byte) (err error) {
-	if w.wr+4 > len(w.buf) {
+	if w.wr+1 > len(w.buf) {
 		if err = w.Flush(); err != nil {
 			return
 		}
 	}
 
 	w.buf[w.wr] = i
-	w.wr += 4
+	w.wr += 1
 	return
 }
 
-- 
2.43.0


From 9759e71ade42e971abcddc97b341b663786627cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 18/42] fix: ping answers carried a return code their length
 does not count

---
 net/header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/header.go b/net/header.go
index ca974bf..d581cf6 100644
--- a/net/header.go
+++ b/net/header.go
@@ -165,13 +165,13 @@ func (h *HeaderWriter) WriteResponse(res Response) (err error) {
 		return
 	}
 
-	switch h.rc {
-	case RC0byte:
-	case RC1byte:
+	switch retCodeLen {
+	case 0:
+	case 1:
 		if err = h.w.WriteByte(byte(res.Code)); err != nil {
 			return
 		}
-	case RC4byte:
+	case 4:
 		if err = h.w.WriteUint32(uint32(res.Code)); err != nil {
 			return
 		}
-- 
2.43.0


From 02afb70177f546ee011de55b065140a3b6e1bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 19/42] fix: appending to a received body overwrote the frames
 behind it

---
 net/slice_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 518f543..2254ecd 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -16,7 +16,7 @@ type SliceReader struct {
 
 func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	if len(sl.buf) > n {
-		res = sl.buf[:n]
+		res = sl.buf[:n:n]
 		sl.buf = sl.buf[n:]
 		return
 	}
@@ -38,7 +38,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		l += nn
 	}
 	if l >= n {
-		res = buf[:n]
+		res = buf[:n:n]
 		sl.buf = buf[n:l]
 		err = nil
 	} else if l > 0 && err == io.EOF {
-- 
2.43.0


From 0bc3f93f8e914d1882ee3155e03a0488727cacd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 20/42] fix: the body of a ping answer was taken for the next
 frame

---
 net/header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/header.go b/net/header.go
index d581cf6..51eff02 100644
--- a/net/header.go
+++ b/net/header.go
@@ -110,11 +110,14 @@ func (h *HeaderReader) ReadPing() (err error) {
 	}
 
 	msg := iproto.RequestType(bin_le.Uint32(head[:4]))
+	body_len := bin_le.Uint32(head[4:8])
 	id := bin_le.Uint32(head[8:])
 
 	if msg != iproto.Ping || id != iproto.PingRequestId {
 		err = errors.New("Iproto ping failed")
+		return
 	}
+	_, err = h.r.Read(int(body_len))
 	return
 }
 
-- 
2.43.0


From bdbd9632313ca4bd539c2c32dd4c3cc60211d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 21/42] fix: a stream that ended inside a frame crashed the
 reader

---
 net/slice_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 2254ecd..8e768a5 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -43,7 +43,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		err = nil
 	} else if l > 0 && err == io.EOF {
 		res = buf[:l]
-		sl.buf = buf[l:]
+		sl.buf = nil
 		err = io.ErrUnexpectedEOF
 	}
 	return
-- 
2.43.0


From 5e07958fbd8f3f2b9eda902e5d9afab2708e0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 22/42] fix: a client that does not read blocked every handler
 that answered it

---
 net/server/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7e99713..e8d4958 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -92,6 +92,7 @@ CodeEnd:
 			case conn.out <- nt.Response(*r):
 				conn.Unlock()
 				return
+			default:
 			}
 		}
 		conn.buf = append(conn.buf, nt.Response(*r))
-- 
2.43.0


From 39f7ea460ee4d7de327114ed8315daec407b16a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 23/42] fix: pings of a client that does not read blocked the
 end of its connection

---
 net/server/connection.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index e8d4958..d4acff8 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -86,19 +86,22 @@ CodeEnd:
 	conn.Lock()
 	if _, ok := conn.inFly[r.Id]; ok {
 		delete(conn.inFly, r.Id)
+		conn.enqueue(nt.Response(*r))
+	}
+	conn.Unlock()
+}
 
-		if len(conn.buf) == 0 {
-			select {
-			case conn.out <- nt.Response(*r):
-				conn.Unlock()
-				return
-			default:
-			}
+// enqueue never blocks. It should be called with conn locked.
+func (conn *Connection) enqueue(res nt.Response) {
+	if len(conn.buf) == 0 {
+		select {
+		case conn.out <- res:
+			return
+		default:
 		}
-		conn.buf = append(conn.buf, nt.Response(*r))
-		conn.bufRealCap = cap(conn.buf)
 	}
-	conn.Unlock()
+	conn.buf = append(conn.buf, res)
+	conn.bufRealCap = cap(conn.buf)
 }
 
 func (conn *Connection) cancelInFly() {
@@ -178,7 +181,9 @@ func (conn *Connection) readLoop() {
 				Id:  req.Id,
 				Msg: iproto.Ping,
 			}
-			conn.out <- res
+			conn.Lock()
+			conn.enqueue(res)
+			conn.Unlock()
 			continue
 		}
 
-- 
2.43.0


From aed42d30345d2edf1792bee6f5a5ca71bb6328b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 24/42] fix: output of a server connection could be closed
 twice

---
 net/server/connection.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index d4acff8..7596fcd 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -15,7 +15,6 @@ type notifyAction uint32
 const (
 	writeClosed = notifyAction(iota + 1)
 	readClosed
-	inFlyEmpty
 )
 
 type ConnState uint32
@@ -146,8 +145,6 @@ func (conn *Connection) controlLoop() {
 			if conn.state&CsReadClosed == 0 {
 				conn.conn.CloseRead()
 			}
-		case inFlyEmpty:
-			close(conn.out)
 		}
 
 		if conn.state&CsClosed == CsClosed {
@@ -277,7 +274,6 @@ Loop:
 				}
 			} else if conn.state&CsReadClosed != 0 && len(conn.inFly) == 0 && len(conn.out) == 0 {
 				conn.Unlock()
-				conn.notifyLoop(inFlyEmpty)
 				break Loop
 			}
 			conn.Unlock()
-- 
2.43.0


From 002398bf8dee5c7ead74c687da4c9113898e7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 25/42] fix: a connection reported its end twice, once to a
 server already gone

---
 net/server/connection.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7596fcd..f0aabfb 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -116,7 +116,6 @@ func (conn *Connection) cancelInFly() {
 	for _, req := range reqs {
 		req.Cancel()
 	}
-	conn.Server.connClosed <- conn.Id
 }
 
 func (conn *Connection) closed() {
-- 
2.43.0


From db01ead9cb73e285eaa7abb28bc72d1d9adfc04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 26/42] fix: requests read after the client was lost were
 executed and never cancelled

---
 net/server/connection.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index f0aabfb..a43b5c1 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -92,6 +92,9 @@ CodeEnd:
 
 // enqueue never blocks. It should be called with conn locked.
 func (conn *Connection) enqueue(res nt.Response) {
+	if conn.state&CsWriteClosed != 0 {
+		return
+	}
 	if len(conn.buf) == 0 {
 		select {
 		case conn.out <- res:
@@ -119,8 +122,10 @@ func (conn *Connection) cancelInFly() {
 }
 
 func (conn *Connection) closed() {
+	conn.Lock()
 	conn.buf = nil
 	conn.inFly = nil
+	conn.Unlock()
 	conn.Server.connClosed <- conn.Id
 }
 
@@ -138,8 +143,10 @@ func (conn *Connection) controlLoop() {
 			}
 			conn.Unlock()
 		case writeClosed:
+			conn.Lock()
 			conn.state &= CsClosed
 			conn.state |= CsWriteClosed
+			conn.Unlock()
 			conn.cancelInFly()
 			if conn.state&CsReadClosed == 0 {
 				conn.conn.CloseRead()
@@ -199,6 +206,10 @@ func (conn *Connection) readLoop() {
 			Responder: conn,
 		}
 		conn.Lock()
+		if conn.state&CsWriteClosed != 0 {
+			conn.Unlock()
+			break
+		}
 		conn.inFly[request.Id] = request
 		conn.Unlock()
 
-- 
2.43.0


From c35b9fdc281bbb6778056cecdeddccbdbe0a82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 27/42] fix: the server kept a connection open after failing to
 write to it

---
 net/server/connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index a43b5c1..d9ca401 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -261,6 +261,9 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err != nil {
+			conn.conn.Close()
+		}
 		conn.notifyLoop(writeClosed)
 	}()
 
-- 
2.43.0


From aae3fcff4227d71de3ce3be74247d5e0111bca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:51 +0000
Subject: [PATCH 28/42] fix: stopping a server again blocked

---
 net/server/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/server/server.go b/net/server/server.go
index 5526b16..e919077 100644
--- a/net/server/server.go
+++ b/net/server/server.go
@@ -65,7 +65,10 @@ func (serv *Server) Run() (err error) {
 func (serv *Server) Stop() {
 	serv.Lock()
 	serv.closing = true
-	serv.stop <- true
+	select {
+	case serv.stop <- true:
+	default:
+	}
 	serv.Unlock()
 	serv.listener.Close()
 }
-- 
2.43.0


From b61ddaedf25a1f34e1e3dc4d7ef2a5c1c03c792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 29/42] fix: a request that timed out while being written went
 out without its body

---
 net/client/connection/connection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e69ce0c..05209e1 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -286,14 +286,14 @@ Loop:
 			if req == nil {
 				req = conn.inFly.getNext(conn)
 			}
-			if !request.SetInFly(req) {
-				continue
-			}
 			requestHeader = nt.Request{
 				Msg:  request.Msg,
 				Id:   req.fakeId,
 				Body: request.Body,
 			}
+			if !request.SetInFly(req) {
+				continue
+			}
 			req = nil
 
 			err = w.WriteRequest(requestHeader)
-- 
2.43.0


From e04401028409007977464c9ef08b65b441571002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 30/42] fix: an unexpected response id crashed the client or
 took the place of a request

---
 net/client/connection/connection.go     |  6 +++--
 net/client/connection/request_holder.go | 30 +++++++++++++++----------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 05209e1..74e3043 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -252,6 +252,7 @@ func (conn *Connection) writeLoop() {
 	}()
 
 	var req *Request
+	var id uint32
 
 Loop:
 	for {
@@ -284,16 +285,17 @@ Loop:
 			err = w.Ping()
 		} else {
 			if req == nil {
-				req = conn.inFly.getNext(conn)
+				req, id = conn.inFly.getNext(conn)
 			}
 			requestHeader = nt.Request{
 				Msg:  request.Msg,
-				Id:   req.fakeId,
+				Id:   id,
 				Body: request.Body,
 			}
 			if !request.SetInFly(req) {
 				continue
 			}
+			conn.inFly.use(req, id)
 			req = nil
 
 			err = w.WriteRequest(requestHeader)
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index d569d42..12cb14b 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -1,7 +1,6 @@
 package connection
 
 import (
-	"log"
 	"sync"
 	"sync/atomic"
 
@@ -44,10 +43,10 @@ func (h *RequestHolder) init() {
 	h.reqs[0] = h.cur
 }
 
-func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
-	h.got++
+// getNext finds a free place, which becomes known to remove with use.
+func (h *RequestHolder) getNext(conn *Connection) (req *Request, id uint32) {
 	for {
-		id := atomic.AddUint32(&h.curId, 1)
+		id = atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
 		if h.big != big {
 			h.big = big
@@ -62,26 +61,34 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 			if req.fakeId != 0 {
 				continue
 			}
-			req.fakeId = uint32(id)
 			return
 		}
 	}
 }
 
+func (h *RequestHolder) use(req *Request, id uint32) {
+	atomic.AddUint64(&h.got, 1)
+	atomic.StoreUint32(&req.fakeId, id)
+}
+
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
-	var ok bool
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
-		if h.last, ok = h.reqs[big]; !ok {
-			h.Unlock()
-			log.Panicf("Map has no RequestRow for %d", fakeId)
+		row, ok := h.reqs[big]
+		h.Unlock()
+		if !ok {
+			return
 		}
+		h.last = row
 		h.lastBig = big
-		h.Unlock()
 	}
 
 	reqs := h.last
+	req := &reqs.reqs[fakeId&rowMask]
+	if fakeId == 0 || atomic.LoadUint32(&req.fakeId) != fakeId {
+		return
+	}
 	reqs.freed++
 	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
 	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
@@ -90,10 +97,9 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 		h.Unlock()
 	}
 
-	req := &reqs.reqs[fakeId&rowMask]
 	req.fakeId = 0
 	ireq = req.Request
-	h.put++
+	atomic.AddUint64(&h.put, 1)
 	return
 }
 
-- 
2.43.0


From fb0ce5da6659ef8ff8a6ca0b7f36d096cbcf20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 31/42] fix: the dial limit was ignored and the handshake could
 take forever

---
 net/client/connection/connection.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 74e3043..952ce0a 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -1,6 +1,7 @@
 package connection
 
 import (
+	"errors"
 	"io"
 	"log"
 	"net"
@@ -101,7 +102,12 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 const DialTimeout = 5 * time.Second
 
 func (conn *Connection) Loop() {
-	dialer := net.Dialer{Timeout: DialTimeout}
+	limit := conn.DialTimeout
+	if limit <= 0 {
+		limit = DialTimeout
+	}
+	deadline := time.Now().Add(limit)
+	dialer := net.Dialer{Deadline: deadline}
 	conn.State = CsDialing
 	if netconn, err := dialer.Dial(conn.Network, conn.Address); err != nil {
 		conn.ConnErr <- Error{conn, Dial, err}
@@ -110,11 +116,15 @@ func (conn *Connection) Loop() {
 		conn.conn = netconn.(nt.NetConn)
 		conn.reader.Init(conn.conn, conn.ReadTimeout, conn.RetCodeType)
 		conn.writer.Init(conn.conn, conn.WriteTimeout, conn.RetCodeType)
+		timer := time.AfterFunc(time.Until(deadline), func() { netconn.Close() })
 		if err = conn.writer.Ping(); err == nil {
 			if err = conn.writer.Flush(); err == nil {
 				err = conn.reader.ReadPing()
 			}
 		}
+		if !timer.Stop() && err == nil {
+			err = errors.New("Handshake timed out")
+		}
 		if err != nil {
 			conn.conn.Close()
 			conn.ConnErr <- Error{conn, Dial, err}
-- 
2.43.0


From 5841575cada27f66fcc11ec1de7ac562eb67bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 32/42] fix: a connection crashed when the queue of its stopped
 client was closed

---
 net/client/connection/connection.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 952ce0a..ef687b5 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -267,7 +267,7 @@ func (conn *Connection) writeLoop() {
 Loop:
 	for {
 		var request *iproto.Request
-		var ping bool
+		var ping, ok bool
 		var requestHeader nt.Request
 
 		if conn.Stopped() {
@@ -276,7 +276,7 @@ Loop:
 		}
 
 		select {
-		case request = <-conn.ReceiveChan():
+		case request, ok = <-conn.ReceiveChan():
 		default:
 			if err = w.Flush(); err != nil {
 				break Loop
@@ -284,13 +284,18 @@ Loop:
 			select {
 			case <-pingTicker.C:
 				ping = true
-			case request = <-conn.ReceiveChan():
+			case request, ok = <-conn.ReceiveChan():
 			case <-conn.ExitChan():
 				conn.shutdown = true
 				break Loop
 			}
 		}
 
+		if !ping && !ok {
+			conn.shutdown = true
+			break Loop
+		}
+
 		if ping {
 			err = w.Ping()
 		} else {
-- 
2.43.0


From be47a9df02c764fb61d63ab6f39ba324ad19b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:33 +0000
Subject: [PATCH 33/42] fix: requests of a connection closed by the server
 waited for the next write

---
 net/client/connection/connection.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index ef687b5..9f118d6 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -90,6 +90,7 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 		CConf: conf,
 		Id:    id,
 
+		closeWrite: make(chan bool),
 		loopNotify: make(chan notifyAction, 2),
 		State:      CsNew,
 	}
@@ -177,6 +178,7 @@ func (conn *Connection) controlLoop() {
 			if conn.State&CsWriteClosed == 0 {
 				conn.conn.CloseWrite()
 			}
+			close(conn.closeWrite)
 		case readEmpty:
 		}
 
@@ -275,6 +277,12 @@ Loop:
 			break Loop
 		}
 
+		select {
+		case <-conn.closeWrite:
+			break Loop
+		default:
+		}
+
 		select {
 		case request, ok = <-conn.ReceiveChan():
 		default:
@@ -288,6 +296,8 @@ Loop:
 			case <-conn.ExitChan():
 				conn.shutdown = true
 				break Loop
+			case <-conn.closeWrite:
+				break Loop
 			}
 		}
 
-- 
2.43.0


From b533d50f610cd71a9532854b5b25415f14217da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:34 +0000
Subject: [PATCH 34/42] fix: requests of a connection that failed to write
 waited for its answers

---
 net/client/connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 9f118d6..c2229d9 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -259,6 +259,10 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err != nil {
+			/* nothing more to expect */
+			conn.conn.CloseRead()
+		}
 		conn.notifyLoop(writeClosed)
 		conn.ConnErr <- Error{conn, Write, err}
 	}()
-- 
2.43.0


From 95ac06291cd833ef4213162f90d5c54a4728f22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:04 +0000
Subject: [PATCH 35/42] fix: the client miscounted its connections and left
 some behind

---
 net/client/server.go | 103 +++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 44 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index eb5cd3f..60bb14c 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -30,17 +30,25 @@ type action struct {
 	timeout time.Duration
 }
 
+// child is a connection as Server sees it.
+// Stopped and broken connections are not counted, but they are kept till both their sides are closed.
+type child struct {
+	*connection.Connection
+	connected bool
+	dying     bool
+	closed    int
+}
+
 type Server struct {
 	conf
 
 	iproto.SimplePoint
 
-	connections map[uint64]*connection.Connection
+	connections map[uint64]*child
 	curId       uint64
 	needConns   int
 	dialing     int
 	established int
-	dying       int
 
 	connErr     chan connection.Error
 	actions     chan action
@@ -76,7 +84,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 		},
 		connErr:     make(chan connection.Error, 4),
 		actions:     make(chan action, 1),
-		connections: make(map[uint64]*connection.Connection),
+		connections: make(map[uint64]*child),
 	}
 
 	serv.SimplePoint.Init(serv)
@@ -90,29 +98,34 @@ func (serv *Server) fixConnections() {
 	for ; needConn > 0; needConn-- {
 		serv.curId++
 		conn := connection.NewConnection(&serv.CConf, serv.curId)
-		serv.connections[serv.curId] = conn
+		serv.connections[serv.curId] = &child{Connection: conn}
 		serv.RunChild(conn)
 		serv.dialing++
 	}
-	if needConn < 0 {
-		for _, conn := range serv.connections {
-			switch conn.State {
-			case connection.CsDialing:
-				conn.Stop()
-				serv.dialing--
-				needConn++
-			case connection.CsConnected:
-				conn.Stop()
-				serv.established--
-				needConn++
-			}
-			if needConn == 0 {
-				break
-			}
+	for _, conn := range serv.connections {
+		if needConn >= 0 {
+			break
+		}
+		if !conn.dying {
+			conn.Stop()
+			serv.discount(conn)
+			needConn++
 		}
 	}
 }
 
+func (serv *Server) discount(conn *child) {
+	if conn.dying {
+		return
+	}
+	conn.dying = true
+	if conn.connected {
+		serv.established--
+	} else {
+		serv.dialing--
+	}
+}
+
 func (serv *Server) Name() string {
 	return serv.conf.Name
 }
@@ -126,6 +139,7 @@ func (serv *Server) Loop() {
 		case <-serv.ExitChan():
 			serv.needConns = 0
 			serv.exiting = true
+			serv.fixConnections()
 		case connErr := <-serv.connErr:
 			serv.onConnError(connErr)
 		case action := <-serv.actions:
@@ -134,7 +148,7 @@ func (serv *Server) Loop() {
 			serv.fixConnections()
 		}
 
-		if serv.exiting && serv.established+serv.dialing == 0 {
+		if serv.exiting && len(serv.connections) == 0 {
 			serv.reconnecter.Stop()
 			break
 		}
@@ -150,42 +164,43 @@ func (serv *Server) onAction(action action) {
 }
 
 func (serv *Server) onConnError(connErr connection.Error) {
-	conn := connErr.Conn
+	conn, ok := serv.connections[connErr.Conn.Id]
+	if !ok {
+		log.Panicf("Unknown connection failed %+v", connErr.Conn)
+	}
 	switch connErr.When {
 	case connection.Dial:
-		serv.dialing--
 		if connErr.Error == nil {
 			log.Printf("%s: established connection %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
-			serv.established++
-		} else {
-			now := time.Now()
-			if now.Sub(serv.lastErrTime) > 2*time.Second {
-				serv.lastErrTime = now
-				log.Printf("%s: could not connect to %s", serv.conf.Name, serv.conf.Address)
-			}
-			if _, ok := serv.connections[conn.Id]; !ok {
-				log.Panicf("Unknown connection failed %+v", conn)
-			}
-			delete(serv.connections, conn.Id)
-			if serv.established == 0 && serv.Standalone() {
-				serv.AllDisconnected()
+			conn.connected = true
+			if !conn.dying {
+				serv.dialing--
+				serv.established++
 			}
+			return
+		}
+		now := time.Now()
+		if now.Sub(serv.lastErrTime) > 2*time.Second {
+			serv.lastErrTime = now
+			log.Printf("%s: could not connect to %s", serv.conf.Name, serv.conf.Address)
 		}
+		serv.discount(conn)
+		delete(serv.connections, conn.Id)
 	case connection.Write:
 		log.Printf("%s: write side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
-		serv.established--
-		serv.dying++
-		if serv.established == 0 && serv.Standalone() {
-			serv.AllDisconnected()
-		}
+		serv.discount(conn)
+		conn.closed++
 	case connection.Read:
 		log.Printf("%s: read side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
-		serv.dying--
-		if _, ok := serv.connections[conn.Id]; !ok {
-			log.Panicf("Unknown connection failed %+v", conn)
-		}
+		serv.discount(conn)
+		conn.closed++
+	}
+	if conn.closed == 2 {
 		delete(serv.connections, conn.Id)
 	}
+	if serv.established == 0 && serv.Standalone() && !serv.exiting {
+		serv.AllDisconnected()
+	}
 }
 
 func (serv *Server) SetConnections(n int) {
-- 
2.43.0


From 31b95140c0af706e445b4037841a6f9d92699b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:05 +0000
Subject: [PATCH 36/42] fix: setting the number of connections of a stopped
 client revived or blocked it

---
 net/client/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/net/client/server.go b/net/client/server.go
index 60bb14c..eb0b6ce 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -52,6 +52,7 @@ type Server struct {
 
 	connErr     chan connection.Error
 	actions     chan action
+	finished    chan bool
 	exiting     bool
 	lastErrTime time.Time
 
@@ -84,6 +85,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 		},
 		connErr:     make(chan connection.Error, 4),
 		actions:     make(chan action, 1),
+		finished:    make(chan bool),
 		connections: make(map[uint64]*child),
 	}
 
@@ -132,6 +134,7 @@ func (serv *Server) Name() string {
 
 func (serv *Server) Loop() {
 	serv.needConns = serv.Connections
+	defer close(serv.finished)
 	serv.reconnecter = time.NewTicker(time.Second / 5)
 	serv.fixConnections()
 	for {
@@ -156,6 +159,9 @@ func (serv *Server) Loop() {
 }
 
 func (serv *Server) onAction(action action) {
+	if serv.exiting {
+		return
+	}
 	switch action.kind {
 	case setServ:
 		serv.Connections = action.servs
@@ -204,7 +210,10 @@ func (serv *Server) onConnError(connErr connection.Error) {
 }
 
 func (serv *Server) SetConnections(n int) {
-	serv.actions <- action{kind: setServ, servs: n}
+	select {
+	case serv.actions <- action{kind: setServ, servs: n}:
+	case <-serv.finished:
+	}
 }
 
 func (serv *Server) AllDisconnected() {
-- 
2.43.0


From b62404c854af7a8d26af42faf2e729f65270ad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 37/42] fix: the length in a frame header alone made the reader
 allocate up to 4 GB

---
 net/slice_reader.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 8e768a5..12803c4 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -14,6 +14,16 @@ type SliceReader struct {
 	dChecked bool
 }
 
+const maxAhead = 1024 * 1024
+
+// ahead limits memory allocated for n bytes while only have of them arrived.
+func ahead(n, have int) int {
+	if n-have > have+maxAhead {
+		return 2*have + maxAhead
+	}
+	return n
+}
+
 func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	if len(sl.buf) > n {
 		res = sl.buf[:n:n]
@@ -23,7 +33,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	var buf []byte
 	if cap(sl.buf) < n {
 		if n > sl.size {
-			buf = make([]byte, len(sl.buf), n)
+			buf = make([]byte, len(sl.buf), ahead(n, len(sl.buf)))
 		} else {
 			buf = make([]byte, len(sl.buf), sl.size)
 		}
@@ -34,6 +44,11 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	l := len(buf)
 	for l < n && err == nil {
 		var nn int
+		if l == cap(buf) {
+			tmp := make([]byte, l, ahead(n, l))
+			copy(tmp, buf[:l])
+			buf = tmp
+		}
 		nn, err = sl.read(buf[l:cap(buf)])
 		l += nn
 	}
-- 
2.43.0


From 80aa5b0f5f3d283eb297584ee48ea19f501e6b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:55 +0000
Subject: [PATCH 38/42] fix: a stopped connection went on reading what arrived
 after its read side was closed

---
 net/server/connection.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index d9ca401..760abb1 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -35,7 +35,8 @@ type Connection struct {
 	out        chan nt.Response
 	bufRealCap int
 
-	state ConnState
+	state    ConnState
+	stopping bool
 
 	inFly map[uint32]*iproto.Request
 	sync.Mutex
@@ -66,7 +67,12 @@ func (conn *Connection) Run() {
 	go conn.writeLoop()
 }
 
+// Stop makes the connection read no more requests. Closing the read side is
+// not enough: what arrives afterwards may still be read from the socket.
 func (conn *Connection) Stop() {
+	conn.Lock()
+	conn.stopping = true
+	conn.Unlock()
 	conn.conn.CloseRead()
 }
 
@@ -206,7 +212,7 @@ func (conn *Connection) readLoop() {
 			Responder: conn,
 		}
 		conn.Lock()
-		if conn.state&CsWriteClosed != 0 {
+		if conn.stopping || conn.state&CsWriteClosed != 0 {
 			conn.Unlock()
 			break
 		}
-- 
2.43.0


From 5a4f38cf18743e28d7960658837689edc86d7857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:53 +0000
Subject: [PATCH 39/42] fix: a connection that failed to write stayed half open

---
 net/client/connection/connection.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index c2229d9..e900dd3 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -155,9 +155,7 @@ func (conn *Connection) RunWithConn(netconn io.ReadWriteCloser) {
 }
 
 func (conn *Connection) controlLoopExit() {
-	if conn.State&CsWriteClosed == 0 {
-		conn.conn.CloseWrite()
-	}
+	conn.conn.Close()
 	conn.ConnErr <- Error{conn, Read, conn.readErr}
 	conn.flushInFly()
 }
-- 
2.43.0


From 4cbde38d8a83014547b425344470dadc3dfed790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:13 +0000
Subject: [PATCH 40/42] fix: a struct with parts of varying size was encoded
 with a wrong size before it

The unknown size (-1) of a field was added to that of its struct, so a
size() tag or a tuple field wrote a number too small, which the reader of
this package expected likewise. A cnt(i8) was counted as two bytes.
---
 marshal/reader_reflect.go | 6 ++++--
 marshal/writer_reflect.go | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb770f2..b108729 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1073,7 +1073,7 @@ Fields:
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fr.CntRd = (*Reader).IntUint8
 				case "i16":
@@ -1113,7 +1113,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fr.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fr.Sz
 		}
 
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 9b6cad5..4f02024 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -768,7 +768,7 @@ Fields:
 					fw.CntWr = (*Writer).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fw.CntWr = (*Writer).IntUint8
 				case "i16":
@@ -808,7 +808,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fw.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fw.Sz
 		}
 
-- 
2.43.0


From b2dc8c4918371f4da8e466acbd16f166e2502f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:12 +0000
Subject: [PATCH 41/42] fix: timers with delays beyond the range of Epoch fired
 at once

The deadline overflowed and lay in the past: a time-out of math.MaxInt64
expired the request immediately.
---
 epoch.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epoch.go b/epoch.go
index 06a344a..18a77c0 100644
--- a/epoch.go
+++ b/epoch.go
@@ -1,6 +1,7 @@
 package iproto
 
 import (
+	"math"
 	"time"
 )
 
@@ -30,7 +31,12 @@ func (e Epoch) Sub(o Epoch) time.Duration {
 }
 
 func (e Epoch) Add(dur time.Duration) Epoch {
-	return e + Epoch(dur)
+	sum := e + Epoch(dur)
+	if dur > 0 && sum < e {
+		// practically never, but not in the past
+		return math.MaxInt64
+	}
+	return sum
 }
 
 func (e Epoch) SubTime(tm time.Time) time.Duration {
-- 
2.43.0


From e228fe9d1db2816d360cea8044c6c2e800d532e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:35 +0000
Subject: [PATCH 42/42] fix: ids beginning again forgot requests which were
 still in fly

After 2^32 requests on a connection getNext replaced rows that still
held requests in fly: their ids were used for other requests, and they
were neither answered nor failed any more. Keep a row until all its
places are used and freed, skip places still in use, and free a place
only after its request is answered.
---
 net/client/connection/connection.go     |  7 ++-
 net/client/connection/request_holder.go | 69 ++++++++++++++++---------
 2 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e900dd3..7e3fbad 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -226,8 +226,11 @@ func (conn *Connection) readLoop() {
 			continue
 		}
 
-		if ireq := conn.inFly.remove(res.Id); ireq != nil {
-			ireq.RespondBytes(res.Code, res.Body)
+		if req := conn.inFly.get(res.Id); req != nil {
+			if ireq := req.Request; ireq != nil {
+				ireq.RespondBytes(res.Code, res.Body)
+			}
+			conn.inFly.free(req)
 		}
 		if conn.State&CsWriteClosed != 0 && conn.inFly.put >= conn.inFly.got {
 			conn.notifyLoop(readEmpty)
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index 12cb14b..904c6c2 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -19,8 +19,8 @@ const (
 )
 
 type RequestRow struct {
-	freed uint32
-	reqs  [rowN]Request
+	left int32 // places that are still to be used or to be freed
+	reqs [rowN]Request
 }
 
 type reqMap map[uint32]*RequestRow
@@ -37,10 +37,35 @@ type RequestHolder struct {
 }
 
 func (h *RequestHolder) init() {
-	h.cur = &RequestRow{}
-	h.last = h.cur
 	h.reqs = make(reqMap)
-	h.reqs[0] = h.cur
+	h.cur = h.row(0)
+	h.last = h.cur
+}
+
+// row returns the row to use next. It is an old one, if ids begin again and some of its requests are still in fly.
+func (h *RequestHolder) row(big uint32) (row *RequestRow) {
+	h.Lock()
+	defer h.Unlock()
+	if row = h.reqs[big]; row == nil {
+		row = &RequestRow{}
+		h.reqs[big] = row
+	}
+	if big == 0 || big == uint32(iproto.PingRequestId>>rowLogN) {
+		atomic.AddInt32(&row.left, rowN1)
+	} else {
+		atomic.AddInt32(&row.left, rowN)
+	}
+	return
+}
+
+func (h *RequestHolder) release(row *RequestRow, big uint32) {
+	if atomic.AddInt32(&row.left, -1) == 0 {
+		h.Lock()
+		if atomic.LoadInt32(&row.left) == 0 {
+			delete(h.reqs, big)
+		}
+		h.Unlock()
+	}
 }
 
 // getNext finds a free place, which becomes known to remove with use.
@@ -50,15 +75,13 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request, id uint32) {
 		big := id >> rowLogN
 		if h.big != big {
 			h.big = big
-			h.cur = &RequestRow{}
-			h.Lock()
-			h.reqs[big] = h.cur
-			h.Unlock()
+			h.cur = h.row(big)
 		}
 		reqs := h.cur
 		if id != 0 && id != uint32(iproto.PingRequestId) {
 			req = &reqs.reqs[id&rowMask]
-			if req.fakeId != 0 {
+			if atomic.LoadUint32(&req.fakeId) != 0 {
+				h.release(reqs, big)
 				continue
 			}
 			return
@@ -71,36 +94,32 @@ func (h *RequestHolder) use(req *Request, id uint32) {
 	atomic.StoreUint32(&req.fakeId, id)
 }
 
-func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
+// get finds a request by its id. It should be freed when it is answered.
+func (h *RequestHolder) get(fakeId uint32) *Request {
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
 		row, ok := h.reqs[big]
 		h.Unlock()
 		if !ok {
-			return
+			return nil
 		}
 		h.last = row
 		h.lastBig = big
 	}
 
-	reqs := h.last
-	req := &reqs.reqs[fakeId&rowMask]
+	req := &h.last.reqs[fakeId&rowMask]
 	if fakeId == 0 || atomic.LoadUint32(&req.fakeId) != fakeId {
-		return
-	}
-	reqs.freed++
-	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
-	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
-		h.Lock()
-		delete(h.reqs, big)
-		h.Unlock()
+		return nil
 	}
+	return req
+}
 
-	req.fakeId = 0
-	ireq = req.Request
+// free makes the place of a request just got usable again.
+func (h *RequestHolder) free(req *Request) {
+	atomic.StoreUint32(&req.fakeId, 0)
 	atomic.AddUint64(&h.put, 1)
-	return
+	h.release(h.last, h.lastBig)
 }
 
 func (h *RequestHolder) getAll() (reqs []*Request) {
-- 
2.43.0

