BUGS = []
def bug(id, prop, needs, breaks, *edits, **kw):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, **kw))

bug("answer-unlocked", "C01", "two goroutines answering the same request (handler and time-out or cancel) within a few instructions",
    "the state of a request is checked before its lock is taken, so that two answers can pass the check",
    ("request.go", """	r.Lock()
	if r.state == RsInFly {
		r.chainResponse(code, body)
	}
	r.Unlock()
""", """	if r.State() != RsInFly {
		return
	}
	r.Lock()
	r.chainResponse(code, body)
	r.Unlock()
"""))
bug("resend-keeps-chain", "C01", "a resend hook that puts a failed request back, and a bookmark chained after it",
    "the response object of the first attempt is delivered by the unwinding that should have stopped at the resend",
    ("request.go", """		chain.Respond(res)
		if r.state != RsPrepared {
			return
		}
		chain = chain.unchain()
""", """		chain.Respond(res)
		chain = chain.unchain()
		if r.state != RsPrepared && r.state != RsInFly {
			return
		}
"""))
bug("expired-worker-loses-answer", "C02", "a request that times out while its handler runs",
    "the request is not put back in flight, so that the handler's own answer is thrown away",
    ("request.go", """		cm.Request.ResetToPending()
		cm.Request.SetInFly(nil)
""", """		cm.Request.ResetToPending()
"""))
bug("timer-sort4", "C03", "four timers under one node of the heap whose deadlines arrive in a particular order",
    "the last step of the insertion sort is dropped: a node ends up above an earlier one and the earlier one fires late",
    ("custom_timer.go", """		if e2 < e1 {
			down[1], down[2] = down[2], down[1]
			e2, e1 = e1, e2
			if e1 < e0 {
				down[0], down[1] = down[1], down[0]
			}
		}
	}
	h.putUnder(down[2], down[3])
""", """		if e2 < e1 {
			down[1], down[2] = down[2], down[1]
		}
	}
	h.putUnder(down[2], down[3])
"""))
bug("timer-stop-index", "C03", "a timer stopped at the moment it fires while another timer is armed and takes its slot",
    "the slot index is read before the heap is locked, so that stopping a fired timer removes another one",
    ("custom_timer.go", """		heap := getHeap(h)
		heap.m.Lock()
		if i := t.i; i > 0 {
			heap.remove(i)
		}
		heap.m.Unlock()
""", """		heap := getHeap(h)
		if i := t.i; i > 0 {
			heap.m.Lock()
			heap.remove(i)
			heap.m.Unlock()
		}
"""))
bug("context-slots-reused", "C04", "more than 16 requests of one context outstanding when it is cancelled",
    "the bookmarks of a context are recycled after 16 requests although the first may still be in use",
    ("context.go", """		m := &c.cancelBuf[0]
		m.c = c
		c.cancelBuf = c.cancelBuf[1:]
""", """		m := &c.cancelBuf[int(c.reqId)%len(c.cancelBuf)]
		m.c = c
"""))
bug("context-register-first", "C04", "a context cancelled between the two steps of creating a request",
    "a request is registered with its context before it is tied to its bookmark: a cancel in between does not see it",
    ("context.go", """		r.ChainBookmark(m)
		c.AddCanceler(m)
""", """		c.AddCanceler(m)
		r.ChainBookmark(m)
"""))
bug("waitall-third-child", "C05", "three or more live children, the last to finish being one beyond the two inline slots",
    "the waiters are not woken when the last child is removed from the overflow map",
    ("context.go", """	if i == len(c.cancels) {
		delete(c.cancelsm, cn)
	}
""", """	if i == len(c.cancels) {
		delete(c.cancelsm, cn)
		c.m.Unlock()
		return
	}
"""))
bug("multi-each-race", "C06", "an answer arriving while the collection is switched to streaming",
    "the second check under the lock is dropped: an answer that waited for the lock is buffered after the buffer was streamed",
    ("wait_group.go", """		w.m.Lock()
		if w.ch == nil {
			w.responses = append(w.responses, r)
			w.requests[r.Id] = nil
			if w.c++; w.c == w.r && w.kind&mrWait != 0 {
				w.timer.Stop()
				w.w.Signal()
			}
			w.m.Unlock()
			return
		}
		w.m.Unlock()
	}
""", """		w.m.Lock()
		w.responses = append(w.responses, r)
		w.requests[r.Id] = nil
		if w.c++; w.c == w.r && w.kind&mrWait != 0 {
			w.timer.Stop()
			w.w.Signal()
		}
		w.m.Unlock()
		return
	}
"""))
bug("multi-close-twice", "C06", "the last two answers of a streamed multi-request arriving at the same moment",
    "whether all answers are in is read again after counting one: two answers can both find themselves the last",
    ("wait_group.go", """	if v := atomic.AddUint32(&w.c, 1); v == w.r {
""", """	atomic.AddUint32(&w.c, 1)
	if atomic.LoadUint32(&w.c) == w.r {
"""))
bug("pool-leaks-slot", "C07", "a request cancelled after the pool took it from its queue and before a worker was free",
    "the worker slot of a request that turns out to be answered is not given back",
    ("parallel_service.go", """			go serv.serv(ctx)
		} else {
			serv.sema <- struct{}{}
		}
""", """			go serv.serv(ctx)
		}
"""))
bug("queue-row-older", "C08", "several senders at the boundary of two rows of the overflow ring",
    "a sender that was given a place in the row before the newest one writes to the newest",
    ("buffer.go", """	row := b.tRow
	if row.id != big {
""", """	row := b.tRow
	if row.id < big {
"""))
bug("queue-overtake", "C08", "a backlog above the channel capacity that is being drained while a sender goes on",
    "a sender uses the channel as soon as it has room although older requests wait in the ring",
    ("buffer.go", "	if b.tail == b.head {\n", "	if b.tail-b.head < bufRow {\n"))
bug("balancer-stops-first", "C10", "a balancer with two children or more that is stopped",
    "stopping a balancer stops only its first child; the others go on taking requests until the queue is closed",
    ("balancer.go", """	for _, ch := range b.children {
		ch.Stop()
	}
""", """	for i, ch := range b.children {
		if i == 0 {
			ch.Stop()
		}
	}
"""))
bug("stat-late-stamp", "C11", "an answer that comes before the wrapped service's Send returns",
    "the start time is taken after the request was forwarded: early answers are reported with a wrong duration",
    ("stat.go", """	if r.ChainBookmark(&statBookmark{f: ss.F, e: NowEpoch()}) {
		ss.Service.Send(r)
	}
""", """	sm := &statBookmark{f: ss.F}
	if r.ChainBookmark(sm) {
		ss.Service.Send(r)
		sm.e = NowEpoch()
	}
"""))
bug("writer-published-early", "C12", "two goroutines that use a new type for the first time at the same moment",
    "the new registry is published before the writer of the new type is complete",
    ("marshal/writer_reflect.go", """			wr = _writer(rt)
			ws = wss
""", """			ws = wss
			wr = _writer(rt)
"""))
bug("body-capacity", "C12", "two bodies encoded one after the other by one goroutine, the first appended to",
    "an encoded body keeps the capacity of the pooled buffer, so that appending to it overwrites the next body",
    ("marshal/writer.go", "	res = w.buf[:l:l]\n", "	res = w.buf[:l]\n"))
bug("write-body-first", "N01", "a body between a quarter and the whole of the write buffer while more than a quarter is buffered",
    "the buffer is not flushed before the body is written past it, if the body would still have fitted",
    ("net/buf_writer.go", """	if w.wr+bl > l || (bl > l/4 && w.wr > l/4) {
		if err = w.Flush(); err != nil {
			return err
		}
		if bl > len(w.buf)/4 {
			return w.write(body)
		}
	}
""", """	if w.wr+bl > l {
		if err = w.Flush(); err != nil {
			return err
		}
	}
	if l = len(w.buf); bl > l || (bl > l/4 && w.wr > l/2) {
		return w.write(body)
	}
"""))
bug("read-limit-once", "N12", "a peer that dies in the middle of a frame of which a part was read together with the frame before",
    "the read limit is armed only when nothing is buffered",
    ("net/slice_reader.go", "	if sl.timeout > 0 {\n		if !sl.dChecked {", "	if sl.timeout > 0 && len(sl.buf) == 0 {\n		if !sl.dChecked {"))
bug("row-freed-early", "N02", "more than 256 requests on a connection, the answer to one of the first 255 coming last and after answers of another row",
    "the first row of ids is dropped when all but one of its requests are answered",
    ("net/client/connection/request_holder.go", "	rowMask, rowN1 = rowN - 1, rowN - 1\n", "	rowMask, rowN1 = rowN - 1, rowN - 2\n"))
bug("server-request-ring", "N03", "more than 16 requests of a connection outstanding",
    "the server reuses its request structures after 16 requests",
    ("net/server/connection.go", """		if bufn++; bufn == len(buf) {
			buf = nil
			bufn = 0
		}
""", """		if bufn++; bufn == len(buf) {
			bufn = 0
		}
"""))
bug("flush-current-row", "N04", "a connection that breaks with requests of more than one row of 256 ids outstanding",
    "only the requests of the current row are failed",
    ("net/client/connection/request_holder.go", """	for _, row := range h.reqs {
		for j := range row.reqs {
""", """	for big, row := range h.reqs {
		if big != h.big {
			continue
		}
		for j := range row.reqs {
"""))
bug("stop-ignores-drained", "N06", "a client stopped with requests outstanding, whose server answers them all but does not close",
    "the end of the outstanding requests is not noticed after the write side was closed",
    ("net/client/connection/connection.go", "conn.inFly.put >= conn.inFly.got {", "conn.inFly.put > conn.inFly.got {"))
bug("overflow-shrink", "N07", "a backlog of responses above the output channel that shrinks to a sixteenth",
    "the shrunk overflow buffer is filled from the front of the old one",
    ("net/server/connection.go", """		hasOne = true
		conn.buf = conn.buf[n:]
		if len(conn.buf) == 0 {
""", """		hasOne = true
		old := conn.buf
		conn.buf = conn.buf[n:]
		if len(conn.buf) == 0 {
"""),
    ("net/server/connection.go", "			copy(tmp, conn.buf)\n", "			copy(tmp, old)\n"))
bug("overflow-blocks", "N08", "more responses queued for a slow client than the output channel holds",
    "the writer moves the overflow to its own channel with a blocking send, holding the lock every handler needs to answer",
    ("net/server/connection.go", """		select {
		case conn.out <- conn.buf[n]:
			conn.buf[n] = nt.Response{}
			n++
		default:
			hasOne = true
			break Loop
		}
""", """		if conn.stopping {
			hasOne = true
			break Loop
		}
		conn.out <- conn.buf[n]
		conn.buf[n] = nt.Response{}
		n++
"""))
bug("no-cancel-after-eof", "N09", "a client that closes its sending half and is then lost with requests outstanding",
    "the requests are cancelled only if the read side is still open when writing fails",
    ("net/server/connection.go", """			conn.cancelInFly()
			if conn.state&CsReadClosed == 0 {
				conn.conn.CloseRead()
			}
""", """			if conn.state&CsReadClosed == 0 {
				conn.cancelInFly()
				conn.conn.CloseRead()
			}
"""))
bug("accept-while-closing", "N10", "a connection accepted at the moment the server is stopped",
    "a connection accepted after the stop is served like any other and nobody closes it",
    ("net/server/server.go", """		serv.Lock()
		if serv.closing {
			serv.Unlock()
			conn.Close()
			break
		}
		serv.currentId++
""", """		serv.Lock()
		serv.currentId++
"""))
bug("short-code-length", "N11", "a response whose length is too short for its return code",
    "the length is not checked before the size of the return code is subtracted",
    ("net/header.go", """			if body_len < 4 {
				code = iproto.RcProtocolError
			} else {
				var cd []byte
				body_len -= 4
				if cd, err = h.r.Read(4); err != nil {
					return
				}
				code = iproto.RetCode(bin_le.Uint32(cd))
			}
""", """			var cd []byte
			body_len -= 4
			if cd, err = h.r.Read(4); err != nil {
				return
			}
			code = iproto.RetCode(bin_le.Uint32(cd))
"""))
bug("registry-twice", "N13", "two goroutines asking for a new address at the same moment",
    "the second look-up under the lock is dropped",
    ("net/client/auto.go", """		a.Lock()
		if serv = a.servers[addr]; serv == nil {
			conf := *a.Config
			conf.Address = addr
			serv = conf.NewServer()
			iproto.Run(serv)
			newServs := make(map[string]*Server, len(a.servers))
			newServs[addr] = serv
			for a, s := range a.servers {
				newServs[a] = s
			}
			a.servers = newServs
		}
		a.Unlock()
""", """		conf := *a.Config
		conf.Address = addr
		serv = conf.NewServer()
		iproto.Run(serv)
		a.Lock()
		newServs := make(map[string]*Server, len(a.servers)+1)
		for a, s := range a.servers {
			newServs[a] = s
		}
		newServs[addr] = serv
		a.servers = newServs
		a.Unlock()
"""))
bug("balancer-child-late", "C10", "a child added while the loop of the balancer starts",
    "the loop runs the children it saw before it took the lock: one added in between is never run",
    ("balancer.go", """	b.looping = true
	for _, ch := range b.children {
		b.RunChild(ch)
	}
""", """	b.looping = true
	for _, ch := range children {
		b.RunChild(ch)
	}
"""),
    ("balancer.go", """func (b *BalancerPoint) Loop() {
""", """func (b *BalancerPoint) Loop() {
	children := b.children
"""))

bug("conns-ticker-idle", "N05", "the number of connections changed while all the configured ones are established",
    "the reconnecting ticker is stopped when the client has all its connections and only started again by a connection that fails: a new number set meanwhile is not acted upon",
    ("net/client/server.go", """			serv.onConnError(connErr)
""", """			serv.onConnError(connErr)
			serv.reconnecter.Reset(time.Second / 5)
"""),
    ("net/client/server.go", """		case <-serv.reconnecter.C:
			serv.fixConnections()
""", """		case <-serv.reconnecter.C:
			if serv.fixConnections(); serv.established == serv.needConns {
				serv.reconnecter.Stop()
			}
"""))
bug("stat-pooled", "C11", "two requests of a wrapped service: one is sent while the other's answer is passing through its bookmark",
    "bookmarks are pooled and given back before they are unchained: a request sent in between gets a bookmark that is then cut off, or cut from the wrong request",
    ("stat.go", """import "time"
""", """import "time"

var statBookmarks = make(chan *statBookmark, 64)
"""),
    ("stat.go", """	if r.ChainBookmark(&statBookmark{f: ss.F, e: NowEpoch()}) {
""", """	var sm *statBookmark
	select {
	case sm = <-statBookmarks:
	default:
		sm = new(statBookmark)
	}
	sm.f, sm.e = ss.F, NowEpoch()
	if r.ChainBookmark(sm) {
"""),
    ("stat.go", """	sm.f(sm.Request, sm.e.Elapsed())
""", """	sm.f(sm.Request, sm.e.Elapsed())
	select {
	case statBookmarks <- sm:
	default:
	}
"""))
bug("shared-responses", "C06", "more than 32 requests made by one generator, with the first answers still held",
    "the array of responses is not replaced when it is used up: answers that arrived before are overwritten",
    ("generator.go", """		gen.req = nil
		gen.res = nil
""", """		gen.req = nil
"""), ("generator.go", """		gen.req = &[rrsize]Request{}
		gen.res = &[rrsize]Response{}
""", """		gen.req = &[rrsize]Request{}
		if gen.res == nil {
			gen.res = &[rrsize]Response{}
		}
"""))
bug("forward-async", "N03", "more than eight requests outstanding on a connection",
    "a connection with many requests outstanding hands further ones to the service from goroutines: their order is lost",
    ("net/server/connection.go", """		conn.EndPoint.Send(request)
""", """		if len(conn.inFly) > 8 {
			go conn.EndPoint.Send(request)
			continue
		}
		conn.EndPoint.Send(request)
"""))
bug("cancel-slot-taken", "C04", "two children registered, the first finishes, a third is registered, then the context is cancelled",
    "the free slot is looked up by the number of taken ones: a live child is overwritten and not cancelled",
    ("context.go", """		var i int
		for i = 0; i < len(c.cancels); i++ {
			if c.cancels[i] == nil {
				c.cancels[i] = cn
				c.cancelsn++
				break
			}
		}
		if i == len(c.cancels) {
""", """		if c.cancelsn < len(c.cancels) {
			c.cancels[c.cancelsn] = cn
			c.cancelsn++
		} else {
"""))
bug("pool-stop-drops-taken", "C09", "a stop while every worker is busy and the loop holds the next request",
    "the request the loop had taken from the queue is not answered",
    ("parallel_service.go", """				case <-serv.sema:
				case <-serv.ExitChan():
					req.ShutDown()
					break Loop
""", """				case <-serv.sema:
				case <-serv.ExitChan():
					break Loop
"""))
bug("shorter-limit-wins", "C02", "a request with a limit of its own sent to a service whose default limit is shorter",
    "a later, shorter limit replaces the first one",
    ("request.go", """	if timeout > 0 && !r.timerSet {
		r.timerSet = true
		r.timer.After(timeout, r)
	}
}

func (r *Request) Timer""", """	if timeout > 0 && (!r.timerSet || timeout < r.limit) {
		if r.timerSet {
			r.timer.Stop()
		}
		r.timerSet = true
		r.limit = timeout
		r.timer.After(timeout, r)
	}
}

func (r *Request) Timer"""), ("request.go", """	timer    Timer
	timerSet bool
}
""", """	timer    Timer
	timerSet bool
	limit    time.Duration
}
"""))
bug("ping-only-idle", "N12", "a request that takes the server longer than its read limit, on an otherwise silent connection",
    "a client with requests outstanding sends no pings: the server takes it for dead",
    ("net/client/connection/connection.go", """		if ping {
			err = w.Ping()
""", """		if ping {
			if conn.inFly.count() == 0 {
				err = w.Ping()
			}
"""))
bug("registry-stop-unlocked", "N13", "a client created while the registry is being stopped",
    "the clients to stop are taken before the lock: one created in between is forgotten but goes on running",
    ("net/client/auto.go", """	a.Lock()
	if a.servers != nil {
		for _, serv := range a.servers {
			serv.Stop()
		}
		a.servers = nil
	}
	a.Unlock()
""", """	servers := a.servers
	for _, serv := range servers {
		serv.Stop()
	}
	a.Lock()
	a.servers = nil
	a.Unlock()
"""))
bug("late-flush", "N07", "a few answers given while one or two other requests of the connection are still in work",
    "the writer puts off flushing while few requests are outstanding, and nobody wakes it when they take long",
    ("net/server/connection.go", """			conn.Unlock()
			if err = w.Flush(); err != nil {
				break Loop
			}
""", """			wait := len(conn.inFly) == 1 || len(conn.inFly) == 2
			conn.Unlock()
			if wait {
				// more is coming, one write is enough for it
			} else if err = w.Flush(); err != nil {
				break Loop
			}
"""))
bug("stops-when-idle", "N05", "the number of connections lowered while requests queue up all the time",
    "a surplus connection looks at its exit only when it finds nothing to send: under load it stays",
    ("net/client/connection/connection.go", """		if conn.Stopped() {
			conn.shutdown = true
			break Loop
		}

		select {
		case <-conn.closeWrite:
			break Loop
		default:
		}
""", """		select {
		case <-conn.closeWrite:
			break Loop
		default:
		}
"""))
bug("loop-ends-early", "N06", "a stop with several connections whose requests the server does not answer before it closes",
    "the client's loop ends when no connection is counted any more, and not when they are finished: they block reporting to it, and their requests are forgotten",
    ("net/client/server.go", """		if serv.exiting && len(serv.connections) == 0 {
			serv.reconnecter.Stop()
			break
		}
""", """		if serv.exiting {
			serv.reconnecter.Stop()
			if serv.dialing+serv.established == 0 {
				break
			}
		}
"""))
bug("refused-fails-queued", "N04", "some connections established and busy, with requests queued, and another one refused",
    "the queue is failed along with the message that a connection could not be made, also when others are established",
    ("net/client/server.go", """		if now.Sub(serv.lastErrTime) > 2*time.Second {
			serv.lastErrTime = now
			log.Printf("%s: could not connect to %s", serv.conf.Name, serv.conf.Address)
		}
""", """		if since := now.Sub(serv.lastErrTime); since > 2*time.Second {
			serv.lastErrTime = now
			log.Printf("%s: could not connect to %s", serv.conf.Name, serv.conf.Address)
			if serv.Standalone() && !serv.exiting {
				serv.AllDisconnected()
			}
		}
"""))
