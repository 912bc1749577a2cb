// Package rt is the simulator: a seeded scheduler, a virtual clock and models
// of every Go primitive through which a program can observe nondeterminism.
// Tasks are real goroutines, but exactly one of them runs at any time and the
// choice of who runs next is taken here.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// W is the world of the run in progress; nil outside runs.
var W *World

type tstate uint8

const (
	tsReady tstate = iota
	tsRunning
	tsBlocked
	tsDone
)

type Task struct {
	ID     int
	Name   string
	w      *World
	fn     func()
	resume chan struct{}
	st     tstate
	prio   int64
	why    string
	wt     *Waiter
}

// Outcome of a run.
type Outcome struct {
	Kind  string // "ok", "violation", "crash", "deadlock", "livelock", "timelimit"
	Prop  string // for violations: the property
	Class string
	Msg   string
}

type event struct {
	t    int64
	seq  uint64
	fn   func()
	dead bool
	idx  int
}

// Config is what the driver decides about a run before it starts.
type Config struct {
	Seed     uint64
	Replay   bool
	Devs     map[DevKey]int64 // replay: every decision not listed is 0
	MaxSteps int64
	MaxTime  int64
	Trace    bool
}

type DevKey struct {
	S string
	I int64
}

type Dev struct {
	S string `json:"s"`
	I int64  `json:"i"`
	V int64  `json:"v"`
}

type World struct {
	cfg     Config
	now     int64
	wall    int64 // wall clock offset against the monotonic one
	cost    int64
	busy    int64
	stalled int64 // time of the stalls that are over
	nstall  int64 // stalls going on
	stallS  int64 // sum of their beginnings
	steps   int64
	ysteps  int64

	tasks   []*Task
	ntask   int
	cur     *Task
	runq    []*Task
	ev      []*event
	evseq   uint64
	inEvent bool

	over    bool
	dying   bool
	outcome Outcome
	doneCh  chan struct{}
	killed  chan struct{}

	chans map[unsafe.Pointer]*hchan
	maps  map[unsafe.Pointer]*mapState

	streams map[string]*Stream
	sS      *Stream // scheduling at synchronisation points
	sB      *Stream // who runs when the current task blocks
	sY      *Stream // preemption at plain statements
	sSel    *Stream
	sT      *Stream // stalls
	sMap    *Stream
	Log     []Dev

	strat    strategy
	nextY    int64
	hot      []bool
	hotOn    bool
	calm     bool
	nextSt   int64
	pctPts   []int64
	prioLow  int64
	Hash     uint64
	Switches int64
	Stats    map[string]int64
	trace    []string
	Tracing  bool
	Exits    []func()
	capKeep  int
	spinAt   int64
	spinN    int64
	caps     map[int]int
}

type strategy struct {
	name    string
	p       uint64 // preemption probability at sync points, per 2^16
	pct     bool
	yGap    int64 // mean number of plain statements between preemptions, 0 = never
	hotGap  int64
	stallP  int64 // mean number of sync points between stalls, 0 = never
	stallMx int64
	blockR  bool // random choice when a task blocks
}

var NumSites int // set by the instrumented program's generated file

// Run executes main in a fresh world and returns it with its outcome.
func Run(cfg Config, main func()) *World {
	w := &World{
		cfg:     cfg,
		doneCh:  make(chan struct{}, 1),
		killed:  make(chan struct{}),
		chans:   make(map[unsafe.Pointer]*hchan),
		maps:    make(map[unsafe.Pointer]*mapState),
		streams: make(map[string]*Stream),
		Stats:   make(map[string]int64),
		Hash:    14695981039346656037,
		Tracing: cfg.Trace,
	}
	if w.cfg.MaxSteps == 0 {
		w.cfg.MaxSteps = 3000000
	}
	if w.cfg.MaxTime == 0 {
		w.cfg.MaxTime = int64(200 * 3600 * 1e9)
	}
	w.sS = w.Stream("s")
	w.sB = w.Stream("b")
	w.sY = w.Stream("y")
	w.sSel = w.Stream("c")
	w.sT = w.Stream("t")
	w.sMap = w.Stream("m")
	w.setup()
	W = w
	t := w.newTask("main", func() {
		main()
		w.finish(Outcome{Kind: "ok"})
	})
	w.runq = w.runq[:0]
	w.cur = t
	t.st = tsRunning
	t.resume <- struct{}{}
	<-w.doneCh
	w.dying = true
	for i := 0; i < len(w.tasks); i++ {
		t := w.tasks[i]
		if t.st == tsDone {
			continue
		}
		w.cur = t
		t.resume <- struct{}{}
		<-w.killed
	}
	for _, f := range w.Exits {
		f()
	}
	W = nil
	return w
}

func (w *World) setup() {
	// Scheduling strategy of this run.  None of this matters in a replay,
	// where the decisions themselves are given, except the clock cost.
	c := w.Stream("cfg")
	w.cost = []int64{100, 20, 1000, 10000}[c.Weighted(6, 2, 2, 1)]
	r := newPrng(w.cfg.Seed, "strategy")
	if w.cfg.Replay {
		w.nextSt = 1 << 62
		w.nextY = 1 << 62
		return
	}
	s := &w.strat
	switch r.next() % 10 {
	case 0:
		s.name = "fifo"
	case 1, 2, 3:
		s.name = "walk-low"
		s.p = 65536 / 30
	case 4, 5:
		s.name = "walk-mid"
		s.p = 65536 / 6
		s.blockR = true
	case 6:
		s.name = "walk-high"
		s.p = 65536 * 7 / 10
		s.blockR = true
	default:
		s.name = "pct"
		s.pct = true
		n := int(r.next() % 6)
		span := []uint64{200, 1000, 5000, 30000}[r.next()%4]
		for i := 0; i < n; i++ {
			w.pctPts = append(w.pctPts, int64(r.next()%span))
		}
		sort.Slice(w.pctPts, func(i, j int) bool { return w.pctPts[i] < w.pctPts[j] })
	}
	if r.next()%3 == 0 {
		s.blockR = true
	}
	switch r.next() % 8 {
	case 0, 1:
		s.yGap = 0
	case 2:
		s.yGap = 8
	case 3, 4:
		s.yGap = 60
	case 5, 6:
		s.yGap = 400
	case 7:
		s.yGap = 3000
	}
	if NumSites > 0 && r.next()%3 == 0 {
		w.hotOn = true
		w.hot = make([]bool, NumSites+1)
		n := 1 + int(r.next()%uint64(1+NumSites/12))
		for i := 0; i < n; i++ {
			w.hot[r.next()%uint64(NumSites)] = true
		}
	}
	if r.next()%3 == 0 {
		s.stallP = []int64{50, 300, 2000}[r.next()%3]
		s.stallMx = []int64{1e5, 5e6, 5e8}[r.next()%3]
	}
	w.sT.r = newPrng(w.cfg.Seed, "stall")
	w.nextSt = 1 << 62
	if s.stallP > 0 {
		w.nextSt = w.geo(w.sT.r, s.stallP)
	}
	w.nextY = 1 << 62
	if s.yGap > 0 {
		w.nextY = w.geo(w.sY.r, s.yGap)
	}
}

func (w *World) geo(r *prng, mean int64) int64 {
	// roughly geometric, cheap
	x := r.next()
	k := int64(x % uint64(2*mean))
	if x>>60 == 0 {
		k = int64((x >> 8) % 4)
	}
	return k + 1
}

func (w *World) StrategyName() string {
	n := w.strat.name
	if w.strat.yGap > 0 {
		n += "+y"
	}
	if w.hotOn {
		n += "+hot"
	}
	if w.strat.stallP > 0 {
		n += "+stall"
	}
	return n
}

// Calm switches to fair scheduling without stalls: the "faults have stopped"
// phase of a run.
func Calm() {
	w := W
	w.calm = true
}

func (w *World) newTask(name string, fn func()) *Task {
	t := &Task{ID: w.ntask, Name: name, w: w, fn: fn, resume: make(chan struct{}, 1)}
	w.ntask++
	if w.strat.pct {
		t.prio = int64(w.Stream("prio").raw() >> 20)
	}
	w.tasks = append(w.tasks, t)
	if len(w.tasks) > 512 && len(w.tasks)&511 == 0 {
		live := w.tasks[:0]
		for _, x := range w.tasks {
			if x.st != tsDone {
				live = append(live, x)
			}
		}
		for i := len(live); i < len(w.tasks); i++ {
			w.tasks[i] = nil
		}
		w.tasks = live
	}
	t.st = tsReady
	w.runq = append(w.runq, t)
	go t.main()
	return t
}

// Go starts a task.
func Go(fn func()) {
	w := W
	if w == nil {
		return
	}
	if w.dying {
		runtime.Goexit()
	}
	w.newTask("", fn)
	w.point(1)
}

// GoNamed starts a harness task with a name for reports.
func GoNamed(name string, fn func()) {
	w := W
	if w.dying {
		runtime.Goexit()
	}
	w.newTask(name, fn)
	w.point(1)
}

func (t *Task) main() {
	w := t.w
	defer func() {
		if w.dying {
			recover()
			t.st = tsDone
			w.killed <- struct{}{}
			return
		}
		r := recover()
		t.st = tsDone
		if r != nil && !w.over {
			w.over = true
			w.outcome = Outcome{Kind: "crash", Class: crashClass(r), Msg: fmt.Sprintf("panic: %.300v\n%s", r, trimStack(debug.Stack()))}
			w.doneCh <- struct{}{}
			return
		}
		if w.over {
			// finished by w.finish, which parked us: cannot happen
			return
		}
		if next := w.pick(nil); next != nil {
			w.cur = next
			next.st = tsRunning
			next.resume <- struct{}{}
		}
	}()
	<-t.resume
	if w.dying {
		return
	}
	t.fn()
}

func crashClass(r interface{}) string {
	s := fmt.Sprint(r)
	if i := strings.IndexAny(s, "\n&{"); i >= 0 {
		s = s[:i]
	}
	if i := strings.Index(s, "0x"); i >= 0 {
		s = s[:i]
	}
	// digits and addresses vary between equivalent failures
	var b strings.Builder
	last := byte(0)
	for i := 0; i < len(s) && b.Len() < 60; i++ {
		c := s[i]
		if c >= '0' && c <= '9' {
			c = '#'
			if last == '#' {
				continue
			}
		}
		b.WriteByte(c)
		last = c
	}
	return b.String()
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 1; i+1 < len(lines); i += 2 {
		f := lines[i]
		if strings.HasPrefix(f, "verifsim/rt") || strings.HasPrefix(f, "runtime") || strings.HasPrefix(f, "panic(") {
			continue
		}
		if j := strings.LastIndexByte(f, '('); j > 0 {
			f = f[:j]
		}
		pos := strings.TrimSpace(lines[i+1])
		if j := strings.Index(pos, " +0x"); j > 0 {
			pos = pos[:j]
		}
		if strings.Contains(pos, "goroutine ") {
			continue
		}
		out = append(out, "  "+f+" "+pos)
		if len(out) > 14 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// finish ends the run; called by a running task, does not return.
func (w *World) finish(o Outcome) {
	t := w.cur
	if !w.over {
		w.over = true
		w.outcome = o
		w.doneCh <- struct{}{}
	}
	if w.inEvent || t == nil || t.st == tsDone {
		return
	}
	<-t.resume
	runtime.Goexit()
}

func (w *World) Outcome() Outcome { return w.outcome }
func (w *World) Steps() int64     { return w.steps }
func (w *World) Now() int64       { return w.now }

// Fatal ends the run as a crash that Go's runtime would have made unrecoverable.
func Fatal(msg string) {
	w := W
	if w == nil {
		panic(msg)
	}
	if w.dying {
		runtime.Goexit()
	}
	w.finish(Outcome{Kind: "crash", Class: crashClass(msg), Msg: "fatal error: " + msg + "\n" + trimStack(debug.Stack())})
}

// Violation ends the run with a broken property.
func Violation(prop, class, msg string) {
	w := W
	if w.dying || w.over {
		runtime.Goexit()
	}
	w.finish(Outcome{Kind: "violation", Prop: prop, Class: class, Msg: msg})
}

func Over() bool { return W == nil || W.over || W.dying }

// Blocked lists tasks that are blocked, for reports.
func (w *World) Blocked() string {
	var out []string
	for _, t := range w.tasks {
		if t.st == tsBlocked || t.st == tsReady {
			out = append(out, fmt.Sprintf("  task %d %s: %s", t.ID, t.Name, t.why))
		}
		if len(out) > 30 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (w *World) mix(x uint64) {
	w.Hash = (w.Hash ^ x) * 1099511628211
}

// ---- scheduling ----

func (w *World) enterCheck() {
	if w.dying {
		runtime.Goexit()
	}
}

// point is a synchronisation point of the running task: time passes, due
// events happen, and another task may be chosen to run.
func (w *World) point(kind uint64) {
	if w.dying {
		runtime.Goexit()
	}
	if w.inEvent {
		return
	}
	w.steps++
	w.now += w.cost
	w.busy += w.cost
	t := w.cur
	w.mix(uint64(t.ID)<<8 | kind)
	if w.steps > w.cfg.MaxSteps {
		w.finish(Outcome{Kind: "livelock", Class: "step limit", Msg: "step limit reached\n" + w.Blocked()})
	}
	if len(w.ev) > 0 && w.ev[0].t <= w.now {
		w.runDue()
	}
	if w.calm {
		return
	}
	w.stallPoint()
	if len(w.runq) == 0 {
		return
	}
	c := w.decide(w.sS)
	if c != 0 {
		w.preempt(int(c))
	}
}

func (w *World) stallPoint() {
	i := w.sT.idx
	w.sT.idx++
	var d int64
	if w.cfg.Replay {
		d = w.cfg.Devs[DevKey{"t", i}]
	} else if i >= w.nextSt {
		w.nextSt = i + w.geo(w.sT.r, w.strat.stallP)
		d = 1 + int64(w.sT.r.next()%uint64(w.strat.stallMx))
	}
	if d != 0 {
		w.Log = append(w.Log, Dev{"t", i, d})
		w.Stats["fault.stall"]++
		x := &Waiter{t: w.cur}
		from := w.now
		Tracef("(stalled for %d ns)", d)
		w.nstall++
		w.stallS += from
		w.At(w.now+d, func() {
			w.nstall--
			w.stallS -= from
			w.stalled += w.now - from
			x.Wake()
		})
		x.Park("stalled")
	}
}

// decide returns 0 to let the current task continue or 1+index in runq.
func (w *World) decide(s *Stream) int64 {
	i := s.idx
	s.idx++
	var v int64
	n := int64(len(w.runq))
	if w.cfg.Replay {
		v = w.cfg.Devs[DevKey{s.name, i}]
		if v > n {
			v = 0
		}
	} else if w.strat.pct {
		if len(w.pctPts) > 0 && w.steps >= w.pctPts[0] {
			w.pctPts = w.pctPts[1:]
			w.prioLow--
			w.cur.prio = w.prioLow
		}
		best := w.cur.prio
		for j, x := range w.runq {
			if x.prio > best {
				best = x.prio
				v = int64(j) + 1
			}
		}
	} else if w.strat.p > 0 {
		x := s.r.next()
		if x&0xffff < w.strat.p {
			v = 1 + int64((x>>16)%uint64(n))
		}
	}
	if v != 0 {
		w.Log = append(w.Log, Dev{s.name, i, v})
	}
	return v
}

// preempt puts the current task at the end of the queue and runs runq[c-1].
func (w *World) preempt(c int) {
	t := w.cur
	next := w.runq[c-1]
	copy(w.runq[c-1:], w.runq[c:])
	w.runq[len(w.runq)-1] = t
	t.st = tsReady
	t.why = "preempted"
	w.handoff(t, next)
}

func (w *World) handoff(t, next *Task) {
	w.Switches++
	w.cur = next
	next.st = tsRunning
	if next == t {
		return
	}
	w.mix(uint64(next.ID) | 1<<40)
	next.resume <- struct{}{}
	<-t.resume
	if w.dying {
		runtime.Goexit()
	}
}

// pick chooses the next task when the current one cannot continue; it lets
// time advance if nobody can run.  Returns nil when the run is over.
func (w *World) pick(self *Task) *Task {
	for len(w.runq) == 0 {
		if len(w.ev) == 0 {
			w.over = true
			w.outcome = Outcome{Kind: "deadlock", Class: "all blocked", Msg: "nothing can run any more\n" + w.Blocked()}
			w.doneCh <- struct{}{}
			return nil
		}
		e := w.ev[0]
		if e.t > w.cfg.MaxTime {
			w.over = true
			w.outcome = Outcome{Kind: "timelimit", Class: "time limit", Msg: "simulated time limit\n" + w.Blocked()}
			w.doneCh <- struct{}{}
			return nil
		}
		if e.t > w.now {
			w.now = e.t
		}
		w.runDue()
		if w.over {
			return nil
		}
	}
	var i int64
	if n := int64(len(w.runq)); n > 1 && !w.calm {
		s := w.sB
		k := s.idx
		s.idx++
		if w.cfg.Replay {
			i = w.cfg.Devs[DevKey{"b", k}]
			if i >= n {
				i = 0
			}
		} else if w.strat.pct {
			best := w.runq[0].prio
			for j, x := range w.runq {
				if x.prio > best {
					best = x.prio
					i = int64(j)
				}
			}
		} else if w.strat.blockR {
			i = int64(s.r.next() % uint64(n))
		}
		if i != 0 {
			w.Log = append(w.Log, Dev{"b", k, i})
		}
	}
	next := w.runq[i]
	copy(w.runq[i:], w.runq[i+1:])
	w.runq = w.runq[:len(w.runq)-1]
	return next
}

// block parks the current task until ready is called for it.
func (w *World) block(why string) {
	t := w.cur
	t.st = tsBlocked
	t.why = why
	next := w.pick(t)
	if next == nil {
		<-t.resume
		runtime.Goexit()
	}
	w.handoff(t, next)
}

// ready makes a blocked task runnable.
func (w *World) ready(t *Task) {
	if t.st != tsBlocked {
		return
	}
	t.st = tsReady
	w.runq = append(w.runq, t)
}

// Gosched gives everybody else a turn; alone, it lets time advance.
func Gosched() {
	w := W
	if w == nil {
		return
	}
	w.point(2)
	if w.strat.pct {
		w.prioLow--
		w.cur.prio = w.prioLow
	}
	if len(w.runq) == 0 {
		if len(w.ev) == 0 {
			return
		}
		// alone; after many turns without another task to run this is a spin
		// that only an event can end
		if w.spinAt != w.Switches {
			w.spinAt, w.spinN = w.Switches, 0
		}
		if w.spinN++; w.spinN < 2000 {
			return
		}
		e := w.ev[0]
		if e.t > w.now {
			if e.t > w.cfg.MaxTime {
				w.finish(Outcome{Kind: "timelimit", Class: "time limit", Msg: "spinning until the time limit\n" + w.Blocked()})
			}
			w.now = e.t
		}
		w.runDue()
	}
	if len(w.runq) > 0 {
		w.preempt(1)
	}
}

// Y is a yield point before a plain statement that touches shared memory.
func Y(site int) {
	w := W
	if w == nil || w.inEvent {
		return
	}
	w.ysteps++
	if w.ysteps > w.cfg.MaxSteps*10 {
		w.spin()
	}
	if w.cfg.Replay {
		if w.calm {
			return
		}
		i := w.sY.idx
		w.sY.idx++
		if v := w.cfg.Devs[DevKey{"y", i}]; v != 0 && v <= int64(len(w.runq)) && !w.dying {
			w.Log = append(w.Log, Dev{"y", i, v})
			w.preempt(int(v))
		}
		return
	}
	if w.calm {
		return
	}
	i := w.sY.idx
	w.sY.idx++
	if i >= w.nextY {
		w.nextY = i + w.geo(w.sY.r, w.strat.yGap)
		w.ypre(i)
	} else if w.hotOn && w.hot[site] && w.sY.r.next()&3 == 0 {
		w.ypre(i)
	}
}

func (w *World) spin() {
	if w.dying {
		runtime.Goexit()
	}
	w.finish(Outcome{Kind: "livelock", Class: "spinning", Msg: "a task spins without end\n" + trimStack(debug.Stack())})
}

func (w *World) ypre(i int64) {
	if w.dying {
		runtime.Goexit()
	}
	n := len(w.runq)
	if n == 0 {
		return
	}
	v := 1 + int64(w.sY.r.next()%uint64(n))
	w.Log = append(w.Log, Dev{"y", i, v})
	if w.strat.pct {
		w.prioLow--
		w.cur.prio = w.prioLow
	}
	w.preempt(int(v))
}

// YT and YF are yield points inside boolean expressions.
func YT(site int) bool { Y(site); return true }
func YF(site int) bool { Y(site); return false }

// Mid is a yield point between evaluating a value and storing it.
func Mid[T any](site int, v T) T { Y(site); return v }

type number interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}
type addable interface {
	number | ~float32 | ~float64 | ~string
}

func Inc[T number](site int, p *T)           { t := *p; Y(site); *p = t + 1 }
func Dec[T number](site int, p *T)           { t := *p; Y(site); *p = t - 1 }
func AddTo[T addable](site int, p *T, v T)   { t := *p; Y(site); *p = t + v }
func SubTo[T number](site int, p *T, v T)    { t := *p; Y(site); *p = t - v }
func OrTo[T number](site int, p *T, v T)     { t := *p; Y(site); *p = t | v }
func AndTo[T number](site int, p *T, v T)    { t := *p; Y(site); *p = t & v }
func AndNotTo[T number](site int, p *T, v T) { t := *p; Y(site); *p = t &^ v }
func Zero[T any](p *T)                       { var z T; *p = z }

// ---- events ----

// At schedules fn at absolute simulated time t.  fn must not block.
func (w *World) At(t int64, fn func()) *event {
	if t < w.now {
		t = w.now
	}
	w.evseq++
	e := &event{t: t, seq: w.evseq, fn: fn}
	w.pushEv(e)
	return e
}

func (w *World) cancelEv(e *event) bool {
	if e == nil || e.dead {
		return false
	}
	e.dead = true
	w.removeEv(e.idx)
	return true
}

func (w *World) runDue() {
	was := w.inEvent
	w.inEvent = true
	for len(w.ev) > 0 && w.ev[0].t <= w.now && !w.over {
		e := w.ev[0]
		w.removeEv(0)
		e.dead = true
		w.mix(e.seq | 1<<41)
		e.fn()
	}
	w.inEvent = was
}

func (w *World) less(i, j int) bool {
	a, b := w.ev[i], w.ev[j]
	return a.t < b.t || (a.t == b.t && a.seq < b.seq)
}
func (w *World) swap(i, j int) {
	w.ev[i], w.ev[j] = w.ev[j], w.ev[i]
	w.ev[i].idx = i
	w.ev[j].idx = j
}
func (w *World) pushEv(e *event) {
	e.idx = len(w.ev)
	w.ev = append(w.ev, e)
	w.up(e.idx)
}
func (w *World) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !w.less(i, p) {
			break
		}
		w.swap(i, p)
		i = p
	}
}
func (w *World) down(i int) {
	for {
		l := 2*i + 1
		if l >= len(w.ev) {
			return
		}
		if r := l + 1; r < len(w.ev) && w.less(r, l) {
			l = r
		}
		if !w.less(l, i) {
			return
		}
		w.swap(i, l)
		i = l
	}
}
func (w *World) removeEv(i int) {
	n := len(w.ev) - 1
	if i != n {
		w.swap(i, n)
	}
	w.ev[n] = nil
	w.ev = w.ev[:n]
	if i != n {
		w.down(i)
		w.up(i)
	}
}

// ---- small API for shims and harness ----

// Now is the simulated monotonic time in nanoseconds.
func Now() int64 {
	if W == nil {
		return 0
	}
	return W.now
}

// WallOffset is the offset of the wall clock.
func WallOffset() int64 {
	if W == nil {
		return 0
	}
	return W.wall
}

// StepWall steps the wall clock.
func StepWall(d int64) {
	W.wall += d
	W.Stats["fault.clockstep"]++
}

// Slack is the simulated time so far during which the system was busy or a
// task was stalled: what a timing guarantee must tolerate.
func Slack() int64 { return W.busy + W.stalled + W.nstall*W.now - W.stallS }

// Seq is a global event stamp.
func Seq() int64 { return W.steps }

// Point is a synchronisation point for shims outside this package.
func Point(kind uint64) {
	if w := W; w != nil {
		w.point(kind)
	}
}

func Count(name string) {
	if W != nil {
		W.Stats[name]++
	}
}

// SleepNs parks the task for d nanoseconds.
func SleepNs(d int64) {
	w := W
	if w == nil {
		return
	}
	w.point(3)
	if d <= 0 {
		Gosched()
		return
	}
	x := &Waiter{t: w.cur}
	w.At(w.now+d, func() { x.Wake() })
	x.Park("sleep")
}

// Waiter is one wait of a task.  A wake-up may come before the task parks.
type Waiter struct {
	t     *Task
	Woken bool
}

// NewWaiter makes a waiter for the current task.
func NewWaiter() *Waiter { return &Waiter{t: W.cur} }

// Park blocks the current task until its waiter is woken.
func (x *Waiter) Park(why string) {
	w := W
	for !x.Woken {
		x.t.wt = x
		w.block(why)
	}
}

// Wake returns false if the waiter had been woken before.
func (x *Waiter) Wake() bool {
	if x.Woken {
		return false
	}
	x.Woken = true
	if x.t.st == tsBlocked && x.t.wt == x {
		x.t.w.ready(x.t)
	}
	return true
}

// Live is false outside runs; inside a dying run it ends the task.
func Live() bool {
	w := W
	if w == nil {
		return false
	}
	if w.dying {
		runtime.Goexit()
	}
	return true
}

// PointAny is a synchronisation point that may also be reached from events.
func PointAny(kind uint64) {
	if !W.inEvent {
		W.point(kind)
	}
}

func TaskID() int { return W.cur.ID }

type Ev struct{ e *event }

// After schedules fn (which must not block) after d.
func After(d int64, fn func()) Ev {
	if W == nil {
		return Ev{}
	}
	at := W.now + d
	if d > 0 && at < W.now {
		at = 1<<63 - 1 // never
	}
	return Ev{W.At(at, fn)}
}

func (e Ev) Cancel() bool {
	if W == nil || e.e == nil {
		return false
	}
	return W.cancelEv(e.e)
}

// Spawn starts a task from an event callback.
func Spawn(name string, fn func()) {
	if W == nil || W.dying || W.over {
		return
	}
	W.newTask(name, fn)
}

func Tracef(f string, a ...interface{}) {
	if w := W; w != nil && w.Tracing && !w.dying {
		id := -1
		if w.cur != nil && !w.inEvent {
			id = w.cur.ID
		}
		w.trace = append(w.trace, fmt.Sprintf("%12.6fms t%-3d %s", float64(w.now)/1e6, id, fmt.Sprintf(f, a...)))
	}
}

func (w *World) Trace() []string { return w.trace }

// LiveIn counts the goroutines that are inside a function of a package the
// name of which contains s.
func LiveIn(s string) (n int) {
	buf := make([]byte, 1<<16)
	for {
		l := runtime.Stack(buf, true)
		if l < len(buf) {
			buf = buf[:l]
			break
		}
		buf = make([]byte, 4*len(buf))
	}
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, l := range strings.Split(g, "\n")[1:] {
			if strings.HasPrefix(l, "created by ") {
				break
			}
			if !strings.HasPrefix(l, "\t") && strings.Contains(l, s) {
				n++
				break
			}
		}
	}
	return
}
