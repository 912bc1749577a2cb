package scen

import (
	"math"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	"verifsim/rt"
)

type alarm struct {
	e      *Env
	n      int
	t      iproto.Timer
	armed  bool
	armAt  int64
	d      int64
	fires  int
	stopAt int64 // when a stop call returned, 0 = none
	arms   int
	onFire func()
	busy   bool // an arm or stop call is going on
}

func (a *alarm) Timer() *iproto.Timer { return &a.t }

func (a *alarm) Expire() {
	now := rt.Now()
	a.fires++
	a.e.Log("timer %d fires", a.n)
	if !a.armed {
		a.e.Fail("C03", "timer fired though not armed", "timer %d", a.n)
	}
	if a.fires > 1 {
		a.e.Fail("C03", "timer fired twice", "timer %d armed at %d for %d fired again at %d", a.n, a.armAt, a.d, now)
	}
	if now < a.due() {
		a.e.Fail("C03", "timer early", "timer %d armed at %d for %d fired at %d: %d ns early", a.n, a.armAt, a.d, now, a.due()-now)
	}
	if a.stopAt != 0 && a.stopAt < a.due() {
		a.e.Fail("C03", "stopped timer fired", "timer %d armed at %d for %d, stopped at %d, fired at %d", a.n, a.armAt, a.d, a.stopAt, now)
	}
	if late := now - a.due() - tol(); a.d >= 0 && late > 0 {
		a.e.Fail("C03", "timer late", "timer %d armed at %d for %d fired at %d: %d ns late", a.n, a.armAt, a.d, now, late)
	}
	if a.onFire != nil {
		a.onFire()
	}
}

// due is when it should fire.
func (a *alarm) due() int64 {
	if a.d > math.MaxInt64-a.armAt {
		return math.MaxInt64
	}
	return a.armAt + a.d
}

func (a *alarm) arm(d int64) {
	a.armed = true
	a.arms++
	a.fires = 0
	a.stopAt = 0
	a.armAt = rt.Now()
	a.d = d
	a.e.Log("arm timer %d for %d", a.n, d)
	a.busy = true
	a.t.After(time.Duration(d), a)
	a.busy = false
}

func (a *alarm) stop() {
	if a.busy {
		return
	}
	a.busy = true
	a.t.Stop()
	a.busy = false
	if a.fires == 0 && a.stopAt == 0 {
		a.stopAt = rt.Now()
		a.e.Log("timer %d stopped", a.n)
	}
}

// done tells whether nothing more may happen to the timer.
func (a *alarm) check() {
	if !a.armed || a.stopAt != 0 || a.due() > rt.Now() {
		return
	}
	if a.fires != 1 {
		a.e.Fail("C03", "timer never fired", "timer %d armed at %d for %d did not fire until %d", a.n, a.armAt, a.d, rt.Now())
	}
}

var _ = register(&Scenario{Name: "timers", Props: []string{"C03"}, Weight: 60, Real: realCore, Stub: stubCore, Run: func(e *Env) { timers(e, false) }})
var _ = register(&Scenario{Name: "timers-many", Props: []string{"C03"}, Weight: 1, Real: realCore, Stub: stubCore, MaxSteps: 30000000, Run: func(e *Env) { timers(e, true) }})

func timers(e *Env, many bool) {
	clockSteps(e)
	var all []*alarm
	mk := func() *alarm {
		a := &alarm{e: e, n: len(all)}
		all = append(all, a)
		return a
	}
	maxD := int64(0)
	shape := e.N(5)
	days := e.Chance(1, 10)
	delay := func(s *rt.Stream, i int) int64 {
		var d int64
		switch shape {
		case 0:
			d = e.dur(s)
		case 1: // few distinct values: ties
			d = int64(1+s.N(3)) * 10 * ms
		case 2: // ascending
			d = int64(i) * ms
		case 3: // descending
			d = int64(200-i%200) * ms
		default:
			d = s.Log(3600e9)
			switch s.N(20) {
			case 0:
				d = -d
			case 1: // for ever, or nearly so
				e.Probe("endless timer")
				return math.MaxInt64 - s.Log(math.MaxInt64/2)
			case 2:
				if days {
					d = s.Log(3 * 24 * 3600e9)
				}
			}
		}
		if d > maxD {
			maxD = d
		}
		return d
	}
	nt := 1 + e.N(4)
	per := 1 + e.N(25)
	if e.Chance(1, 20) {
		per = 100 + e.N(100)
	}
	if many {
		nt = 2 + e.N(3)
		per = 10010/nt + e.N(200)
		e.Probe("more than 10000 timers")
	}
	stopPct := e.Pick(0, 10, 40, 90)
	rearm := e.Chance(1, 2)
	g := newWg()
	g.add(nt)
	for k := 0; k < nt; k++ {
		s := e.Stream("arm" + string(rune('0'+k)))
		rt.GoNamed("armer", func() {
			var mine []*alarm
			for i := 0; i < per; i++ {
				a := mk()
				d := delay(s, i)
				if !many && s.Chance(1, 12) {
					// the expiry itself arms or stops others
					x := mk()
					dx := delay(s, i)
					victim := -1
					if len(mine) > 0 && s.Chance(1, 2) {
						victim = s.N(len(mine))
					}
					m := mine
					a.onFire = func() {
						if victim >= 0 {
							m[victim].stop()
						} else {
							x.arm(dx)
						}
					}
				}
				a.arm(d)
				mine = append(mine, a)
				if s.N(100) < stopPct {
					v := mine[s.N(len(mine))]
					v.stop()
				}
				if s.Chance(1, 10) {
					e.gap(s)
				}
				if rearm && s.Chance(1, 6) {
					v := mine[s.N(len(mine))]
					if v.armed && !v.busy && v.onFire == nil && (v.fires == 1 || v.stopAt != 0 && v.stopAt < v.due()) {
						v.arm(delay(s, i))
						e.Probe("rearmed")
					}
				}
			}
			g.done()
		})
	}
	g.wait()
	rt.Calm()
	// expiries may arm once more
	sleep(2*maxD + 2*int64(time.Second) + tol())
	for _, a := range all {
		a.check()
	}
}
