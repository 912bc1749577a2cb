// Package scen holds the workloads and oracles.  It is written as ordinary Go
// against the public API of the code under test and goes through the same
// rewriting, so its goroutines, channels, clocks and sockets are simulated too.
package scen

import (
	"fmt"
	"sort"

	"verifsim/rt"
	_ "verifsim/rt/vcontext" // stands in for context
)

// ResetAll puts every package-level variable of the code under test back into
// its initial state; set by a generated file.
var ResetAll func()

// Scenario is a family of simulated executions.
type Scenario struct {
	Name     string
	Props    []string // the checks that run it
	Weight   int
	Run      func(e *Env)
	MaxSteps int64
	MaxTime  int64
	Real     string // parts of the repository that run for real
	Stub     string // what is simulated or scripted
}

var all []*Scenario

func register(s *Scenario) bool {
	if s.Weight == 0 {
		s.Weight = 1
	}
	all = append(all, s)
	return true
}

// For lists the scenarios of a check.
func For(prop string) []*Scenario {
	var r []*Scenario
	for _, s := range all {
		for _, p := range s.Props {
			if p == prop {
				r = append(r, s)
			}
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

func Props() []string {
	m := map[string]bool{}
	var r []string
	for _, s := range all {
		for _, p := range s.Props {
			if !m[p] {
				m[p] = true
				r = append(r, p)
			}
		}
	}
	sort.Strings(r)
	return r
}

// Env is what a run of a scenario has to work with.
type Env struct {
	Prop string
	w    *rt.Stream
}

// Exec makes one run.
func Exec(s *Scenario, prop string, cfg rt.Config) *rt.World {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = s.MaxSteps
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = s.MaxTime
	}
	return rt.Run(cfg, func() {
		e := &Env{Prop: prop, w: rt.S_("w")}
		ResetAll()
		s.Run(e)
	})
}

// Fail reports that property prop does not hold in this run.  A run made for
// the check of another property goes on.
func (e *Env) Fail(prop, class, f string, a ...interface{}) {
	if prop != e.Prop {
		rt.Count("other." + prop)
		return
	}
	rt.Violation(prop, class, fmt.Sprintf(f, a...))
}

// FailAny reports a violation of whatever property the check is about (used
// for oracles that belong to several).
func (e *Env) FailAny(class, f string, a ...interface{}) {
	rt.Violation(e.Prop, class, fmt.Sprintf(f, a...))
}

// Probe counts that something rare was reached.
func (e *Env) Probe(name string) { rt.Count("probe." + name) }

func (e *Env) N(n int) int                    { return e.w.N(n) }
func (e *Env) Chance(a, b int) bool           { return e.w.Chance(a, b) }
func (e *Env) Weighted(ws ...int) int         { return e.w.Weighted(ws...) }
func (e *Env) Pick(xs ...int) int             { return xs[e.w.N(len(xs))] }
func (e *Env) Range(lo, hi int) int           { return lo + e.w.N(hi-lo+1) }
func (e *Env) Stream(n string) *rt.Stream     { return rt.S_(n) }
func (e *Env) Log(f string, a ...interface{}) { rt.Tracef(f, a...) }
