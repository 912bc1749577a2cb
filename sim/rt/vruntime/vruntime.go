// Package vruntime stands in for runtime.
package vruntime

import (
	"runtime"

	"verifsim/rt"
)

type (
	Error              = runtime.Error
	Frame              = runtime.Frame
	Frames             = runtime.Frames
	Func               = runtime.Func
	MemStats           = runtime.MemStats
	TypeAssertionError = runtime.TypeAssertionError
)

const (
	GOOS     = runtime.GOOS
	GOARCH   = runtime.GOARCH
	Compiler = runtime.Compiler
)

func Gosched() { rt.Gosched() }
func Goexit()  { runtime.Goexit() }

// GOMAXPROCS and NumCPU are decided per run.
func GOMAXPROCS(int) int {
	if rt.W == nil {
		return 1
	}
	return 1 + rt.S_("gomaxprocs").N(4)
}
func NumCPU() int                             { return GOMAXPROCS(0) }
func NumGoroutine() int                       { return 1 }
func Stack(b []byte, all bool) int            { return copy(b, "goroutine") }
func Caller(int) (uintptr, string, int, bool) { return 0, "", 0, false }
func Callers(int, []uintptr) int              { return 0 }
func CallersFrames(p []uintptr) *Frames       { return runtime.CallersFrames(p) }
func FuncForPC(p uintptr) *Func               { return nil }
func GC()                                     { rt.Point(60) }
func KeepAlive(x interface{})                 {}
func SetFinalizer(a, b interface{})           {}
func LockOSThread()                           {}
func UnlockOSThread()                         {}
func ReadMemStats(*MemStats)                  {}
func Version() string                         { return runtime.Version() }
func Breakpoint()                             {}
