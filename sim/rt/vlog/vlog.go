// Package vlog stands in for log: output is discarded, panics are kept.
package vlog

import (
	"fmt"
	"io"

	"verifsim/rt"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

func out(kind string) {
	rt.Count("log." + kind)
	rt.Point(50)
}

func Print(v ...interface{})            { out("print") }
func Printf(f string, v ...interface{}) { out("print") }
func Println(v ...interface{})          { out("print") }
func Panic(v ...interface{}) {
	out("panic")
	panic(fmt.Sprint(v...))
}
func Panicf(f string, v ...interface{}) {
	out("panic")
	panic(fmt.Sprintf(f, v...))
}
func Panicln(v ...interface{}) {
	out("panic")
	panic(fmt.Sprintln(v...))
}
func Fatal(v ...interface{})            { rt.Fatal("log.Fatal: " + fmt.Sprint(v...)) }
func Fatalf(f string, v ...interface{}) { rt.Fatal("log.Fatal: " + fmt.Sprintf(f, v...)) }
func Fatalln(v ...interface{})          { rt.Fatal("log.Fatal: " + fmt.Sprintln(v...)) }
func SetOutput(io.Writer)               {}
func SetFlags(int)                      {}
func SetPrefix(string)                  {}
func Flags() int                        { return 0 }
func Prefix() string                    { return "" }
func Output(int, string) error          { out("print"); return nil }
func Writer() io.Writer                 { return io.Discard }

type Logger struct{}

func New(io.Writer, string, int) *Logger { return &Logger{} }
func Default() *Logger                   { return &Logger{} }

func (*Logger) Print(v ...interface{})            { out("print") }
func (*Logger) Printf(f string, v ...interface{}) { out("print") }
func (*Logger) Println(v ...interface{})          { out("print") }
func (*Logger) Panic(v ...interface{})            { Panic(v...) }
func (*Logger) Panicf(f string, v ...interface{}) { Panicf(f, v...) }
func (*Logger) Panicln(v ...interface{})          { Panicln(v...) }
func (*Logger) Fatal(v ...interface{})            { Fatal(v...) }
func (*Logger) Fatalf(f string, v ...interface{}) { Fatalf(f, v...) }
func (*Logger) SetOutput(io.Writer)               {}
func (*Logger) SetFlags(int)                      {}
func (*Logger) SetPrefix(string)                  {}
