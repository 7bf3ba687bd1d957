// Package glog is a stand-in for github.com/golang/glog in simulated builds:
// arguments are formatted (so that logging code runs) and discarded, and the
// process-ending calls go to a hook. It keeps no locks, files or timers.
package glog

import (
	"fmt"
	"os"
)

// VLevel is the simulated -v flag.
var VLevel int

// Sink, when set, receives every message.
var Sink func(sev, msg string)

// ExitHook, when set, is called instead of os.Exit.
var ExitHook func(code int, msg string)

type Level int32

type Verbose bool

func out(sev, msg string) {
	if Sink != nil {
		Sink(sev, msg)
	}
}

func exit(code int, msg string) {
	out("F", msg)
	if ExitHook != nil {
		ExitHook(code, msg)
	}
	fmt.Fprintln(os.Stderr, "glog exit:", msg)
	os.Exit(code)
}

func V(l Level) Verbose { return Verbose(int(l) <= VLevel) }

func (v Verbose) Info(a ...interface{}) {
	if v {
		out("I", fmt.Sprint(a...))
	}
}
func (v Verbose) Infoln(a ...interface{}) {
	if v {
		out("I", fmt.Sprintln(a...))
	}
}
func (v Verbose) Infof(f string, a ...interface{}) {
	if v {
		out("I", fmt.Sprintf(f, a...))
	}
}
func (v Verbose) Error(a ...interface{})            { v.Info(a...) }
func (v Verbose) Errorf(f string, a ...interface{}) { v.Infof(f, a...) }

func Info(a ...interface{})               { out("I", fmt.Sprint(a...)) }
func InfoDepth(d int, a ...interface{})   { out("I", fmt.Sprint(a...)) }
func Infoln(a ...interface{})             { out("I", fmt.Sprintln(a...)) }
func Infof(f string, a ...interface{})    { out("I", fmt.Sprintf(f, a...)) }
func Warning(a ...interface{})            { out("W", fmt.Sprint(a...)) }
func Warningln(a ...interface{})          { out("W", fmt.Sprintln(a...)) }
func Warningf(f string, a ...interface{}) { out("W", fmt.Sprintf(f, a...)) }
func Error(a ...interface{})              { out("E", fmt.Sprint(a...)) }
func ErrorDepth(d int, a ...interface{})  { out("E", fmt.Sprint(a...)) }
func Errorln(a ...interface{})            { out("E", fmt.Sprintln(a...)) }
func Errorf(f string, a ...interface{})   { out("E", fmt.Sprintf(f, a...)) }
func Fatal(a ...interface{})              { exit(255, fmt.Sprint(a...)) }
func Fatalln(a ...interface{})            { exit(255, fmt.Sprintln(a...)) }
func Fatalf(f string, a ...interface{})   { exit(255, fmt.Sprintf(f, a...)) }
func Exit(a ...interface{})               { exit(1, fmt.Sprint(a...)) }
func Exitln(a ...interface{})             { exit(1, fmt.Sprintln(a...)) }
func Exitf(f string, a ...interface{})    { exit(1, fmt.Sprintf(f, a...)) }
func Flush()                              {}
func CopyStandardLogTo(name string)       {}
