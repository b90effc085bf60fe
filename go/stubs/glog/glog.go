// Package glog stands in for the logging library, which is not installed here.
package glog

import "fmt"

func Infof(f string, a ...any)    {}
func Info(a ...any)               {}
func Warningf(f string, a ...any) {}
func Warning(a ...any)            {}
func Errorf(f string, a ...any)   {}
func Error(a ...any)              {}
func Fatalf(f string, a ...any)   { panic("log.Fatalf: " + fmt.Sprintf(f, a...)) }
func Fatal(a ...any)              { panic("log.Fatal: " + fmt.Sprint(a...)) }
func Exitf(f string, a ...any)    { panic("log.Exitf: " + fmt.Sprintf(f, a...)) }
func Exit(a ...any)               { panic("log.Exit: " + fmt.Sprint(a...)) }

type Level int32
type Verbose bool

func V(Level) Verbose                        { return false }
func (Verbose) Info(a ...any)                {}
func (Verbose) Infof(f string, a ...any)     {}
