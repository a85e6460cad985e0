// Package simlog replaces package log in instrumented code: what ends the process ends the simulated one.
package simlog

import (
	"fmt"
	"io"
	"log"

	"verifsim/simos"
)

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

// Logger mirrors log.Logger.
type Logger struct{ *log.Logger }

var std = &Logger{log.New(io.Discard, "", log.LstdFlags)}

// New mirrors log.New.
func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{log.New(w, prefix, flag)} }

// Default mirrors log.Default.
func Default() *Logger { return std }

func (l *Logger) Fatal(v ...any)            { l.Output(2, fmt.Sprint(v...)); simos.Exit(1) }
func (l *Logger) Fatalf(f string, v ...any) { l.Output(2, fmt.Sprintf(f, v...)); simos.Exit(1) }
func (l *Logger) Fatalln(v ...any)          { l.Output(2, fmt.Sprintln(v...)); simos.Exit(1) }

func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetFlags(f int)               { std.SetFlags(f) }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Flags() int                   { return std.Flags() }
func Prefix() string               { return std.Prefix() }
func Writer() io.Writer            { return std.Writer() }
func Output(d int, s string) error { return std.Output(d+1, s) }
func Print(v ...any)               { std.Print(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Println(v ...any)             { std.Println(v...) }
func Panic(v ...any)               { std.Panic(v...) }
func Panicf(f string, v ...any)    { std.Panicf(f, v...) }
func Panicln(v ...any)             { std.Panicln(v...) }
func Fatal(v ...any)               { std.Fatal(v...) }
func Fatalf(f string, v ...any)    { std.Fatalf(f, v...) }
func Fatalln(v ...any)             { std.Fatalln(v...) }

// VerifSim gives every importing file a use of the package.
const VerifSim = 0
