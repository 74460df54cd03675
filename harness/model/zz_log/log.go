// Package log is a model of package log without time stamps.
package log

import (
	"fmt"
	"io"

	os "github.com/cespare/goclj/zz_os"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

type Logger struct {
	w      io.Writer
	prefix string
}

var std = new(Logger)

// Reset restores the initial state.
func Reset() { *std = Logger{} }

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{w, prefix} }
func Default() *Logger                                 { return std }

func (l *Logger) out(s string) {
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	w := l.w
	if w == nil {
		w = os.Stderr
	}
	io.WriteString(w, l.prefix+s)
}

func (l *Logger) SetFlags(flag int)                 {}
func (l *Logger) SetPrefix(p string)                { l.prefix = p }
func (l *Logger) SetOutput(w io.Writer)             { l.w = w }
func (l *Logger) Print(v ...interface{})            { l.out(fmt.Sprint(v...)) }
func (l *Logger) Println(v ...interface{})          { l.out(fmt.Sprintln(v...)) }
func (l *Logger) Printf(f string, v ...interface{}) { l.out(fmt.Sprintf(f, v...)) }
func (l *Logger) Fatal(v ...interface{})            { l.Print(v...); os.Exit(1) }
func (l *Logger) Fatalln(v ...interface{})          { l.Println(v...); os.Exit(1) }
func (l *Logger) Fatalf(f string, v ...interface{}) { l.Printf(f, v...); os.Exit(1) }
func (l *Logger) Panic(v ...interface{})            { s := fmt.Sprint(v...); l.out(s); panic(s) }
func (l *Logger) Panicf(f string, v ...interface{}) { s := fmt.Sprintf(f, v...); l.out(s); panic(s) }

func (l *Logger) Panicln(v ...interface{}) {
	s := fmt.Sprintln(v...)
	l.out(s)
	panic(s)
}
func (l *Logger) Output(depth int, s string) error { l.out(s); return nil }
func (l *Logger) Prefix() string                   { return l.prefix }
func (l *Logger) Flags() int                       { return 0 }
func (l *Logger) Writer() io.Writer {
	if l.w == nil {
		return os.Stderr
	}
	return l.w
}

func Panicln(v ...interface{})          { std.Panicln(v...) }
func Output(depth int, s string) error  { return std.Output(depth, s) }
func Prefix() string                    { return std.prefix }
func Writer() io.Writer                 { return std.Writer() }
func SetFlags(flag int)                 {}
func Flags() int                        { return 0 }
func SetPrefix(p string)                { std.SetPrefix(p) }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func Print(v ...interface{})            { std.Print(v...) }
func Println(v ...interface{})          { std.Println(v...) }
func Printf(f string, v ...interface{}) { std.Printf(f, v...) }
func Fatal(v ...interface{})            { std.Fatal(v...) }
func Fatalln(v ...interface{})          { std.Fatalln(v...) }
func Fatalf(f string, v ...interface{}) { std.Fatalf(f, v...) }
func Panic(v ...interface{})            { std.Panic(v...) }
func Panicf(f string, v ...interface{}) { std.Panicf(f, v...) }
