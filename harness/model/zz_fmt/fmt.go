// Package fmt is package fmt with the model's standard output.
package fmt

import (
	"fmt"
	"io"

	os "github.com/cespare/goclj/zz_os"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	State      = fmt.State
	Formatter  = fmt.Formatter
)

func Print(a ...interface{}) (int, error)            { return fmt.Fprint(os.Stdout, a...) }
func Println(a ...interface{}) (int, error)          { return fmt.Fprintln(os.Stdout, a...) }
func Printf(f string, a ...interface{}) (int, error) { return fmt.Fprintf(os.Stdout, f, a...) }

func Fprint(w io.Writer, a ...interface{}) (int, error)            { return fmt.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...interface{}) (int, error)          { return fmt.Fprintln(w, a...) }
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) { return fmt.Fprintf(w, f, a...) }

func Sprint(a ...interface{}) string            { return fmt.Sprint(a...) }
func Sprintln(a ...interface{}) string          { return fmt.Sprintln(a...) }
func Sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }
func Errorf(f string, a ...interface{}) error   { return fmt.Errorf(f, a...) }

func Append(b []byte, a ...interface{}) []byte            { return append(b, fmt.Sprint(a...)...) }
func Appendln(b []byte, a ...interface{}) []byte          { return append(b, fmt.Sprintln(a...)...) }
func Appendf(b []byte, f string, a ...interface{}) []byte { return append(b, fmt.Sprintf(f, a...)...) }

func Sscan(s string, a ...interface{}) (int, error)               { return fmt.Sscan(s, a...) }
func Sscanln(s string, a ...interface{}) (int, error)             { return fmt.Sscanln(s, a...) }
func Sscanf(s, f string, a ...interface{}) (int, error)           { return fmt.Sscanf(s, f, a...) }
func Fscan(r io.Reader, a ...interface{}) (int, error)            { return fmt.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...interface{}) (int, error)          { return fmt.Fscanln(r, a...) }
func Fscanf(r io.Reader, f string, a ...interface{}) (int, error) { return fmt.Fscanf(r, f, a...) }
