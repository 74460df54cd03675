package vrt

import (
	"errors"
	"io"
	"strconv"
	"strings"
)

// Models of package fmt for the symbolic engine. They cover the verbs the code under test uses.

func kindOf(v interface{}) int                 { return 0 }     // intrinsic
func intOf(v interface{}) int                  { return 0 }     // intrinsic
func strOf(v interface{}) string               { return "" }    // intrinsic
func boolOf(v interface{}) bool                { return false } // intrinsic
func sliceLen(v interface{}) int               { return 0 }     // intrinsic
func sliceAt(v interface{}, i int) interface{} { return nil }   // intrinsic
func swapElems(v interface{}, i, j int)        {}               // intrinsic
func isNilPtr(v interface{}) bool              { return false } // intrinsic
func unsupported(msg string)                   {}               // intrinsic

func quote(s string) string {
	if Concrete(s) {
		return strconv.Quote(s)
	}
	return "\"" + s + "\""
}

func text(v interface{}) string {
	if isNilPtr(v) {
		return "<nil>"
	}
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case error:
		return x.Error()
	case interface{ String() string }:
		return x.String()
	}
	switch kindOf(v) {
	case 1:
		if boolOf(v) {
			return "true"
		}
		return "false"
	case 2, 3:
		return strconv.Itoa(intOf(v))
	case 4:
		return strOf(v)
	case 7:
		s := "["
		n := sliceLen(v)
		for i := 0; i < n; i++ {
			if i > 0 {
				s += " "
			}
			s += text(sliceAt(v, i))
		}
		return s + "]"
	}
	return "<" + TypeName(v) + ">"
}

func fmtSprintf(format string, a ...interface{}) string {
	s := ""
	arg := 0
	n := len(format)
	for i := 0; i < n; i++ {
		c := format[i]
		if c != '%' {
			j := i
			for j < n && format[j] != '%' {
				j++
			}
			s += format[i:j]
			i = j - 1
			continue
		}
		i++
		if i >= n {
			s += "%!(NOVERB)"
			break
		}
		flags := ""
		for i < n && (format[i] == '#' || format[i] == '+' || format[i] == '-' || format[i] == ' ' || (format[i] >= '0' && format[i] <= '9') || format[i] == '.') {
			flags += format[i : i+1]
			i++
		}
		if i >= n {
			s += "%!(NOVERB)"
			break
		}
		verb := format[i]
		if verb == '%' {
			s += "%"
			continue
		}
		if arg >= len(a) {
			s += "%!" + string(rune(verb)) + "(MISSING)"
			continue
		}
		v := a[arg]
		arg++
		t := ""
		switch verb {
		case 's', 'w':
			t = text(v)
		case 'v':
			if flags == "#" {
				unsupported("%#v")
			}
			t = text(v)
		case 'd':
			t = text(v)
		case 'q':
			switch kindOf(v) {
			case 2, 3:
				t = strconv.QuoteRune(rune(intOf(v)))
			default:
				t = quote(text(v))
			}
		case 'c':
			t = string(rune(intOf(v)))
		case 'T':
			t = TypeName(v)
		case 't':
			t = text(v)
		case 'x':
			if kindOf(v) == 4 {
				unsupported("%x of a string")
			}
			t = strconv.FormatInt(int64(intOf(v)), 16)
		case 'U':
			t = "U+" + strconv.FormatInt(int64(intOf(v)), 16)
		default:
			unsupported("verb " + string(rune(verb)))
		}
		if flags != "" && flags != "#" && flags != "+" {
			w, left, zero := 0, false, false
			for k := 0; k < len(flags); k++ {
				f := flags[k]
				switch {
				case f == '-':
					left = true
				case f == '0' && w == 0:
					zero = true
				case f >= '0' && f <= '9':
					w = w*10 + int(f-'0')
				default:
					unsupported("format flags " + flags)
				}
			}
			for len(t) < w {
				if left {
					t += " "
				} else if zero {
					t = "0" + t
				} else {
					t = " " + t
				}
			}
		}
		s += t
	}
	if arg < len(a) {
		s += "%!(EXTRA)"
	}
	return s
}

func fmtSprint(a ...interface{}) string {
	s := ""
	prevStr := true
	for i, v := range a {
		isStr := kindOf(v) == 4
		if i > 0 && !isStr && !prevStr {
			s += " "
		}
		s += text(v)
		prevStr = isStr
	}
	return s
}

func fmtSprintln(a ...interface{}) string {
	s := ""
	for i, v := range a {
		if i > 0 {
			s += " "
		}
		s += text(v)
	}
	return s + "\n"
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

func fmtErrorf(format string, a ...interface{}) error {
	msg := fmtSprintf(format, a...)
	if strings.Contains(format, "%w") {
		for _, v := range a {
			if e, ok := v.(error); ok {
				return &wrapError{msg, e}
			}
		}
	}
	return errors.New(msg)
}

func fmtFprintf(w io.Writer, format string, a ...interface{}) (int, error) {
	return w.Write([]byte(fmtSprintf(format, a...)))
}
func fmtFprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(fmtSprint(a...))) }
func fmtFprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(fmtSprintln(a...)))
}

// ---- errors ----

func errorsIs(err, target error) bool {
	for err != nil {
		if TypeName(err) == TypeName(target) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

// ---- strings and bytes ----

func stringsIndex(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func bytesIndex(s, sub []byte) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if string(s[i:i+n]) == string(sub) {
			return i
		}
	}
	return -1
}

func stringsCount(s, sub string) int {
	if len(sub) == 0 {
		n := 1
		for range s {
			n++
		}
		return n
	}
	c := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			c++
			i += len(sub)
		} else {
			i++
		}
	}
	return c
}

// ---- sort ----

func sortSlice(x interface{}, less func(i, j int) bool) {
	n := sliceLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapElems(x, j, j-1)
		}
	}
}

func sortStrings(x []string) {
	for i := 1; i < len(x); i++ {
		for j := i; j > 0 && x[j] < x[j-1]; j-- {
			x[j], x[j-1] = x[j-1], x[j]
		}
	}
}
