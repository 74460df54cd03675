// Package vrt is the runtime of the verification harnesses. Under the symbolic engine the functions
// marked "intrinsic" are replaced; natively they read the recorded inputs of one path.
package vrt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"
)

// ---- inputs ----

// Byte returns an arbitrary byte in [lo,hi].
func Byte(lo, hi byte) byte { return byteIn(lo, hi) }

// Rune returns an arbitrary rune in [lo,hi].
func Rune(lo, hi rune) rune { return runeIn(lo, hi) }

// Int returns an arbitrary int in [lo,hi].
func Int(lo, hi int) int { return intIn(lo, hi) }

// Bool returns an arbitrary bool.
func Bool() bool { return boolIn() }

func byteIn(lo, hi byte) byte { return byte(pop("byte")) } // intrinsic
func runeIn(lo, hi rune) rune { return rune(pop("rune")) } // intrinsic
func intIn(lo, hi int) int    { return int(pop("int")) }   // intrinsic
func boolIn() bool            { return pop("bool") != 0 }  // intrinsic

// Choice returns each of 0..n-1 on a path of its own. Intrinsic.
func Choice(n int) int {
	return int(pop("choice"))
}

// Assume restricts the path. Intrinsic.
func Assume(c bool) {
	if !c {
		panic(infeasible{})
	}
}

// Stop ends the path without a verdict. Intrinsic.
func Stop() { panic(infeasible{}) }

// Assert reports a violation when c can be false. Intrinsic.
func Assert(c bool, msg string) {
	if !c {
		panic(assertFailure(msg))
	}
}

// Fail reports a violation. Intrinsic.
func Fail(msg string) { panic(assertFailure(msg)) }

// Known marks the rest of the path as covered by a known finding. Intrinsic.
func Known(id string) { cur.known = id }

// Reach records that a point of interest was reached. Intrinsic.
func Reach(label string) { cur.reach = append(cur.reach, label) }

// Observe records an output that a native run must reproduce. Intrinsic.
func Observe(label, val string) { cur.obs = append(cur.obs, label+"="+val) }

// Param returns a bound of the job. Intrinsic.
func Param(name string, def int) int {
	if v, ok := cur.params[name]; ok {
		return v
	}
	return def
}

// Symbolic reports whether the symbolic engine is running. Intrinsic.
func Symbolic() bool { return false }

// Concrete reports whether a string has no symbolic bytes. Intrinsic.
func Concrete(s string) bool { return true }

// MapOrder makes map iteration in the code under test arbitrary.
func MapOrder(on bool) { mapOrder(on) }
func mapOrder(on bool) {}

// Race switches the happens-before race detector. Intrinsic.
func Race(on bool) {}

// Settle lets all other goroutines run until they are blocked or done and returns how many remain. Intrinsic.
func Settle() int {
	n := 0
	for i := 0; i < 40; i++ {
		n = runtime.NumGoroutine() - cur.base
		if n <= 0 {
			return 0
		}
		time.Sleep(time.Duration(i) * time.Millisecond)
	}
	return n
}

// TypeName is the name of the dynamic type. Intrinsic.
func TypeName(v interface{}) string {
	if v == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%T", v)
}

// CatchExit runs f and returns -1, or the code given to os.Exit.
func CatchExit(f func()) int {
	return catch(func() int {
		f()
		catchDone()
		return -1
	})
}

func catch(f func() int) int { return f() } // intrinsic
func catchDone()             {}             // intrinsic
func exit(code int)          {}             // intrinsic

// RuntimeError is the type of run-time panics in the engine.
type RuntimeError struct{ msg string }

func (e RuntimeError) Error() string { return "runtime error: " + e.msg }
func (e RuntimeError) RuntimeError() {}

// ---- native replay ----

type infeasible struct{}
type assertFailure string

type inVal struct {
	K string `json:"k"`
	V int64  `json:"v"`
}

type caseT struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []inVal        `json:"inputs"`
	Repeat  int            `json:"repeat"`
}

type resT struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Known   string   `json:"known"`
	Obs     []string `json:"obs"`
	Reach   []string `json:"reach"`
}

var cur struct {
	in     []inVal
	params map[string]int
	obs    []string
	reach  []string
	known  string
	base   int
}

func pop(kind string) int64 {
	if len(cur.in) == 0 {
		panic("vrt: no input left (" + kind + ")")
	}
	v := cur.in[0]
	if v.K != kind {
		panic("vrt: input is " + v.K + ", want " + kind)
	}
	cur.in = cur.in[1:]
	return v.V
}

// Main replays the recorded cases named by the environment with the given harnesses.
func Main(hs map[string]func()) {
	f, err := os.Open(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_RESULTS"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var c caseT
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		h := hs[c.Harness]
		if h == nil {
			fmt.Fprintln(os.Stderr, "no harness", c.Harness)
			os.Exit(2)
		}
		var r resT
		for k := 0; k == 0 || k < c.Repeat && r.Outcome == "ok"; k++ {
			done := make(chan resT, 1)
			cur.in, cur.params, cur.obs, cur.reach, cur.known = c.Inputs, c.Params, nil, nil, ""
			cur.base = runtime.NumGoroutine() + 1
			go func() { done <- runCase(h) }()
			select {
			case r = <-done:
			case <-time.After(10 * time.Second):
				r = resT{Outcome: "hang", Msg: "no result within 10 s", Known: cur.known}
			}
		}
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
		if r.Outcome == "hang" {
			os.Exit(3)
		}
	}
	out.Close()
	os.Exit(0)
}

func runCase(h func()) (r resT) {
	defer func() {
		e := recover()
		r.Obs, r.Reach, r.Known = cur.obs, cur.reach, cur.known
		switch e := e.(type) {
		case nil:
			r.Outcome = "ok"
		case infeasible:
			r.Outcome = "infeasible"
		case assertFailure:
			r.Outcome, r.Msg = "assert", string(e)
		default:
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			r.Outcome, r.Msg = "panic", strings.Replace(fmt.Sprint(e), "\n", " ", -1)+"\n"+string(buf)
		}
	}()
	h()
	return r
}
