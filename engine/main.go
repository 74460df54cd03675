package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(10 << 30)
	if len(os.Args) > 1 && os.Args[1] == "run" {
		devRun(os.Args[2:])
		return
	}
	if len(os.Args) > 3 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2], os.Args[3]))
	}
	if len(os.Args) > 3 && os.Args[1] == "replay" {
		os.Exit(replay(os.Args[2], os.Args[3]))
	}
	fmt.Fprintln(os.Stderr, "usage: engine check DIR ID | replay DIR FILE | run ...")
	os.Exit(2)
}

// devRun explores one harness and prints what happened.
func devRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	h := fs.String("h", "", "harness")
	pkg := fs.String("pkg", "verif", "package")
	n := fs.Int("n", 8, "workers")
	ps := fs.String("p", "", "k=v,k=v")
	bud := fs.Duration("t", 60*time.Second, "budget")
	prof := fs.String("prof", "", "cpu profile")
	nat := fs.Bool("native", true, "validate natively")
	fns := fs.Bool("fns", false, "print functions")
	fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	dir, _ := os.MkdirTemp("", "eng")
	defer os.RemoveAll(dir)
	e, err := loadEngine("/verif", repoDir(), dir, *pkg)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v\n", e.load)
	j := &Job{Name: *h, Pkg: *pkg, Harness: *h, Params: map[string]int{}, Budget: *bud}
	for _, kv := range strings.Split(*ps, ",") {
		var k string
		var v int
		if i := strings.Index(kv, "="); i > 0 {
			k = kv[:i]
			fmt.Sscan(kv[i+1:], &v)
			j.Params[k] = v
		}
	}
	t0 := time.Now()
	if _, err := e.machines(*pkg, *n); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("init %v\n", time.Since(t0))
	if err := j.Run(e, *n, 1); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer e.stop()
	fmt.Printf("paths %d infeasible %d unsupported %d limited %d left %d timedOut %v in %v\n", j.Paths, j.Infeasible, j.Unsupported, j.Limited, j.Left, j.timedOut, j.dur)
	fmt.Printf("instrs %d branches %d forks %d merged %d asserts %d\n", j.States, j.Branches, j.Forks, j.Merged, j.Asserts)
	fmt.Printf("queries %d sat %d unsat %d unknown %d hits %d solver %v errors %d\n", sstats.queries, sstats.sat, sstats.unsat, sstats.unknown, sstats.cacheHits, time.Duration(sstats.nanos), sstats.errors)
	fmt.Println("reach", j.reach)
	var ms []string
	for m, c := range j.UnsupMsgs {
		ms = append(ms, fmt.Sprintf("%6d %s", c, m))
	}
	sort.Strings(ms)
	for i, m := range ms {
		if i < 10 {
			fmt.Println("UNSUPPORTED", m)
		}
	}
	if j.bug != "" {
		fmt.Println("ENGINE BUG", j.bug)
	}
	if *fns {
		for _, f := range sortedFns(j.fns) {
			fmt.Println("  fn", f.name, j.fns[f])
		}
	}
	if !*nat {
		return
	}
	bin, err := e.buildNative(*pkg, dir, false)
	if err != nil {
		fmt.Println(err)
		return
	}
	var cs []nativeCase
	for _, ev := range j.Events {
		cs = append(cs, nativeCase{Harness: j.Harness, Params: j.Params, Inputs: ev.Inputs})
	}
	rs := runNative(bin, dir, cs)
	for i, ev := range j.Events {
		fmt.Printf("EVENT %s known=%q %s\n   inputs %s\n   native: %s %s\n", ev.Kind, ev.Known, ev.Msg, showInputs(ev.Inputs), rs[i].Outcome, first(rs[i].Msg, 300))
	}
	cs = nil
	for _, s := range j.samples {
		cs = append(cs, nativeCase{Harness: j.Harness, Params: j.Params, Inputs: s.Inputs})
	}
	rs = runNative(bin, dir, cs)
	bad := 0
	for i, s := range j.samples {
		if rs[i].Outcome != "ok" || strings.Join(rs[i].Obs, "\x00") != strings.Join(s.Obs, "\x00") || strings.Join(rs[i].Reach, ",") != strings.Join(s.Reach, ",") {
			bad++
			if bad < 6 {
				fmt.Printf("MISMATCH inputs %s\n  engine %q %v\n  native %s %s %q %v\n", showInputs(s.Inputs), s.Obs, s.Reach, rs[i].Outcome, first(rs[i].Msg, 500), rs[i].Obs, rs[i].Reach)
			}
		}
	}
	fmt.Printf("validated %d samples, %d mismatches\n", len(j.samples), bad)
}

func first(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// showInputs renders inputs compactly; runs of bytes become text.
func showInputs(in []InVal) string {
	var sb strings.Builder
	for i := 0; i < len(in); {
		if in[i].K == "byte" || in[i].K == "rune" {
			var t []rune
			var bs []byte
			isB := in[i].K == "byte"
			k := in[i].K
			for i < len(in) && in[i].K == k {
				t = append(t, rune(in[i].V))
				bs = append(bs, byte(in[i].V))
				i++
			}
			if isB {
				fmt.Fprintf(&sb, "%q ", bs)
			} else {
				fmt.Fprintf(&sb, "%q ", string(t))
			}
			continue
		}
		fmt.Fprintf(&sb, "%s:%d ", in[i].K, in[i].V)
		i++
	}
	return sb.String()
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}
