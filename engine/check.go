package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// spec is one exploration of a check.
type spec struct {
	h       string // harness
	p       string // parameters: k=v,k=v
	tier    string // "": both tiers; "q" or "t": only that tier
	secs    int    // budget
	reaches string // labels that must be reached, comma separated
	pkg     string // default verif
}

type knownEntry struct{ property, id, text string }

// readKnown reads the known findings of a property.
func readKnown(file, prop string) (out []knownEntry) {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		k := knownEntry{}
		fs := strings.Fields(l[len("known:"):])
		for len(fs) > 0 {
			if strings.HasPrefix(fs[0], "property=") {
				k.property = fs[0][len("property="):]
			} else if strings.HasPrefix(fs[0], "id=") {
				k.id = fs[0][len("id="):]
			} else {
				break
			}
			fs = fs[1:]
		}
		k.text = strings.Join(fs, " ")
		if k.property == prop {
			out = append(out, k)
		}
	}
	return out
}

type replayFile struct {
	Property string         `json:"property"`
	Pkg      string         `json:"pkg"`
	Harness  string         `json:"harness"`
	Params   map[string]int `json:"params"`
	Inputs   []InVal        `json:"inputs"`
	Race     bool           `json:"race"`
	Message  string         `json:"message"`
	Native   string         `json:"native"`
	Text     string         `json:"text"`
}

type checker struct {
	id, tier  string
	seed      int64
	e         *Engine
	dir       string
	bins      map[string]string
	known     map[string]bool
	violation []replayFile
	knownSeen map[string]int

	jobs                                    []*Job
	warnings                                []string
	validated, mismatches, decidedNative    int
	confirmed, unconfirmed                  int
	samples                                 []map[string]any
	fns                                     map[string]int64
	crossAgree, crossDisagree, crossUnknown int
}

func parseParams(p string) map[string]int {
	out := map[string]int{}
	for _, kv := range strings.Split(p, ",") {
		if i := strings.Index(kv, "="); i > 0 {
			v, err := strconv.Atoi(kv[i+1:])
			if err != nil {
				panic("bad parameter " + kv)
			}
			out[kv[:i]] = v
		}
	}
	return out
}

func (c *checker) bin(pkg string, race bool) (string, error) {
	k := pkg
	if race {
		k += "/race"
	}
	if b, ok := c.bins[k]; ok {
		return b, nil
	}
	b, err := c.e.buildNative(pkg, c.dir, race)
	if err != nil {
		return "", err
	}
	c.bins[k] = b
	return b, nil
}

func (c *checker) warn(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	fmt.Fprintln(os.Stderr, "note:", s)
	if len(c.warnings) < 40 {
		c.warnings = append(c.warnings, first(s, 400))
	}
}

func bad(outcome string) bool {
	switch outcome {
	case "assert", "panic", "hang", "crash", "race", "exit":
		return true
	}
	return false
}

func (c *checker) report(pkg string, j *Job, in []InVal, race bool, msg string, r nativeResult) {
	c.violation = append(c.violation, replayFile{Property: c.id, Pkg: pkg, Harness: j.Harness, Params: j.Params, Inputs: in,
		Race: race, Message: first(msg, 2000), Native: r.Outcome + " " + first(r.Msg, 2000), Text: showInputs(in)})
}

// confirm replays what the exploration reported on the real code; it returns the labels that could not be reproduced.
func (c *checker) confirm(j *Job) (ignore []string, err error) {
	var cs []nativeCase
	for _, ev := range j.Events {
		cs = append(cs, nativeCase{Harness: j.Harness, Params: j.Params, Inputs: ev.Inputs})
	}
	if len(cs) == 0 {
		return nil, nil
	}
	bin, err := c.bin(j.Pkg, false)
	if err != nil {
		return nil, err
	}
	rs := runNative(bin, c.dir, cs)
	t0 := time.Now()
	okLabel := map[string]bool{}
	for i, ev := range j.Events {
		r := rs[i]
		race := false
		if !bad(r.Outcome) && ev.ok {
			if ev.Kind == "race" {
				rb, err := c.bin(j.Pkg, true)
				if err != nil {
					c.warn("no race detector build: %v", err)
				} else {
					cc := cs[i]
					cc.Repeat = 20
					r = runNative(rb, c.dir, []nativeCase{cc})[0]
					race = true
				}
			} else if ev.Known == "" && ev.Kind != "hang" && time.Since(t0) < time.Minute {
				cc := cs[i]
				cc.Repeat = 300
				r = runNative(bin, c.dir, []nativeCase{cc})[0]
			}
		}
		key := ev.key()
		if !bad(r.Outcome) {
			c.unconfirmed++
			c.warn("%s: %s %s not reproduced natively (%s %s), inputs %s", j.Name, ev.Kind, first(ev.Msg, 200), r.Outcome, first(r.Msg, 100), showInputs(ev.Inputs))
			continue
		}
		okLabel[key] = true
		c.confirmed++
		known := r.Known
		if known != "" && c.known[known] {
			c.knownSeen[known]++
			continue
		}
		c.report(j.Pkg, j, ev.Inputs, race, ev.Kind+": "+ev.Msg, r)
	}
	for _, ev := range j.Events {
		if !okLabel[ev.key()] {
			ignore = append(ignore, ev.key())
		}
	}
	return ignore, nil
}

// sampleNative runs completed and undecided paths on the real code.
func (c *checker) sampleNative(j *Job) error {
	var cs []nativeCase
	for _, s := range j.samples {
		cs = append(cs, nativeCase{Harness: j.Harness, Params: j.Params, Inputs: s.Inputs})
	}
	max := 150
	for i, in := range j.unsupIn {
		if i < max {
			cs = append(cs, nativeCase{Harness: j.Harness, Params: j.Params, Inputs: in})
		}
	}
	if len(cs) == 0 {
		return nil
	}
	bin, err := c.bin(j.Pkg, false)
	if err != nil {
		return err
	}
	rs := runNative(bin, c.dir, cs)
	for i, r := range rs {
		in := cs[i].Inputs
		if bad(r.Outcome) {
			if r.Known != "" && c.known[r.Known] {
				c.knownSeen[r.Known]++
				continue
			}
			if strings.Contains(r.Msg, "vrt: no input left") || strings.Contains(r.Msg, "vrt: input is") {
				c.mismatches++
				c.warn("%s: native run takes another path: %s on %s", j.Name, first(r.Msg, 80), showInputs(in))
				continue
			}
			c.report(j.Pkg, j, in, false, "native run", r)
			continue
		}
		if i >= len(j.samples) {
			c.decidedNative++
			continue
		}
		s := j.samples[i]
		if r.Outcome != "ok" || strings.Join(r.Obs, "\x00") != strings.Join(s.Obs, "\x00") || strings.Join(r.Reach, ",") != strings.Join(s.Reach, ",") {
			c.mismatches++
			c.warn("%s: engine and native run differ on %s: %q %v / %s %q %v", j.Name, showInputs(in), s.Obs, s.Reach, r.Outcome, r.Obs, r.Reach)
			continue
		}
		c.validated++
		if len(c.samples) < 60 && i < 3 {
			c.samples = append(c.samples, map[string]any{"job": j.Name, "input": first(showInputs(in), 200), "reached": strings.Join(s.Reach, ","), "observed": first(strings.Join(s.Obs, "; "), 160)})
		}
	}
	return nil
}

func (ev *Event) key() string {
	label := ev.Msg
	if i := strings.Index(label, ": "); i >= 0 {
		label = label[:i]
	}
	return ev.Kind + "|" + ev.Known + "|" + label
}

func runCheck(verif, id string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	specs := checks[id]
	if specs == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	total := 150 * time.Second
	if tier == "thorough" {
		total = 780 * time.Second
	}
	deadline := t0.Add(total)
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	old, _ := filepath.Glob(filepath.Join(evDir, "replay", id+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	c := &checker{id: id, tier: tier, seed: seed, dir: dir, bins: map[string]string{}, known: map[string]bool{}, knownSeen: map[string]int{}, fns: map[string]int64{}}
	kn := readKnown(filepath.Join(verif, "known_findings.txt"), id)
	for _, k := range kn {
		c.known[k.id] = true
	}
	qlogOn = true
	pkg := specs[0].pkg
	if pkg == "" {
		pkg = "verif"
	}
	c.e, err = loadEngine(verif, repoDir(), dir, pkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer c.e.stop()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	timedOut := 0
	for _, sp := range specs {
		if sp.tier == "q" && tier != "quick" || sp.tier == "t" && tier != "thorough" {
			continue
		}
		left := time.Until(deadline)
		if left < 2*time.Second {
			c.warn("%s %s not run: out of time", sp.h, sp.p)
			timedOut++
			continue
		}
		ignore := map[string]bool{}
		budget := time.Duration(sp.secs) * time.Second
		if budget == 0 {
			budget = 15 * time.Second
		}
		if tier == "thorough" && sp.tier == "" {
			budget *= 4
		}
		for try := 0; try < 3; try++ {
			if left = time.Until(deadline); budget > left {
				budget = left
			}
			if budget < time.Second {
				break
			}
			j := &Job{Name: sp.h + "[" + sp.p + "]", Pkg: pkg, Harness: sp.h, Params: parseParams(sp.p), Budget: budget, Limit: 12_000_000}
			j.Limit += 2000 * int64(j.Params["pad"])
			j.ignore = ignore
			if err := j.Run(c.e, n, seed); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			budget -= j.dur
			if j.bug != "" {
				c.warn("%s: engine: %s", j.Name, j.bug)
			}
			ig, err := c.confirm(j)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			if try == 0 || len(ig) == 0 || len(c.violation) > 0 {
				if err := c.sampleNative(j); err != nil {
					fmt.Fprintln(os.Stderr, err)
					return 2
				}
			}
			for _, k := range ig {
				ignore[k] = true
			}
			again := len(ig) > 0 && len(c.violation) == 0 && j.stoppedEarly()
			if !again {
				c.jobs = append(c.jobs, j)
				for f, k := range j.fns {
					c.fns[f.name] += k
				}
				if j.timedOut {
					timedOut++
				}
				for _, l := range strings.Split(sp.reaches, ",") {
					if l != "" && j.reach[l] == 0 && len(j.Events) == 0 {
						c.warn("%s: never reached %q", j.Name, l)
					}
				}
				if os.Getenv("VERIF_VERBOSE") != "" {
					fmt.Fprintf(os.Stderr, "%-50s paths %d infeasible %d unsupported %d limited %d left %d timedOut %v %v reach %v events %d\n", j.Name, j.Paths, j.Infeasible, j.Unsupported, j.Limited, j.Left, j.timedOut, j.dur.Round(10*time.Millisecond), j.reach, len(j.Events))
					for m, k := range j.UnsupMsgs {
						fmt.Fprintf(os.Stderr, "    %6d %s\n", k, first(m, 300))
					}
				}
				break
			}
		}
		if len(c.violation) > 0 {
			break
		}
	}
	c.crossCheck()
	for i := range c.violation {
		v := &c.violation[i]
		if i >= 5 {
			break
		}
		f := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", id, i+1))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("%s\n  input  %s\n  native %s\n", v.Message, v.Text, v.Native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	}
	for _, k := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
	}
	c.writeEvidence(filepath.Join(evDir, id+".json"), time.Since(t0), timedOut, kn)
	if len(c.violation) > 0 {
		return 1
	}
	fmt.Printf("%s held on everything explored (%s, %.1f s)\n", id, tier, time.Since(t0).Seconds())
	return 0
}

func (j *Job) stoppedEarly() bool { return !j.stopAt.IsZero() }

// crossCheck puts a selection of the solver queries to a second solver.
func (c *checker) crossCheck() {
	qlogMu.Lock()
	defer qlogMu.Unlock()
	if len(qlog) == 0 {
		return
	}
	max := 60
	if c.tier == "thorough" {
		max = 400
	}
	step := len(qlog)/max + 1
	var sb strings.Builder
	sb.WriteString("(set-logic QF_BV)\n")
	var want []int8
	for i := 0; i < len(qlog); i += step {
		q := qlog[i]
		sb.WriteString("(push 1)\n")
		sb.WriteString(declText(q.decls))
		sb.WriteString(q.text)
		sb.WriteString("(check-sat)\n(pop 1)\n")
		want = append(want, q.r)
	}
	f := filepath.Join(c.dir, "cross.smt2")
	os.WriteFile(f, []byte(sb.String()), 0o644)
	cmd := exec.Command("cvc5", "--incremental", "--tlimit-per=5000", "--lang=smt2", f)
	out, err := cmd.Output()
	if err != nil && len(out) == 0 {
		c.warn("cvc5: %v", err)
		return
	}
	i := 0
	for _, l := range strings.Fields(string(out)) {
		if i >= len(want) {
			break
		}
		got := int8(-2)
		switch l {
		case "sat":
			got = rSat
		case "unsat":
			got = rUnsat
		case "unknown":
			got = rUnknown
		default:
			continue
		}
		switch {
		case got == rUnknown || want[i] == rUnknown:
			c.crossUnknown++
		case got == want[i]:
			c.crossAgree++
		default:
			c.crossDisagree++
		}
		i++
	}
	if c.crossDisagree > 0 {
		c.warn("cvc5 disagrees with z3 on %d queries", c.crossDisagree)
	}
}

func (c *checker) writeEvidence(file string, wall time.Duration, timedOut int, kn []knownEntry) {
	var states, trans, paths, infeas, unsup, limited, asserts, merged, left int64
	var jobs []map[string]any
	for _, j := range c.jobs {
		states += j.Paths
		paths += j.Paths
		trans += j.Branches
		infeas += j.Infeasible
		unsup += j.Unsupported
		limited += j.Limited
		asserts += j.Asserts
		merged += j.Merged
		left += int64(j.Left)
		m := map[string]any{"harness": j.Harness, "bounds": j.Params, "paths": j.Paths, "unsupported": j.Unsupported, "limited": j.Limited,
			"instructions": j.States, "forks": j.Forks, "assertions": j.Asserts, "seconds": round2(j.dur), "complete": !j.timedOut && j.Left == 0 && j.Unsupported == 0 && j.Limited == 0 && !j.stoppedEarly(), "branches_left": j.Left, "reached": j.reach}
		if len(j.UnsupMsgs) > 0 {
			var ms []string
			for k, n := range j.UnsupMsgs {
				ms = append(ms, fmt.Sprintf("%d× %s", n, first(k, 160)))
			}
			sort.Strings(ms)
			if len(ms) > 5 {
				ms = ms[:5]
			}
			m["undecided"] = ms
		}
		jobs = append(jobs, m)
	}
	type fc struct {
		n string
		c int64
	}
	var fl []fc
	for f, k := range c.fns {
		f = strings.Replace(f, "goclj/zz_cli.", "goclj/cljfmt.", -1)
		if strings.Contains(f, "goclj/zz_") {
			continue
		}
		fl = append(fl, fc{f, k})
	}
	sort.Slice(fl, func(i, k int) bool { return fl[i].n < fl[k].n })
	var own, lib []string
	for _, f := range fl {
		s := strings.Replace(f.n, modPath, "goclj", -1)
		if strings.Contains(f.n, modPath) {
			own = append(own, s)
		} else {
			lib = append(lib, s)
		}
	}
	if len(lib) > 120 {
		lib = append(lib[:120], fmt.Sprintf("and %d more", len(lib)-120))
	}
	var ks []string
	for _, k := range kn {
		ks = append(ks, k.id)
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, map[string]any{"note": "no completed path was sampled"})
	}
	ev := map[string]any{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking", "wall_s": round2(wall), "violations": len(c.violation),
		"assumptions": []string{
			"fmt, errors.Is, strings.Index and a few sort and os entry points are replaced by models in harness/vrt; everything else is executed from its SSA form, library code included",
			"inputs outside the stated bounds are not covered",
			"region merging, pure-function summaries and domain reasoning decide most conditions before the solver is asked",
		},
		"coverage": map[string]any{
			"states": paths, "transitions": trans, "traces_validated_against_impl": c.validated, "samples": c.samples,
			"infeasible_paths": infeas, "undecided_paths": unsup, "paths_over_instruction_limit": limited, "undecided_paths_run_natively": c.decidedNative,
			"assertions_checked": asserts, "branches_merged": merged, "branches_left": left, "jobs_out_of_time": timedOut, "jobs": jobs,
			"functions_encoded": own, "library_functions_encoded": lib,
			"solver": map[string]any{"name": "z3", "queries": sstats.queries, "sat": sstats.sat, "unsat": sstats.unsat, "unknown": sstats.unknown, "errors": sstats.errors,
				"cache_hits": sstats.cacheHits, "seconds": round2(time.Duration(sstats.nanos)), "cvc5_agree": c.crossAgree, "cvc5_disagree": c.crossDisagree, "cvc5_unknown": c.crossUnknown},
			"engine_native_mismatches": c.mismatches, "counterexamples_confirmed": c.confirmed, "counterexamples_not_reproduced": c.unconfirmed,
			"known_findings": ks, "known_findings_met": c.knownSeen, "warnings": c.warnings,
			"exhaustive": timedOut == 0 && left == 0 && unsup == 0 && limited == 0 && len(c.violation) == 0,
		},
	}
	_ = states
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(file, b, 0o644)
}

func round2(d time.Duration) float64 {
	return float64(int64(d.Seconds()*100)) / 100
}

// replay runs one recorded violation on the real code.
func replay(verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	e := &Engine{verif: verif, repo: repoDir()}
	bin, err := e.buildNative(r.Pkg, dir, r.Race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rs := runNative(bin, dir, []nativeCase{{Harness: r.Harness, Params: r.Params, Inputs: r.Inputs, Repeat: 300}})
	fmt.Printf("property %s\nreported %s\ninput    %s\nnative   %s %s\n", r.Property, r.Message, r.Text, rs[0].Outcome, rs[0].Msg)
	if bad(rs[0].Outcome) {
		return 1
	}
	return 0
}
