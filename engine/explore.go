package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// InVal is one recorded input of a path.
type InVal struct {
	K string `json:"k"`
	V int64  `json:"v"`
}

// Event is something a path reported.
type Event struct {
	Job    string
	Kind   string
	Msg    string
	Known  string
	Inputs []InVal
	ok     bool // a model was found
}

// Sample is a completed path with one concrete input and the outputs predicted for it.
type Sample struct {
	Inputs []InVal
	Obs    []string
	Reach  []string
}

// Job is one symbolic exploration of a harness.
type Job struct {
	Name    string
	Pkg     string // "verif" or "cljfmt"
	Harness string
	Params  map[string]int
	Limit   int64 // instructions per path
	Budget  time.Duration

	ignore   map[string]bool // event keys that could not be reproduced natively
	fn       *ssa.Function
	deadline time.Time
	mu       sync.Mutex
	cond     *sync.Cond
	queue    [][]decision
	active   int
	hungry   int32
	stop     int32
	stopAt   time.Time
	timedOut bool

	Paths, Infeasible, Unsupported, Limited, Asserts, Instrs, Forks, Branches, Merged, States int64
	UnsupMsgs                                                                                 map[string]int64
	unsupIn                                                                                   [][]InVal
	Events                                                                                    []Event
	evCount                                                                                   map[string]int
	reach                                                                                     map[string]int64
	samples                                                                                   []Sample
	sampleSeen                                                                                int64
	fns                                                                                       map[*Fn]int64
	Left                                                                                      int
	dur                                                                                       time.Duration
	bug                                                                                       string
}

var maxSamples = 24

func (m *Machine) inputVals(extra []*Expr) ([]InVal, bool) {
	mod, ok := m.fullModel(extra)
	if !ok {
		return nil, false
	}
	out := make([]InVal, 0, len(m.inputs))
	for _, in := range m.inputs {
		v := in.v.n
		if in.id >= 0 {
			v = mod[in.id]
		}
		iv := int64(v)
		if in.kind == "rune" {
			iv = int64(int32(v))
		}
		out = append(out, InVal{in.kind, iv})
	}
	return out, true
}

// event records a violation or another noteworthy fact of the current path.
func (m *Machine) event(kind, msg string, extra []*Expr) {
	j := m.job
	if j == nil {
		panic(engineBug("event outside a job: " + kind + " " + msg))
	}
	label := msg
	if i := strings.Index(label, ": "); i >= 0 {
		label = label[:i]
	}
	key := kind + "|" + m.known + "|" + label
	if j.ignore[key] {
		return
	}
	j.mu.Lock()
	n := j.evCount[key]
	j.evCount[key]++
	if m.known == "" && kind != "inconclusive" && j.stopAt.IsZero() {
		j.stopAt = time.Now().Add(8 * time.Second)
	}
	j.mu.Unlock()
	if n >= 4 {
		return
	}
	in, ok := m.inputVals(extra)
	j.mu.Lock()
	j.Events = append(j.Events, Event{Job: j.Name, Kind: kind, Msg: msg, Known: m.known, Inputs: in, ok: ok})
	j.mu.Unlock()
}

func (m *Machine) uncaught(g *Goroutine, ps *panicState) {
	msg := "panic"
	if ifc, _ := ps.val.p.(*Iface); ifc != nil {
		switch {
		case ifc.t == m.p.rtErr:
			msg = goStr(ifc.v.p.(*Agg).c[0])
		case ifc.t.kind == kString:
			msg = m.showStr(ifc.v)
		default:
			msg = "value of type " + ifc.t.str
		}
	}
	msg = strings.Map(func(r rune) rune {
		if r < 32 || r > 126 {
			return '?'
		}
		return r
	}, msg)
	m.event("panic", fmt.Sprintf("%s; %s", msg, ps.stack), nil)
}

func newMachine(p *Program, wid int) *Machine {
	m := &Machine{p: p, x: newEctx(), wid: wid, fnExec: map[*Fn]int64{}, limit: 1 << 40}
	return m
}

// initGlobals runs the package initialisers.
func (m *Machine) initGlobals(pkgs ...*ssa.Package) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(pathAbort); ok {
				err = fmt.Errorf("package initialisation: %s %s (%s) %v", b.kind, b.msg, m.stackOf(m.cur), m.job.Events)
				return
			}
			fmt.Fprintf(os.Stderr, "init: %v at %s\n", r, m.stackOf(m.cur))
			panic(r)
		}
	}()
	m.initing = true
	m.job = &Job{Name: "init", evCount: map[string]int{}}
	for _, pk := range pkgs {
		g := &Goroutine{id: 0}
		m.gs = []*Goroutine{g}
		m.cur = g
		m.push(g, m.p.fn(pk.Func("init")), nil, nil, -1)
		m.run()
	}
	if len(m.job.Events) > 0 {
		return fmt.Errorf("package initialisation: %s %s", m.job.Events[0].Kind, m.job.Events[0].Msg)
	}
	m.initing = false
	m.gs = nil
	m.trail = m.trail[:0]
	m.serial, m.top, m.base = 1, 1, 1
	m.pathIns = 0
	return nil
}

func (m *Machine) reset() {
	m.undo(0)
	m.cps = m.cps[:0]
	m.top = m.base
	m.epoch++
	m.pend, m.pendIdx = m.pend[:0], 0
	m.decs = nil
	m.preIdx = 0
	m.vst = m.vst[:0]
	m.varW = m.varW[:0]
	m.multi = m.multi[:0]
	m.inputs = m.inputs[:0]
	m.obs = m.obs[:0]
	m.reach = m.reach[:0]
	m.pathIns = 0
	m.handlers = m.handlers[:0]
	m.mapOrder, m.race, m.known = false, false, ""
}

// explore runs all paths below a decision prefix.
func (m *Machine) explore(prefix []decision, rng *rand.Rand) {
	j := m.job
	m.reset()
	m.prefix = prefix
	g := &Goroutine{id: 0}
	m.gs = []*Goroutine{g}
	m.cur = g
	m.push(g, m.p.fn(j.fn), nil, nil, -1)
	paths := 0
	for {
		kind, msg := m.runPath()
		atomic.AddInt64(&j.States, m.pathIns)
		switch kind {
		case "done", "end":
			atomic.AddInt64(&j.Paths, 1)
			m.finishPath(kind, rng)
		case "infeasible":
			atomic.AddInt64(&j.Infeasible, 1)
		case "limit":
			atomic.AddInt64(&j.Limited, 1)
			j.note("limit: " + msg)
			m.undecided()
		case "unsupported":
			atomic.AddInt64(&j.Unsupported, 1)
			j.note(msg)
			m.undecided()
		}
		if j.stopped() {
			left := 0
			for _, c := range m.cps {
				left += len(c.alts)
			}
			j.mu.Lock()
			j.Left += left
			j.mu.Unlock()
			return
		}
		m.donate()
		if paths++; paths >= sliceLen && m.shelve() {
			return
		}
		if !m.backtrack() {
			return
		}
	}
}

// sliceLen is the number of paths that a worker follows in one part of the tree before it goes on in another.
// A job whose time ends before its tree does has then been in all parts of it.
const sliceLen = 64

// shelve queues all untried alternatives of the current path.
func (m *Machine) shelve() bool {
	j := m.job
	j.mu.Lock()
	defer j.mu.Unlock()
	if len(j.queue) > 200000 {
		return false
	}
	for _, cp := range m.cps {
		for _, a := range cp.alts {
			j.queue = append(j.queue, append(append([]decision(nil), m.decs[:cp.decs]...), a.d))
			j.cond.Signal()
		}
		cp.alts = nil
	}
	return true
}

// undecided keeps an input of a path that could not be followed to its end.
func (m *Machine) undecided() {
	j := m.job
	j.mu.Lock()
	n := len(j.unsupIn)
	j.mu.Unlock()
	if n >= 300 {
		return
	}
	if in, ok := m.inputVals(nil); ok {
		j.mu.Lock()
		j.unsupIn = append(j.unsupIn, in)
		j.mu.Unlock()
	}
}

func (j *Job) note(msg string) {
	j.mu.Lock()
	j.UnsupMsgs[msg]++
	j.mu.Unlock()
}

func (j *Job) stopped() bool {
	if atomic.LoadInt32(&j.stop) != 0 {
		return true
	}
	now := time.Now()
	if now.After(j.deadline) {
		j.mu.Lock()
		j.timedOut = true
		j.mu.Unlock()
		atomic.StoreInt32(&j.stop, 1)
		return true
	}
	j.mu.Lock()
	s := !j.stopAt.IsZero() && now.After(j.stopAt)
	j.mu.Unlock()
	if s {
		atomic.StoreInt32(&j.stop, 1)
	}
	return s
}

// donate hands untried alternatives near the root to idle workers.
func (m *Machine) donate() {
	j := m.job
	if atomic.LoadInt32(&j.hungry) == 0 {
		return
	}
	give := 0
	for _, cp := range m.cps {
		for len(cp.alts) > 0 && give < 8 {
			n := len(cp.alts) - 1
			a := cp.alts[n]
			cp.alts = cp.alts[:n:n]
			pre := append(append([]decision(nil), m.decs[:cp.decs]...), a.d)
			j.mu.Lock()
			j.queue = append(j.queue, pre)
			j.mu.Unlock()
			j.cond.Signal()
			give++
		}
		if give >= 8 || atomic.LoadInt32(&j.hungry) <= int32(give) {
			break
		}
	}
}

func (m *Machine) finishPath(kind string, rng *rand.Rand) {
	j := m.job
	j.mu.Lock()
	for _, l := range m.reach {
		j.reach[l]++
	}
	take := false
	if kind == "done" && m.known == "" {
		j.sampleSeen++
		if len(j.samples) < maxSamples {
			take = true
		} else if rng.Int63n(j.sampleSeen) < int64(maxSamples) {
			take = true
		}
	}
	j.mu.Unlock()
	if !take {
		return
	}
	mod, ok := m.fullModel(nil)
	if !ok {
		return
	}
	in, _ := m.inputVals(nil)
	s := Sample{Inputs: in, Reach: append([]string(nil), m.reach...)}
	for _, o := range m.obs {
		var sb strings.Builder
		for _, b := range strBytes(o.v) {
			x := b.n
			if b.p != nil {
				x = eval(b.p.(*Expr), func(id int32) uint64 { return mod[id] })
			}
			sb.WriteByte(byte(x))
		}
		s.Obs = append(s.Obs, o.label+"="+sb.String())
	}
	j.mu.Lock()
	if len(j.samples) < maxSamples {
		j.samples = append(j.samples, s)
	} else {
		j.samples[rng.Intn(maxSamples)] = s
	}
	j.mu.Unlock()
}

func (m *Machine) runPath() (kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathAbort:
				kind, msg = r.kind, r.msg
				if kind == "unsupported" {
					msg += " at " + m.stackOf(m.cur)
				}
			default:
				if m.job.bug == "" {
					m.job.bug = fmt.Sprintf("%v at %s", r, m.stackOf(m.cur))
				}
				if os.Getenv("ENGINE_DEBUG") != "" {
					panic(r)
				}
				kind, msg = "unsupported", fmt.Sprintf("engine: %v", r)
			}
		}
	}()
	m.run()
	return "done", ""
}

// Run explores the job with n workers.
func (j *Job) Run(eng *Engine, n int, seed int64) error {
	t0 := time.Now()
	j.cond = sync.NewCond(&j.mu)
	j.evCount = map[string]int{}
	j.reach = map[string]int64{}
	j.UnsupMsgs = map[string]int64{}
	j.fns = map[*Fn]int64{}
	if j.Limit == 0 {
		j.Limit = 3_000_000 + 2000*int64(j.Params["pad"])
	}
	if j.Budget == 0 {
		j.Budget = 60 * time.Second
	}
	pk := eng.pkgs[j.Pkg]
	if pk == nil {
		return fmt.Errorf("no package %q", j.Pkg)
	}
	j.fn = pk.Func(j.Harness)
	if j.fn == nil {
		return fmt.Errorf("no harness %s in %s", j.Harness, j.Pkg)
	}
	ms, err := eng.machines(j.Pkg, n)
	if err != nil {
		return err
	}
	j.deadline = time.Now().Add(j.Budget)
	j.queue = [][]decision{{}}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		m := ms[i]
		m.job = j
		m.limit = j.Limit
		m.fnExec = map[*Fn]int64{}
		a0, f0, b0, g0 := m.asserts, m.forks, m.branches, m.merged
		rng := rand.New(rand.NewSource(seed*1000 + int64(i)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				pre, ok := j.take(rng)
				if !ok {
					break
				}
				m.explore(pre, rng)
				j.release()
			}
			m.reset()
			j.mu.Lock()
			j.Asserts += m.asserts - a0
			j.Forks += m.forks - f0
			j.Branches += m.branches - b0
			j.Merged += m.merged - g0
			for f, c := range m.fnExec {
				j.fns[f] += c
			}
			j.mu.Unlock()
		}()
	}
	wg.Wait()
	j.mu.Lock()
	j.Left += len(j.queue)
	j.mu.Unlock()
	j.dur = time.Since(t0)
	return nil
}

// take picks an unexplored part of the tree: any, or the one nearest to the root among some.
func (j *Job) take(rng *rand.Rand) ([]decision, bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	for len(j.queue) == 0 {
		if j.active == 0 || atomic.LoadInt32(&j.stop) != 0 {
			j.cond.Broadcast()
			return nil, false
		}
		atomic.AddInt32(&j.hungry, 1)
		j.cond.Wait()
		atomic.AddInt32(&j.hungry, -1)
	}
	if atomic.LoadInt32(&j.stop) != 0 {
		j.cond.Broadcast()
		return nil, false
	}
	n := len(j.queue) - 1
	k := rng.Intn(n + 1)
	if rng.Intn(2) == 0 {
		for i := 0; i < 7; i++ {
			if o := rng.Intn(n + 1); len(j.queue[o]) < len(j.queue[k]) {
				k = o
			}
		}
	}
	p := j.queue[k]
	j.queue[k] = j.queue[n]
	j.queue[n] = nil
	j.queue = j.queue[:n]
	j.active++
	return p, true
}

func (j *Job) release() {
	j.mu.Lock()
	j.active--
	if j.active == 0 || atomic.LoadInt32(&j.stop) != 0 {
		j.cond.Broadcast()
	}
	j.mu.Unlock()
}

// ---- loading ----

// Engine is the loaded program.
type Engine struct {
	p      *Program
	pkgs   map[string]*ssa.Package
	vrt    *ssa.Package
	ms     map[string][]*Machine
	load   time.Duration
	verif  string
	repo   string
	ovFile string
}

var harnessDir = map[string]string{"verif": "zz_verif", "cli": "zz_clih"}

const modPath = "github.com/cespare/goclj"

// loadEngine loads the code under test together with a harness package.
func loadEngine(verif, repo, dir, pkg string) (*Engine, error) {
	t0 := time.Now()
	ov, err := overlayMap(verif, repo, dir, pkg, false)
	if err != nil {
		return nil, err
	}
	ovb := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ovb[v] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ovb,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	pats := []string{"./" + harnessDir[pkg], "./zz_vrt"}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading /repo: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions*0)
	prog.Build()
	e := &Engine{verif: verif, repo: repo, pkgs: map[string]*ssa.Package{}, ms: map[string][]*Machine{}}
	for i, p := range ps {
		switch {
		case strings.HasSuffix(p.PkgPath, "/"+harnessDir[pkg]):
			e.pkgs[pkg] = sp[i]
		case strings.HasSuffix(p.PkgPath, "/zz_vrt"):
			e.vrt = sp[i]
		}
	}
	if e.vrt == nil {
		return nil, fmt.Errorf("vrt package not loaded")
	}
	p := &Program{prog: prog, fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]int32{}, modPath: modPath,
		skipInit: map[string]bool{}, redirect: map[string]*ssa.Function{}}
	p.glist = append(p.glist, nil) // index 0 is not used
	for from, to := range redirects {
		f := e.vrt.Func(to)
		if f == nil {
			return nil, fmt.Errorf("redirect target %s missing", to)
		}
		p.redirect[from] = f
	}
	rt := e.vrt.Type("RuntimeError")
	p.rtErr = tinfo(rt.Type())
	e.p = p
	e.load = time.Since(t0)
	return e, nil
}

func (e *Engine) machines(pkg string, n int) ([]*Machine, error) {
	for len(e.ms[pkg]) < n {
		k := n - len(e.ms[pkg])
		ms := make([]*Machine, k)
		errs := make([]error, k)
		var wg sync.WaitGroup
		for i := range ms {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				m := newMachine(e.p, i)
				errs[i] = m.initGlobals(e.vrt, e.pkgs[pkg])
				ms[i] = m
			}(i)
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return nil, err
			}
		}
		e.ms[pkg] = append(e.ms[pkg], ms...)
	}
	return e.ms[pkg][:n], nil
}

func (e *Engine) stop() {
	for _, ms := range e.ms {
		for _, m := range ms {
			m.solver.stop()
		}
	}
}

// ---- native execution ----

type nativeCase struct {
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []InVal        `json:"inputs"`
	Repeat  int            `json:"repeat,omitempty"` // run until it fails, at most so often
}

type nativeResult struct {
	Outcome string   `json:"outcome"` // ok, assert, panic, hang, crash, infeasible
	Msg     string   `json:"msg"`
	Known   string   `json:"known"`
	Obs     []string `json:"obs"`
	Reach   []string `json:"reach"`
}

// buildNative compiles the harness package against /repo's current tree.
func (e *Engine) buildNative(pkg, dir string, race bool) (string, error) {
	ovf := filepath.Join(dir, "overlay.json")
	if err := writeOverlay(e.verif, e.repo, dir, pkg, ovf); err != nil {
		return "", err
	}
	target := "./" + harnessDir[pkg]
	bin := filepath.Join(dir, "native_"+pkg)
	if pkg == "cli" {
		c := exec.Command("go", "build", "-o", filepath.Join(dir, "cljfmt_real"), "./cljfmt")
		c.Dir = e.repo
		c.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
		if out, err := c.CombinedOutput(); err != nil {
			return "", fmt.Errorf("native build: %v: %s", err, out)
		}
	}
	args := []string{"build", "-overlay", ovf}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local")
	if race {
		bin += "_race"
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	args = append(args, "-o", bin, target)
	c := exec.Command("go", args...)
	c.Dir = e.repo
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, out)
	}
	return bin, nil
}

// runNative executes cases with the native binary, restarting it after a crash.
func runNative(bin, dir string, cases []nativeCase) []nativeResult {
	res := make([]nativeResult, len(cases))
	done := 0
	stuck := 0
	for done < len(cases) && stuck < 4 {
		in := filepath.Join(dir, "cases.jsonl")
		outf := filepath.Join(dir, "results.jsonl")
		os.Remove(outf)
		var sb strings.Builder
		for _, c := range cases[done:] {
			b, _ := json.Marshal(c)
			sb.Write(b)
			sb.WriteByte('\n')
		}
		os.WriteFile(in, []byte(sb.String()), 0o644)
		c := exec.Command(bin)
		c.Env = append(os.Environ(), "VERIF_REPLAY="+in, "VERIF_RESULTS="+outf, "GORACE=halt_on_error=1")
		c.Dir = dir
		var stderr strings.Builder
		c.Stderr = &stderr
		c.Stdout = nil
		timer := time.AfterFunc(300*time.Second, func() { c.Process.Kill() })
		err := c.Run()
		timer.Stop()
		b, _ := os.ReadFile(outf)
		n := 0
		for _, line := range strings.Split(string(b), "\n") {
			if line == "" {
				continue
			}
			var r nativeResult
			if json.Unmarshal([]byte(line), &r) != nil {
				continue
			}
			if done+n < len(res) {
				res[done+n] = r
				n++
			}
		}
		done += n
		if n > 0 && res[done-1].Outcome == "hang" {
			stuck++
		}
		if done < len(cases) && (err != nil || n == 0) {
			msg := stderr.String()
			if len(msg) > 1500 {
				msg = msg[:1500]
			}
			oc := "crash"
			if strings.Contains(msg, "DATA RACE") {
				oc = "race"
			}
			if err == nil && msg == "" {
				msg = "native run ended without a result"
			}
			if n > 0 && res[done-1].Outcome == "hang" {
				continue
			}
			res[done] = nativeResult{Outcome: oc, Msg: msg}
			stuck++
			done++
		}
	}
	return res
}

func pkgPathOf(f *Fn) string { return f.pkg }

func sortedFns(fns map[*Fn]int64) []*Fn {
	var out []*Fn
	for f := range fns {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

var _ types.Type
