package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Statistics of all solver work in this process.
type solverStats struct {
	queries, sat, unsat, unknown, errors int64
	cacheHits                            int64
	nanos                                int64
}

var sstats solverStats

// z3proc is one solver process driven over pipes.
type z3proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	wc  io.WriteCloser
	out *bufio.Reader
}

var solverBin = "z3"
var solverTimeoutMS = 20000

func startZ3() (*z3proc, error) {
	cmd := exec.Command(solverBin, "-in", "-t:"+strconv.Itoa(solverTimeoutMS))
	w, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	z := &z3proc{cmd: cmd, in: bufio.NewWriterSize(w, 1<<16), wc: w, out: bufio.NewReaderSize(r, 1<<16)}
	z.in.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return z, nil
}

func (z *z3proc) stop() {
	if z == nil {
		return
	}
	z.wc.Close()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

const (
	rUnsat int8 = iota
	rSat
	rUnknown
)

// query asks one question: decls is a list of (name,width); body is a list of assertions.
func (z *z3proc) query(decls []declT, asserts string) (int8, []uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&sstats.nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&sstats.queries, 1)
	w := z.in
	w.WriteString("(push)\n")
	w.WriteString(declText(decls))
	w.WriteString(asserts)
	w.WriteString("(check-sat)\n(echo \"==\")\n")
	w.Flush()
	res := rUnknown
	for {
		line, err := z.out.ReadString('\n')
		if err != nil {
			atomic.AddInt64(&sstats.errors, 1)
			return rUnknown, nil
		}
		line = strings.TrimSpace(line)
		if line == "==" || line == "\"==\"" {
			break
		}
		switch {
		case line == "sat":
			res = rSat
		case line == "unsat":
			res = rUnsat
		case strings.HasPrefix(line, "(error"):
			atomic.AddInt64(&sstats.errors, 1)
			fmt.Printf("solver error: %s\n", line)
			res = rUnknown
		}
	}
	var model []uint64
	if res == rSat && len(decls) > 0 {
		w.WriteString("(get-value (")
		for _, d := range decls {
			w.WriteString(d.name)
			w.WriteByte(' ')
		}
		w.WriteString("))\n(echo \"==\")\n")
		w.Flush()
		var sb strings.Builder
		for {
			line, err := z.out.ReadString('\n')
			if err != nil {
				return rUnknown, nil
			}
			if t := strings.TrimSpace(line); t == "==" || t == "\"==\"" {
				break
			}
			sb.WriteString(line)
		}
		model = parseModel(sb.String(), decls)
		if model == nil {
			atomic.AddInt64(&sstats.errors, 1)
			res = rUnknown
		}
	}
	w.WriteString("(pop)\n")
	switch res {
	case rSat:
		atomic.AddInt64(&sstats.sat, 1)
	case rUnsat:
		atomic.AddInt64(&sstats.unsat, 1)
	default:
		atomic.AddInt64(&sstats.unknown, 1)
	}
	return res, model
}

func declText(decls []declT) string {
	var sb strings.Builder
	for _, d := range decls {
		if d.w == 0 {
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", d.name)
		} else {
			fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", d.name, d.w)
		}
	}
	return sb.String()
}

type declT struct {
	name string
	w    uint8
}

func parseModel(s string, decls []declT) []uint64 {
	out := make([]uint64, len(decls))
	for i, d := range decls {
		j := strings.Index(s, "("+d.name+" ")
		if j < 0 {
			return nil
		}
		rest := strings.TrimSpace(s[j+len(d.name)+2:])
		e := strings.IndexAny(rest, ")")
		if e < 0 {
			return nil
		}
		tok := strings.TrimSpace(rest[:e])
		switch {
		case tok == "true":
			out[i] = 1
		case tok == "false":
			out[i] = 0
		case strings.HasPrefix(tok, "#x"):
			v, err := strconv.ParseUint(tok[2:], 16, 64)
			if err != nil {
				return nil
			}
			out[i] = v
		case strings.HasPrefix(tok, "#b"):
			v, err := strconv.ParseUint(tok[2:], 2, 64)
			if err != nil {
				return nil
			}
			out[i] = v
		default:
			return nil
		}
	}
	return out
}

// ---- constraint state of one variable, shared by all workers ----

type vstate struct {
	mu    sync.Mutex
	w     uint8
	text  []string // constraints over x
	kids  map[int32]*vkid
	wit   uint64
	depth int
	unk   bool
}

type vkid struct {
	st  *vstate // nil: unsat
	unk bool
}

var (
	tmplMu  sync.Mutex
	tmplIDs = map[string]int32{}

	rootMu sync.Mutex
	roots  = map[uint8]*vstate{}

	compCache sync.Map // canonical component text -> *compRes
)

type compRes struct {
	r     int8
	model []uint64
}

func rootState(w uint8) *vstate {
	rootMu.Lock()
	defer rootMu.Unlock()
	s := roots[w]
	if s == nil {
		s = &vstate{w: w, kids: map[int32]*vkid{}}
		roots[w] = s
	}
	return s
}

func tmplText(e *Expr) string {
	var sb strings.Builder
	(&smtPrinter{name: func(int32) string { return "x" }}).print(&sb, e)
	return sb.String()
}

func tmplOf(e *Expr) int32 {
	if e.tmpl != 0 {
		return e.tmpl
	}
	t := tmplText(e)
	tmplMu.Lock()
	id, ok := tmplIDs[t]
	if !ok {
		id = int32(len(tmplIDs) + 1)
		tmplIDs[t] = id
	}
	tmplMu.Unlock()
	e.tmpl = id
	return id
}

// extend returns the state after adding constraint e (over a single variable).
func (m *Machine) extend(s *vstate, e *Expr) *vkid {
	t := tmplOf(e)
	s.mu.Lock()
	k, ok := s.kids[t]
	if ok {
		s.mu.Unlock()
		atomic.AddInt64(&sstats.cacheHits, 1)
		return k
	}
	s.mu.Unlock()
	var text string
	// a solver model of the parent that satisfies e decides satisfiability
	if s.depth > 0 && !s.unk && eval(e, func(int32) uint64 { return s.wit }) == 1 {
		text = tmplText(e)
		k = &vkid{st: &vstate{w: s.w, text: append(append([]string(nil), s.text...), text), kids: map[int32]*vkid{}, wit: s.wit, depth: s.depth + 1}}
		atomic.AddInt64(&sstats.cacheHits, 1)
	} else {
		text = tmplText(e)
		var sb strings.Builder
		for _, q := range s.text {
			sb.WriteString("(assert " + q + ")\n")
		}
		sb.WriteString("(assert " + text + ")\n")
		r, model := m.z3().query([]declT{{"x", s.w}}, sb.String())
		m.logQuery([]declT{{"x", s.w}}, sb.String(), r)
		switch r {
		case rUnsat:
			k = &vkid{}
		case rSat:
			k = &vkid{st: &vstate{w: s.w, text: append(append([]string(nil), s.text...), text), kids: map[int32]*vkid{}, wit: model[0], depth: s.depth + 1}}
		default:
			k = &vkid{unk: true, st: &vstate{w: s.w, text: append(append([]string(nil), s.text...), text), kids: map[int32]*vkid{}, depth: s.depth + 1, unk: true}}
		}
	}
	s.mu.Lock()
	if k2, ok := s.kids[t]; ok {
		k = k2
	} else {
		s.kids[t] = k
	}
	s.mu.Unlock()
	return k
}

// vnode is the per-path list of single-variable constraints of a variable.
type vnode struct {
	st   *vstate
	e    *Expr
	prev *vnode
}

func splitConj(c *Ectx, e *Expr, out []*Expr) []*Expr {
	switch e.op {
	case oAnd:
		return splitConj(c, e.b, splitConj(c, e.a, out))
	case oNot:
		if e.a.op == oOr {
			return splitConj(c, c.Not(e.a.b), splitConj(c, c.Not(e.a.a), out))
		}
	}
	return append(out, e)
}

// addPC adds e to the path condition; it must be satisfiable together with it.
func (m *Machine) addPC(e *Expr) {
	if e.op == oConst {
		return
	}
	for _, c := range splitConj(m.x, e, nil) {
		if c.isConst() {
			continue
		}
		if len(c.vars) == 1 {
			v := c.vars[0]
			n := m.vst[v]
			st := rootState(m.varW[v])
			if n != nil {
				st = n.st
			}
			k := m.extend(st, c)
			if k.st == nil {
				panic(engineBug("addPC: infeasible conjunct"))
			}
			m.trail = append(m.trail, trailEnt{kind: tVState, i: int(v), o: n})
			m.vst[v] = &vnode{k.st, c, n}
		} else {
			m.multi = append(m.multi, c)
		}
	}
	m.pcN++
}

// closure returns the variables connected to those of e through multi-variable constraints, and
// those constraints.
func (m *Machine) closure(es []*Expr) ([]int32, []*Expr) {
	in := map[int32]bool{}
	for _, e := range es {
		for _, v := range e.vars {
			in[v] = true
		}
	}
	used := make([]bool, len(m.multi))
	var cons []*Expr
	for changed := true; changed; {
		changed = false
		for i, c := range m.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range c.vars {
					in[v] = true
				}
			}
		}
	}
	for i, c := range m.multi {
		if used[i] {
			cons = append(cons, c)
		}
	}
	vs := make([]int32, 0, len(in))
	for v := range in {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	return vs, cons
}

func (m *Machine) varMulti(v int32) bool {
	for _, c := range m.multi {
		for _, u := range c.vars {
			if u == v {
				return true
			}
		}
	}
	return false
}

// check decides whether the path condition together with e is satisfiable.
func (m *Machine) check(e *Expr) int8 {
	if e.isConst() {
		if e.k == 1 {
			return rSat
		}
		return rUnsat
	}
	cs := splitConj(m.x, e, nil)
	single := true
	for _, c := range cs {
		if len(c.vars) != 1 || m.varMulti(c.vars[0]) {
			single = false
			break
		}
	}
	if single {
		var local map[int32]*vstate
		for _, c := range cs {
			v := c.vars[0]
			st := rootState(m.varW[v])
			if n := m.vst[v]; n != nil {
				st = n.st
			}
			if local != nil {
				if s, ok := local[v]; ok {
					st = s
				}
			}
			k := m.extend(st, c)
			if k.st == nil {
				return rUnsat
			}
			if k.unk {
				return rUnknown
			}
			if len(cs) > 1 {
				if local == nil {
					local = map[int32]*vstate{}
				}
				local[v] = k.st
			}
		}
		return rSat
	}
	// quick satisfiable answer from per-variable refutation
	r, _, _ := m.component(cs)
	return r
}

func (m *Machine) component(cs []*Expr) (int8, []int32, []uint64) {
	vs, cons := m.closure(cs)
	names := make(map[int32]string, len(vs))
	decls := make([]declT, len(vs))
	for i, v := range vs {
		n := "v" + strconv.Itoa(i)
		names[v] = n
		decls[i] = declT{n, m.varW[v]}
	}
	pr := &smtPrinter{name: func(id int32) string { return names[id] }}
	var sb strings.Builder
	for i, v := range vs {
		fmt.Fprintf(&sb, ";%d\n", decls[i].w)
		for n := m.vst[v]; n != nil; n = n.prev {
			sb.WriteString("(assert ")
			pr.print(&sb, n.e)
			sb.WriteString(")\n")
		}
	}
	for _, c := range cons {
		sb.WriteString("(assert ")
		pr.print(&sb, c)
		sb.WriteString(")\n")
	}
	for _, c := range cs {
		sb.WriteString("(assert ")
		pr.print(&sb, c)
		sb.WriteString(")\n")
	}
	key := sb.String()
	if v, ok := compCache.Load(key); ok {
		atomic.AddInt64(&sstats.cacheHits, 1)
		cr := v.(*compRes)
		return cr.r, vs, cr.model
	}
	r, model := m.z3().query(decls, key)
	m.logQuery(decls, key, r)
	compCache.Store(key, &compRes{r, model})
	return r, vs, model
}

// witness returns a value of term e under some model of the path condition.
func (m *Machine) witness(e *Expr) (uint64, bool) {
	if e.isConst() {
		return e.k, true
	}
	mod, ok := m.modelFor(e.vars)
	if !ok {
		return 0, false
	}
	return eval(e, func(id int32) uint64 { return mod[id] }), true
}

func (m *Machine) modelFor(vars []int32) (map[int32]uint64, bool) {
	out := map[int32]uint64{}
	for _, v := range vars {
		if _, ok := out[v]; ok {
			continue
		}
		if !m.varMulti(v) {
			if n := m.vst[v]; n != nil {
				out[v] = n.st.wit
			} else {
				out[v] = m.defaultVal(v)
			}
			continue
		}
		r, vs, model := m.componentVars(v)
		if r != rSat {
			return nil, false
		}
		for i, u := range vs {
			out[u] = model[i]
		}
	}
	return out, true
}

func (m *Machine) defaultVal(v int32) uint64 { return 'a' }

// componentVars solves the component of the given variables without extra conjuncts.
func (m *Machine) componentVars(v int32) (int8, []int32, []uint64) {
	var es []*Expr
	for _, c := range m.multi {
		for _, u := range c.vars {
			if u == v {
				es = append(es, c)
				break
			}
		}
	}
	if len(es) == 0 {
		return rSat, nil, nil
	}
	return m.component(es[:1])
}

// fullModel returns values for all input variables of the path (plus extra conjuncts).
func (m *Machine) fullModel(extra []*Expr) (map[int32]uint64, bool) {
	out := map[int32]uint64{}
	if len(extra) > 0 {
		r, vs, model := m.component(extra)
		if r != rSat {
			return nil, false
		}
		for i, v := range vs {
			out[v] = model[i]
		}
	}
	for v := range m.varW {
		id := int32(v)
		if _, ok := out[id]; ok {
			continue
		}
		mm, ok := m.modelFor([]int32{id})
		if !ok {
			return nil, false
		}
		for k, x := range mm {
			if _, ok := out[k]; !ok {
				out[k] = x
			}
		}
	}
	return out, true
}

func (m *Machine) z3() *z3proc {
	if m.solver == nil {
		z, err := startZ3()
		if err != nil {
			panic(engineBug("cannot start solver: " + err.Error()))
		}
		m.solver = z
	}
	return m.solver
}

type loggedQuery struct {
	decls []declT
	text  string
	r     int8
}

var (
	qlogMu sync.Mutex
	qlog   []loggedQuery
	qlogOn bool
)

func (m *Machine) logQuery(d []declT, text string, r int8) {
	if !qlogOn {
		return
	}
	qlogMu.Lock()
	if len(qlog) < 20000 {
		qlog = append(qlog, loggedQuery{d, text, r})
	}
	qlogMu.Unlock()
}
