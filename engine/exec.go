package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type engineBug string

// pathAbort stops the current path. kind: "infeasible", "unsupported", "limit".
type pathAbort struct {
	kind, msg string
}

type eventT struct {
	kind string // "assert", "panic", "hang", "deadlock", "unsupported", "exit"
	msg  string
	pos  string
}

type input struct {
	kind string // byte, rune, int, bool, choice
	lo   int64
	hi   int64
	v    Val
	w    uint8
	id   int32
}

type obsEnt struct {
	label string
	v     Val // string value
	next  *obsEnt
}

// Machine is one symbolic interpreter.
type Machine struct {
	p        *Program
	x        *Ectx
	job      *Job
	wid      int
	solver   *z3proc
	globals  []Val
	gs       []*Goroutine
	cur      *Goroutine
	trail    []trailEnt
	cps      []*choicePoint
	serial   uint64
	top      uint64
	base     uint64
	epoch    uint64
	pend     []decision
	pendIdx  int
	decs     []decision
	prefix   []decision
	preIdx   int
	vst      []*vnode
	varW     []uint8
	multi    []*Expr
	pcN      int
	inputs   []input
	obs      []obsEnt
	reach    []string
	instrs   int64
	pathIns  int64
	limit    int64
	nextID   uint64
	execs    []int64 // per Fn counter, by frame pushes
	mapOrder bool
	known    string
	race     bool
	sched    bool
	initing  bool
	handlers []catchHandler
	asserts  int64
	forks    int64
	branches int64
	merged   int64
	fnExec   map[*Fn]int64
	out      func(ev eventT, extra []*Expr)
	env      any
	pos      token.Pos
	lastFn   *Fn
}

type catchHandler struct {
	g     int
	depth int
	dst   int32
}

// ---- scalars ----

func (m *Machine) ex(v Val, ti *TInfo) *Expr {
	if v.p == nil {
		return m.x.Const(ti.w, v.n)
	}
	return v.p.(*Expr)
}

func exVal(e *Expr) Val {
	if e.op == oConst {
		return Val{n: e.k}
	}
	return Val{p: e}
}

func boolVal(b bool) Val {
	if b {
		return Val{n: 1}
	}
	return Val{}
}

// ---- memory ----

func (m *Machine) newObj(n int) *Obj {
	return &Obj{n: n, born: m.serial}
}

func (m *Machine) set(o *Obj, i int, v Val) {
	if o.born < m.top {
		var old Val
		if i < len(o.cells) {
			old = o.cells[i]
		}
		m.trail = append(m.trail, trailEnt{kind: tCell, o: o, i: i, old: old})
	}
	if i >= len(o.cells) {
		if i >= o.n {
			panic(engineBug(fmt.Sprintf("cell %d of %d", i, o.n)))
		}
		if o.n <= 64 {
			c := make([]Val, o.n)
			copy(c, o.cells)
			o.cells = c
		} else {
			for len(o.cells) <= i {
				o.cells = append(o.cells, Val{})
			}
		}
	}
	o.cells[i] = v
}

func (o *Obj) get(i int) Val {
	if i < len(o.cells) {
		return o.cells[i]
	}
	return Val{}
}

func (m *Machine) load(p Val, t *TInfo) (Val, bool) {
	switch o := p.p.(type) {
	case *Obj:
		if m.race {
			m.raceRead(o, int(p.n), t.size)
		}
		if t.kind != kStruct && t.kind != kArray {
			return o.get(int(p.n)), true
		}
		a := &Agg{c: make([]Val, t.size)}
		for i := range a.c {
			a.c[i] = o.get(int(p.n) + i)
		}
		return Val{p: a}, true
	case *SymPtr:
		return m.symLoad(o), true
	}
	return Val{}, false
}

func (m *Machine) symLoad(o *SymPtr) Val {
	if o.ti.kind != kInt && o.ti.kind != kBool {
		i := m.concretize(o.idx)
		v, _ := m.load(Val{p: o.obj, n: uint64(o.off + int(i)*o.strd)}, o.ti)
		return v
	}
	// runs of equal values become range tests
	vals := make([]Val, o.n)
	for i := range vals {
		vals[i] = o.obj.get(o.off + i*o.strd)
	}
	return m.selectVals(vals, o.idx, o.ti)
}

func (m *Machine) selectVals(vals []Val, idx *Expr, ti *TInfo) Val {
	var r *Expr
	for i := len(vals) - 1; i >= 0; {
		j := i
		for j > 0 && vals[j-1] == vals[i] {
			j--
		}
		e := m.ex(vals[i], ti)
		if r == nil {
			r = e
		} else {
			// indices j..i hold e; larger ones are in r
			r = m.x.Ite(m.x.Ult(idx, m.x.Const(idx.w, uint64(i+1))), e, r)
		}
		i = j - 1
	}
	if r == nil {
		return Val{}
	}
	return exVal(r)
}

func (m *Machine) store(p Val, v Val, t *TInfo) bool {
	switch o := p.p.(type) {
	case *Obj:
		if m.race {
			m.raceWrite(o, int(p.n), t.size)
		}
		if t.kind != kStruct && t.kind != kArray {
			m.set(o, int(p.n), v)
			return true
		}
		if v.p == nil {
			for i := 0; i < t.size; i++ {
				m.set(o, int(p.n)+i, Val{})
			}
			return true
		}
		for i, c := range v.p.(*Agg).c {
			m.set(o, int(p.n)+i, c)
		}
		return true
	case *SymPtr:
		i := m.concretize(o.idx)
		m.store(Val{p: o.obj, n: uint64(o.off + int(i)*o.strd)}, v, t)
		return true
	}
	return false
}

// aggCells returns the cells of an aggregate value of size n.
func aggCells(v Val, n int) []Val {
	if v.p == nil {
		return make([]Val, n)
	}
	return v.p.(*Agg).c
}

// cellsOf returns v flattened for a slot of type t.
func cellsOf(v Val, t *TInfo) []Val {
	if t.kind == kStruct || t.kind == kArray {
		return aggCells(v, t.size)
	}
	return []Val{v}
}

func fromCells(c []Val, t *TInfo) Val {
	if t.kind == kStruct || t.kind == kArray {
		return Val{p: &Agg{c: append([]Val(nil), c...)}}
	}
	return c[0]
}

// ---- choice points ----

func (m *Machine) snapshotGs() []*Goroutine {
	out := make([]*Goroutine, len(m.gs))
	for i, g := range m.gs {
		c := *g
		c.stack = append([]*Frame(nil), g.stack...)
		c.panics = append([]*panicState(nil), g.panics...)
		if g == m.cur && len(c.stack) > 0 {
			n := len(c.stack) - 1
			c.stack[n] = g.stack[n].clone()
		}
		out[i] = &c
	}
	return out
}

func (f *Frame) clone() *Frame {
	c := *f
	c.regs = append([]Val(nil), f.regs...)
	if len(f.defers) > 0 {
		c.defers = append([]deferred(nil), f.defers...)
	}
	return &c
}

func (m *Machine) pushCP(alts []alt) {
	m.serial++
	cp := &choicePoint{
		serial: m.serial, gs: m.snapshotGs(), cur: m.cur.id, trail: len(m.trail), inputs: len(m.inputs),
		obs: len(m.obs), reach: len(m.reach), decs: len(m.decs), alts: alts, nextID: m.nextID,
		instrs: m.pathIns, multi: len(m.multi), pc: m.pcN, handlers: append([]catchHandler(nil), m.handlers...),
		pend: append([]decision(nil), m.pend[:m.pendIdx]...),
	}
	m.cps = append(m.cps, cp)
	m.top = cp.serial
	m.epoch++
	if n := len(m.cur.stack); n > 0 {
		m.cur.stack[n-1].epoch = m.epoch
	}
}

// backtrack restores the most recent choice point with an untried alternative.
func (m *Machine) backtrack() bool {
	for {
		n := len(m.cps)
		if n == 0 {
			return false
		}
		cp := m.cps[n-1]
		if len(cp.alts) == 0 {
			m.cps = m.cps[:n-1]
			if n >= 2 {
				m.top = m.cps[n-2].serial
			} else {
				m.top = m.base
			}
			continue
		}
		a := cp.alts[0]
		cp.alts = cp.alts[1:]
		last := len(cp.alts) == 0
		m.undo(cp.trail)
		m.inputs = m.inputs[:cp.inputs]
		m.varW = m.varW[:m.countVars()]
		m.vst = m.vst[:len(m.varW)]
		m.obs = m.obs[:cp.obs]
		m.reach = m.reach[:cp.reach]
		m.decs = append(m.decs[:cp.decs], a.d)
		m.multi = m.multi[:cp.multi]
		m.nextID = cp.nextID
		m.pathIns = cp.instrs
		m.pcN = cp.pc
		m.handlers = append(m.handlers[:0], cp.handlers...)
		if last {
			m.gs = cp.gs
			m.cps = m.cps[:n-1]
			if n >= 2 {
				m.top = m.cps[n-2].serial
			} else {
				m.top = m.base
			}
		} else {
			m.gs = make([]*Goroutine, len(cp.gs))
			for i, g := range cp.gs {
				c := *g
				c.stack = append([]*Frame(nil), g.stack...)
				c.panics = append([]*panicState(nil), g.panics...)
				m.gs[i] = &c
			}
		}
		m.epoch++
		m.cur = m.gs[cp.cur]
		m.pend = append(append(m.pend[:0], cp.pend...), a.d)
		m.pendIdx = 0
		if a.cond != nil {
			m.addPC(a.cond)
		}
		return true
	}
}

func (m *Machine) countVars() int {
	n := 0
	for _, in := range m.inputs {
		if in.id >= 0 {
			n++
		}
	}
	return n
}

func (m *Machine) undo(to int) {
	for i := len(m.trail) - 1; i >= to; i-- {
		t := &m.trail[i]
		switch t.kind {
		case tCell:
			o := t.o.(*Obj)
			o.cells[t.i] = t.old
		case tMap:
			t.o.(*Map).st = t.old.p.(*mapState)
		case tChan:
			t.o.(*Chan).st = t.old.p.(*chanState)
		case tVState:
			n, _ := t.o.(*vnode)
			m.vst[t.i] = n
		case tFunc:
			t.o.(func())()
		}
		*t = trailEnt{}
	}
	m.trail = m.trail[:to]
}

// fork decides a condition, splitting the path when both outcomes are possible.
func (m *Machine) fork(c *Expr) bool {
	if c.op == oConst {
		return c.k == 1
	}
	if m.pendIdx < len(m.pend) {
		d := m.pend[m.pendIdx]
		m.pendIdx++
		return d.d == 1
	}
	m.branches++
	r := m.check(c)
	if r == rUnsat {
		m.note(decision{d: 0}, false)
		return false
	}
	nc := m.x.Not(c)
	r2 := m.check(nc)
	if r2 == rUnsat {
		m.note(decision{d: 1}, false)
		return true
	}
	m.forks++
	if m.preIdx < len(m.prefix) {
		d := m.prefix[m.preIdx]
		m.preIdx++
		m.note(d, true)
		if d.d == 1 {
			m.addPC(c)
			return true
		}
		m.addPC(nc)
		return false
	}
	m.pushCP([]alt{{decision{d: 0}, nc}})
	m.note(decision{d: 1}, true)
	m.addPC(c)
	return true
}

// note records a decision of the current instruction; real ones also go to the path's decision log.
func (m *Machine) note(d decision, real bool) {
	m.pend = append(m.pend[:m.pendIdx], d)
	m.pendIdx++
	if real {
		m.decs = append(m.decs, d)
	}
}

// choose picks one of n alternatives, all of which are explored.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pendIdx < len(m.pend) {
		d := m.pend[m.pendIdx]
		m.pendIdx++
		return int(d.d)
	}
	m.branches++
	m.forks++
	if m.preIdx < len(m.prefix) {
		d := m.prefix[m.preIdx]
		m.preIdx++
		m.note(d, true)
		return int(d.d)
	}
	var alts []alt
	for i := 1; i < n; i++ {
		alts = append(alts, alt{decision{d: int32(i)}, nil})
	}
	m.pushCP(alts)
	m.note(decision{d: 0}, true)
	return 0
}

// concretize splits the path over every feasible value of e.
func (m *Machine) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.k
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(pathAbort{"unsupported", "too many values when concretising"})
		}
		if m.pendIdx < len(m.pend) {
			d := m.pend[m.pendIdx]
			m.pendIdx++
			if d.d == 1 {
				return d.v
			}
			continue
		}
		m.branches++
		v, ok := m.witness(e)
		if !ok {
			panic(pathAbort{"unsupported", "no witness for a symbolic value"})
		}
		c := m.x.Eq(e, m.x.Const(e.w, v))
		nc := m.x.Not(c)
		if m.check(nc) == rUnsat {
			m.note(decision{d: 1, v: v}, false)
			return v
		}
		if m.preIdx < len(m.prefix) {
			// the recorded value is authoritative
			m.forks++
			d := m.prefix[m.preIdx]
			m.preIdx++
			m.note(d, true)
			c = m.x.Eq(e, m.x.Const(e.w, d.v))
			if d.d == 1 {
				m.addPC(c)
				return d.v
			}
			m.addPC(m.x.Not(c))
			continue
		}
		m.forks++
		m.pushCP([]alt{{decision{d: 0, v: v}, nc}})
		m.note(decision{d: 1, v: v}, true)
		m.addPC(c)
		return v
	}
}

func (m *Machine) assume(c *Expr) {
	if c == m.x.T {
		return
	}
	if m.pendIdx < len(m.pend) {
		m.pendIdx++
		return
	}
	if c == m.x.F || m.check(c) == rUnsat {
		panic(pathAbort{"infeasible", "assumption"})
	}
	m.addPC(c)
	m.note(decision{d: 1}, false)
}

// ---- frames ----

func (m *Machine) frame(g *Goroutine) *Frame {
	n := len(g.stack) - 1
	f := g.stack[n]
	if f.epoch != m.epoch {
		f = f.clone()
		f.epoch = m.epoch
		g.stack[n] = f
	}
	return f
}

func (m *Machine) val(f *Frame, o int32) Val {
	if o >= 0 {
		return f.regs[o]
	}
	if o > -globalBase {
		return f.fn.consts[-o-1]
	}
	return m.globalPtr(-o - globalBase)
}

func (m *Machine) globalPtr(i int32) Val {
	for int(i) >= len(m.globals) {
		m.globals = append(m.globals, Val{})
	}
	if m.globals[i].p == nil {
		m.p.mu.Lock()
		g := m.p.glist[i]
		m.p.mu.Unlock()
		t := tinfo(g.Type()).elem
		o := &Obj{n: t.size, born: 0, name: g.String()}
		m.globals[i] = Val{p: o}
	}
	return m.globals[i]
}

func (m *Machine) push(g *Goroutine, fn *Fn, args []Val, bind []Val, dst int32) *Frame {
	if len(g.stack) > 4000 {
		panic(pathAbort{"limit", "call depth over 4000"})
	}
	f := &Frame{fn: fn, regs: make([]Val, fn.nregs), epoch: m.epoch, dst: dst}
	copy(f.regs, args)
	copy(f.regs[fn.nparams:], bind)
	f.bind = bind
	g.stack = append(g.stack, f)
	f.pc = fn.blocks[0].start
	m.fnExec[fn]++
	return f
}

// call invokes fn. It reports whether the result is already available.
func (m *Machine) call(g *Goroutine, fn *Fn, args []Val, bind []Val, dst int32) (Val, bool) {
	fn = m.p.ready(fn)
	if fn.intr != nil {
		if fn.intr.redirect != nil {
			return m.call(g, m.p.fnLazy(fn.intr.redirect), args, bind, dst)
		}
		return fn.intr.f(m, g, fn, args)
	}
	if fn.err != "" {
		panic(pathAbort{"unsupported", fn.err})
	}
	if m.isSkippedInit(fn) {
		return Val{}, true
	}
	if len(args) > 0 && len(fn.retT) == 1 && bind == nil {
		if v, ok := m.summary(fn, args); ok {
			return v, true
		}
	}
	m.push(g, fn, args, bind, dst)
	return Val{}, false
}

func (m *Machine) isSkippedInit(fn *Fn) bool {
	if fn.ssa.Name() == "init" && fn.ssa.Synthetic == "package initializer" && m.p.skipInit != nil {
		return skipInitPkg(fn.pkg)
	}
	return false
}

func (m *Machine) callClosure(g *Goroutine, c Val, args []Val, dst int32) (Val, bool, bool) {
	cl, _ := c.p.(*Closure)
	if cl == nil {
		return Val{}, false, false
	}
	if cl.bname != "" {
		panic(pathAbort{"unsupported", "builtin value " + cl.bname})
	}
	v, done := m.call(g, cl.fn, args, cl.bind, dst)
	return v, done, true
}

// ---- panics ----

func (m *Machine) runtimePanic(g *Goroutine, msg string) {
	if g == nil {
		g = m.cur
	}
	v := Val{p: &Iface{m.p.rtErr, Val{p: &Agg{c: []Val{strVal(msg)}}}}}
	m.startPanic(g, v, false)
}

func (m *Machine) startPanic(g *Goroutine, v Val, goexit bool) {
	ps := &panicState{val: v, goexit: goexit, where: m.pos, stack: m.stackOf(g)}
	g.panics = append(g.panics, ps)
	m.unwind(g)
}

func (m *Machine) stackOf(g *Goroutine) string {
	var sb strings.Builder
	n := 0
	for i := len(g.stack) - 1; i >= 0 && n < 8; i-- {
		f := g.stack[i]
		if int(f.pc) < len(f.fn.code) {
			pos := m.p.prog.Fset.Position(f.fn.code[f.pc].pos)
			fmt.Fprintf(&sb, "%s (%s:%d) < ", f.fn.name, shortFile(pos.Filename), pos.Line)
		}
		n++
	}
	return sb.String()
}

func shortFile(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (m *Machine) unwind(g *Goroutine) {
	for {
		ps := g.panics[len(g.panics)-1]
		if len(g.stack) == 0 {
			if ps.goexit {
				g.panics = g.panics[:0]
				g.status = gDone
				return
			}
			m.uncaught(g, ps)
			panic(pathAbort{"end", "uncaught panic"})
		}
		f := m.frame(g)
		if k := len(f.defers); k > 0 {
			d := f.defers[k-1]
			f.defers = f.defers[:k-1]
			if m.runDeferred(g, d, 2, ps) {
				return
			}
			continue
		}
		g.stack = g.stack[:len(g.stack)-1]
		if f.deferOf == 2 && len(g.panics) >= 2 {
			// a newer panic replaces the one being unwound below
			g.panics = append(g.panics[:len(g.panics)-2], ps)
		}
	}
}

// runDeferred starts a deferred call; it reports whether a frame was pushed.
func (m *Machine) runDeferred(g *Goroutine, d deferred, mode int8, ps *panicState) bool {
	if d.call != nil && d.call.builtin != "" {
		m.builtinDeferred(g, d)
		return false
	}
	if d.fn.p == nil {
		m.runtimePanic(g, "invalid memory address or nil pointer dereference")
		return true
	}
	before := len(g.stack)
	_, done, _ := m.callClosure(g, d.fn, d.args, -1)
	if done || len(g.stack) == before {
		return false
	}
	nf := g.stack[len(g.stack)-1]
	nf.deferOf = mode
	nf.panicking = ps
	return true
}

// finishReturn pops the frame f of g and hands its result to the caller.
func (m *Machine) finishReturn(g *Goroutine, f *Frame, res Val) {
	g.stack = g.stack[:len(g.stack)-1]
	if len(g.stack) == 0 {
		g.status = gDone
		return
	}
	c := m.frame(g)
	switch f.deferOf {
	case 0:
		if f.dst >= 0 {
			c.regs[f.dst] = res
		}
		c.pc++
	case 1:
		if c.native == recovering {
			m.resumeRecovered(g, c)
		}
		// otherwise re-execute RunDefers
	case 2:
		if f.native == recoveredMark {
			g.panics = g.panics[:len(g.panics)-1]
			c.native = recovering
			m.resumeRecovered(g, c)
		} else {
			m.unwind(g)
		}
	}
}

type markT string

var recovering any = markT("recovering")
var recoveredMark any = markT("recovered")

func (m *Machine) resumeRecovered(g *Goroutine, c *Frame) {
	for len(c.defers) > 0 {
		d := c.defers[len(c.defers)-1]
		c.defers = c.defers[:len(c.defers)-1]
		if m.runDeferred(g, d, 1, nil) {
			return
		}
	}
	c.native = nil
	if c.fn.recover >= 0 {
		c.pc = c.fn.blocks[c.fn.recover].start
		return
	}
	// no recover block: return zero values
	var res Val
	if len(c.fn.retT) > 1 {
		res = Val{p: &Agg{c: make([]Val, len(c.fn.retT))}}
	}
	m.finishReturn(g, c, res)
}

// ---- control flow ----

func (m *Machine) jump(f *Frame, e edge) {
	b := &f.fn.blocks[e.blk]
	if n := len(b.phis); n > 0 {
		if n == 1 {
			f.regs[b.phis[0].dst] = m.val(f, b.phis[0].edges[e.pred])
		} else {
			var buf [8]Val
			tmp := buf[:0]
			for i := range b.phis {
				tmp = append(tmp, m.val(f, b.phis[i].edges[e.pred]))
			}
			for i := range b.phis {
				f.regs[b.phis[i].dst] = tmp[i]
			}
		}
	}
	f.pc = b.start
}

type leaf struct {
	e    edge
	cond *Expr
}

type leafGroup struct {
	cond   *Expr
	blk    int32
	leaves []leaf
	vals   []Val
}

// branch executes a conditional jump on a symbolic condition, merging short-circuit chains and
// switches whose tests are pure.
func (m *Machine) branch(f *Frame, bi int32, c *Expr) {
	b := &f.fn.blocks[bi]
	if len(c.vars) == 1 || c.size < 200 {
		if gs := m.region(f, b, c); gs != nil {
			m.merged++
			for i, g := range gs {
				if i == len(gs)-1 || m.fork(g.cond) {
					blk := &f.fn.blocks[g.blk]
					for k := range blk.phis {
						f.regs[blk.phis[k].dst] = g.vals[k]
					}
					f.pc = blk.start
					return
				}
			}
		}
	}
	if m.fork(c) {
		m.jump(f, b.succ[0])
	} else {
		m.jump(f, b.succ[1])
	}
}

func (m *Machine) region(f *Frame, b *Block, c *Expr) []*leafGroup {
	var leaves []leaf
	budget := 64
	v0 := c.vars
	ok := true
	var rec func(e edge, cond *Expr)
	rec = func(e edge, cond *Expr) {
		if cond == m.x.F || !ok {
			return
		}
		t := &f.fn.blocks[e.blk]
		if !t.pure || len(t.phis) > 0 || t.end-t.start > 14 || budget <= 0 || !f.fn.singlePred(e.blk) {
			leaves = append(leaves, leaf{e, cond})
			return
		}
		last := &f.fn.code[t.end-1]
		if last.op != opIf {
			// a pure block that only jumps on: follow it
			if last.op != opJump {
				leaves = append(leaves, leaf{e, cond})
				return
			}
		}
		budget--
		for i := t.start; i < t.end-1; i++ {
			in := &f.fn.code[i]
			if !m.pureInstr(f, in) {
				leaves = append(leaves, leaf{e, cond})
				return
			}
		}
		if last.op == opJump {
			rec(t.succ[0], cond)
			return
		}
		cv := m.val(f, last.a)
		if cv.p == nil {
			if cv.n == 1 {
				rec(t.succ[0], cond)
			} else {
				rec(t.succ[1], cond)
			}
			return
		}
		ce := cv.p.(*Expr)
		if !sameVars(ce.vars, v0) {
			leaves = append(leaves, leaf{e, cond})
			return
		}
		rec(t.succ[0], m.x.And(cond, ce))
		rec(t.succ[1], m.x.And(cond, m.x.Not(ce)))
	}
	rec(b.succ[0], c)
	rec(b.succ[1], m.x.Not(c))
	if len(leaves) < 2 || len(leaves) > 200 {
		return nil
	}
	var gs []*leafGroup
	for _, l := range leaves {
		var g *leafGroup
		blk := &f.fn.blocks[l.e.blk]
		var vals []Val
		for k := range blk.phis {
			vals = append(vals, m.val(f, blk.phis[k].edges[l.e.pred]))
		}
		for _, q := range gs {
			if q.blk != l.e.blk {
				continue
			}
			mergeable := true
			for k := range blk.phis {
				if q.vals[k] != vals[k] {
					kd := blk.phis[k].t.kind
					if kd != kBool {
						mergeable = false
						break
					}
				}
			}
			if mergeable {
				g = q
				break
			}
		}
		if g == nil {
			gs = append(gs, &leafGroup{cond: l.cond, blk: l.e.blk, leaves: []leaf{l}, vals: vals})
			continue
		}
		for k := range blk.phis {
			if g.vals[k] != vals[k] {
				t := blk.phis[k].t
				g.vals[k] = exVal(m.x.Ite(l.cond, m.ex(vals[k], t), m.ex(g.vals[k], t)))
			}
		}
		g.cond = m.x.Or(g.cond, l.cond)
		g.leaves = append(g.leaves, l)
	}
	if len(gs) == len(leaves) {
		return nil
	}
	return gs
}

func sameVars(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (fn *Fn) singlePred(b int32) bool { return len(fn.ssa.Blocks[b].Preds) == 1 }

// pureInstr executes an instruction that has no effect but its register and cannot fault.
func (m *Machine) pureInstr(f *Frame, in *Instr) bool {
	switch in.op {
	case opBin:
		a, b := m.val(f, in.a), m.val(f, in.b)
		if in.t.kind != kInt && in.t.kind != kBool {
			return false
		}
		v, st := m.binop(in, a, b)
		if st != "" {
			return false
		}
		f.regs[in.dst] = v
		return true
	case opUn:
		f.regs[in.dst] = m.unop(in, m.val(f, in.a))
		return true
	case opConvert:
		if in.t.kind == kInt && in.t2.kind == kInt {
			f.regs[in.dst] = m.convInt(m.val(f, in.a), in.t2, in.t)
			return true
		}
	case opCopy:
		f.regs[in.dst] = m.val(f, in.a)
		return true
	}
	return false
}

// ---- summaries of pure scalar functions ----

func (m *Machine) summary(fn *Fn, args []Val) (Val, bool) {
	if fn.pure == 2 {
		return Val{}, false
	}
	sym := false
	for _, a := range args {
		if a.p != nil {
			if _, ok := a.p.(*Expr); !ok {
				return Val{}, false
			}
			sym = true
		}
	}
	if !sym {
		return Val{}, false
	}
	if !m.p.isPure(fn, 0) {
		return Val{}, false
	}
	e, ok := m.evalPure(fn, args, 0)
	if !ok {
		return Val{}, false
	}
	m.fnExec[fn]++
	return e, true
}

func (p *Program) isPure(fn *Fn, depth int) bool {
	fn = p.ready(fn)
	if fn.intr != nil {
		return fn.intr.pure != nil
	}
	if fn.pure != 0 {
		return fn.pure == 1
	}
	ok := fn.err == "" && depth < 6 && len(fn.retT) == 1 && (fn.retT[0].kind == kInt || fn.retT[0].kind == kBool) && len(fn.ssa.FreeVars) == 0
	if ok {
		for _, pa := range fn.ssa.Params {
			t := tinfo(pa.Type())
			if t.kind != kInt && t.kind != kBool {
				ok = false
			}
		}
	}
	if ok {
		// acyclic, pure blocks only
		for i := range fn.blocks {
			b := &fn.blocks[i]
			for _, s := range b.succ {
				if fn.ssa.Blocks[s.blk].Dominates(fn.ssa.Blocks[i]) {
					ok = false
				}
			}
			for _, ph := range b.phis {
				if ph.t.kind != kInt && ph.t.kind != kBool {
					ok = false
				}
			}
			for j := b.start; j < b.end && ok; j++ {
				in := &fn.code[j]
				switch in.op {
				case opBin:
					if in.t.kind != kInt && in.t.kind != kBool {
						ok = false
					}
					if !b.pure {
						switch in.sub {
						case token.QUO, token.REM, token.SHL, token.SHR:
							ok = false
						}
					}
				case opUn, opCopy, opIf, opJump, opReturn:
				case opConvert:
					if in.t.kind != kInt || in.t2.kind != kInt {
						ok = false
					}
				case opCall:
					if !p.isPure(in.x.(*Fn), depth+1) {
						ok = false
					}
				default:
					ok = false
				}
			}
			if !ok {
				break
			}
		}
	}
	p.mu.Lock()
	if ok {
		fn.pure = 1
	} else {
		fn.pure = 2
	}
	p.mu.Unlock()
	return ok
}

func (m *Machine) evalPure(fn *Fn, args []Val, depth int) (Val, bool) {
	fn = m.p.ready(fn)
	if fn.intr != nil {
		return fn.intr.pure(m, args), true
	}
	f := &Frame{fn: fn, regs: make([]Val, fn.nregs)}
	copy(f.regs, args)
	steps := 0
	var run func(b int32) (Val, bool)
	run = func(bi int32) (Val, bool) {
		for {
			b := &fn.blocks[bi]
			if steps++; steps > 2000 {
				return Val{}, false
			}
			for i := b.start; i < b.end; i++ {
				in := &fn.code[i]
				switch in.op {
				case opCall:
					as := make([]Val, len(in.args))
					for k, a := range in.args {
						as[k] = m.val(f, a)
					}
					v, ok := m.evalPure(in.x.(*Fn), as, depth+1)
					if !ok {
						return Val{}, false
					}
					f.regs[in.dst] = v
				case opReturn:
					return m.val(f, in.args[0]), true
				case opJump:
					m.jump(f, b.succ[0])
					bi = b.succ[0].blk
				case opIf:
					c := m.val(f, in.a)
					if c.p == nil {
						k := 1
						if c.n == 1 {
							k = 0
						}
						m.jump(f, b.succ[k])
						bi = b.succ[k].blk
						continue
					}
					saved := append([]Val(nil), f.regs...)
					m.jump(f, b.succ[0])
					v1, ok := run(b.succ[0].blk)
					if !ok {
						return Val{}, false
					}
					f.regs = saved
					m.jump(f, b.succ[1])
					v2, ok := run(b.succ[1].blk)
					if !ok {
						return Val{}, false
					}
					t := fn.retT[0]
					return exVal(m.x.Ite(c.p.(*Expr), m.ex(v1, t), m.ex(v2, t))), true
				default:
					if !m.pureInstr(f, in) {
						return Val{}, false
					}
				}
			}
		}
	}
	return run(0)
}

// ---- main loop ----

const quantum = 1 << 30

// run executes until the path ends. It returns normally when the main goroutine has finished.
func (m *Machine) run() {
	for {
		g := m.cur
		if g.status != gRun || len(g.stack) == 0 {
			if g.id == 0 && g.status == gDone {
				return
			}
			if !m.schedule() {
				return
			}
			continue
		}
		f := m.frame(g)
		m.step(g, f)
	}
}

// schedule picks another runnable goroutine. It returns false when the main goroutine is done.
func (m *Machine) schedule() bool {
	if m.gs[0].status == gDone {
		return false
	}
	n := len(m.gs)
	for k := 1; k <= n; k++ {
		h := m.gs[(m.cur.id+k)%n]
		if h.status == gRun {
			m.cur = h
			return true
		}
	}
	var sb strings.Builder
	for _, g := range m.gs {
		if g.status != gDone {
			fmt.Fprintf(&sb, "goroutine %d blocked: %s; ", g.id, m.stackOf(g))
		}
	}
	m.event("deadlock", "all goroutines are asleep: "+sb.String(), nil)
	panic(pathAbort{"end", "deadlock"})
}

func (m *Machine) limitHit() {
	m.event("hang", fmt.Sprintf("no result after %d instructions; %s", m.limit, m.stackOf(m.cur)), nil)
	panic(pathAbort{"end", "instruction limit"})
}

func (m *Machine) step(g *Goroutine, f *Frame) {
	for {
		in := &f.fn.code[f.pc]
		m.pathIns++
		if m.pathIns > m.limit {
			m.limitHit()
		}
		if m.pendIdx != 0 && m.pendIdx >= len(m.pend) {
			m.pend = m.pend[:0]
			m.pendIdx = 0
		}
		m.pos = in.pos
		switch in.op {
		case opBin:
			a, b := m.val(f, in.a), m.val(f, in.b)
			v, perr := m.binop(in, a, b)
			if perr != "" {
				m.runtimePanic(g, perr)
				return
			}
			f.regs[in.dst] = v
		case opUn:
			f.regs[in.dst] = m.unop(in, m.val(f, in.a))
		case opLoad:
			v, ok := m.load(m.val(f, in.a), in.t)
			if !ok {
				m.runtimePanic(g, "invalid memory address or nil pointer dereference")
				return
			}
			f.regs[in.dst] = v
		case opStore:
			if !m.store(m.val(f, in.a), m.val(f, in.b), in.t) {
				m.runtimePanic(g, "invalid memory address or nil pointer dereference")
				return
			}
		case opAlloc:
			o := m.newObj(in.t.size)
			f.regs[in.dst] = Val{p: o}
		case opFieldAddr:
			p := m.val(f, in.a)
			switch o := p.p.(type) {
			case *Obj:
				f.regs[in.dst] = Val{p: o, n: p.n + uint64(in.c)}
			case *SymPtr:
				i := m.concretize(o.idx)
				f.regs[in.dst] = Val{p: o.obj, n: uint64(o.off+int(i)*o.strd) + uint64(in.c)}
			default:
				m.runtimePanic(g, "invalid memory address or nil pointer dereference")
				return
			}
		case opField:
			v := m.val(f, in.a)
			if v.p == nil {
				f.regs[in.dst] = Val{}
			} else {
				c := v.p.(*Agg).c
				f.regs[in.dst] = fromCells(c[in.c:int(in.c)+in.t.size], in.t)
			}
		case opIndexAddr:
			if msg := m.indexAddr(f, in); msg != "" {
				m.runtimePanic(g, msg)
				return
			}
		case opIndex:
			if msg := m.index(f, in); msg != "" {
				m.runtimePanic(g, msg)
				return
			}
		case opLookup:
			f.regs[in.dst] = m.mapLookup(m.val(f, in.a), m.val(f, in.b), in.t, in.flag)
		case opMapUpdate:
			mp, _ := m.val(f, in.a).p.(*Map)
			if mp == nil {
				m.runtimePanic(g, "assignment to entry in nil map")
				return
			}
			m.mapSet(mp, m.val(f, in.b), m.val(f, in.c), in.t)
		case opSlice:
			v, msg := m.slice(f, in)
			if msg != "" {
				m.runtimePanic(g, msg)
				return
			}
			f.regs[in.dst] = v
		case opMakeMap:
			f.regs[in.dst] = Val{p: m.newMap()}
		case opMakeChan:
			n := m.concInt(m.val(f, in.a))
			m.nextID++
			f.regs[in.dst] = Val{p: &Chan{st: &chanState{epoch: m.serial}, cap: int(n), born: m.serial, id: m.nextID}}
		case opMakeSlice:
			n, c := m.concInt(m.val(f, in.a)), m.concInt(m.val(f, in.b))
			if n < 0 || n > 1<<40 {
				m.runtimePanic(g, "makeslice: len out of range")
				return
			}
			if c < n {
				m.runtimePanic(g, "makeslice: cap out of range")
				return
			}
			if c > 1<<22 {
				panic(pathAbort{"limit", "huge allocation"})
			}
			o := m.newObj(int(c) * in.t.size)
			f.regs[in.dst] = Val{p: &Slice{obj: o, len: int(n), cap: int(c)}}
		case opMakeIface:
			f.regs[in.dst] = Val{p: &Iface{in.t, m.val(f, in.a)}}
		case opMakeClosure:
			c := &Closure{fn: in.x.(*Fn)}
			for _, a := range in.args {
				c.bind = append(c.bind, m.val(f, a))
			}
			if c.bind == nil {
				c.bind = []Val{}
			}
			f.regs[in.dst] = Val{p: c}
		case opRange:
			f.regs[in.dst] = m.rangeInit(m.val(f, in.a), in.t)
		case opNext:
			f.regs[in.dst] = m.rangeNext(m.val(f, in.a), in.flag)
		case opTypeAssert:
			v, msg := m.typeAssert(in, m.val(f, in.a))
			if msg != "" {
				m.runtimePanic(g, msg)
				return
			}
			f.regs[in.dst] = v
		case opExtract:
			t := m.val(f, in.a)
			f.regs[in.dst] = t.p.(*Agg).c[in.c]
		case opConvert:
			f.regs[in.dst] = m.convert(m.val(f, in.a), in.t2, in.t)
		case opCopy:
			f.regs[in.dst] = m.val(f, in.a)
		case opIf:
			c := m.val(f, in.a)
			b := f.fn.blkOf[f.pc]
			if c.p == nil {
				if c.n == 1 {
					m.jump(f, f.fn.blocks[b].succ[0])
				} else {
					m.jump(f, f.fn.blocks[b].succ[1])
				}
			} else {
				m.branch(f, b, c.p.(*Expr))
			}
			continue
		case opJump:
			b := f.fn.blkOf[f.pc]
			m.jump(f, f.fn.blocks[b].succ[0])
			continue
		case opReturn:
			var res Val
			switch len(in.args) {
			case 0:
			case 1:
				res = m.val(f, in.args[0])
			default:
				a := &Agg{c: make([]Val, len(in.args))}
				for i, r := range in.args {
					a.c[i] = m.val(f, r)
				}
				res = Val{p: a}
			}
			m.finishReturn(g, f, res)
			return
		case opCall, opInvoke, opCallDyn:
			v, done, msg := m.doCall(g, f, in)
			if msg != "" {
				m.runtimePanic(g, msg)
				return
			}
			if !done {
				return
			}
			if in.dst >= 0 {
				f.regs[in.dst] = v
			}
		case opBuiltin:
			v, st := m.builtin(g, f, in)
			switch st {
			case "":
				if in.dst >= 0 {
					f.regs[in.dst] = v
				}
			case "moved":
				return
			default:
				m.runtimePanic(g, st)
				return
			}
		case opGo:
			fn, args, bi := m.resolve(f, in)
			if bi != nil {
				panic(pathAbort{"unsupported", "go with builtin"})
			}
			ng := &Goroutine{id: len(m.gs)}
			if m.race {
				ng.vc = m.forkVC(g, ng.id)
			}
			m.gs = append(m.gs, ng)
			cl := fn.p.(*Closure)
			m.push(ng, m.p.ready(cl.fn), args, cl.bind, -1)
		case opDefer:
			fn, args, bi := m.resolve(f, in)
			d := deferred{fn: fn, args: args}
			if bi != nil {
				d.call = &ssaCallInfo{builtin: bi.name, args: bi.ts}
			}
			f.defers = append(f.defers, d)
		case opRunDefers:
			if k := len(f.defers); k > 0 {
				d := f.defers[k-1]
				f.defers = f.defers[:k-1]
				if m.runDeferred(g, d, 1, nil) {
					return
				}
				if g.status != gRun || len(g.panics) > 0 {
					return
				}
				continue
			}
		case opPanic:
			v := m.val(f, in.a)
			if v.p == nil {
				v = Val{p: &Iface{m.p.rtErr, Val{p: &Agg{c: []Val{strVal("panic called with nil argument")}}}}}
			}
			m.startPanic(g, v, false)
			return
		case opSend:
			if !m.chanSend(g, f, in) {
				return
			}
		case opRecv:
			if !m.chanRecv(g, f, in) {
				return
			}
		case opSelect:
			if !m.chanSelect(g, f, in) {
				return
			}
		case opUnsupported:
			panic(pathAbort{"unsupported", fmt.Sprint(in.x)})
		}
		f.pc++
	}
}

// resolve evaluates the callee and arguments of a go or defer statement.
func (m *Machine) resolve(f *Frame, in *Instr) (Val, []Val, *builtinInfo) {
	cs := in.x.(*callSite)
	args := make([]Val, 0, len(in.args)+1)
	switch cs.op {
	case opBuiltin:
		for _, a := range in.args {
			args = append(args, m.val(f, a))
		}
		return Val{}, args, cs.x.(*builtinInfo)
	case opCall:
		for _, a := range in.args {
			args = append(args, m.val(f, a))
		}
		return Val{p: &Closure{fn: cs.x.(*Fn)}}, args, nil
	case opCallDyn:
		for _, a := range in.args {
			args = append(args, m.val(f, a))
		}
		return m.val(f, in.a), args, nil
	}
	inv := cs.x.(*invokeInfo)
	rv := m.val(f, in.a)
	ifc, _ := rv.p.(*Iface)
	if ifc == nil {
		panic(pathAbort{"unsupported", "go/defer on nil interface"})
	}
	sf := m.p.method(ifc.t, inv.id, inv.m)
	args = append(args, ifc.v)
	for _, a := range in.args {
		args = append(args, m.val(f, a))
	}
	return Val{p: &Closure{fn: m.p.fnLazy(sf)}}, args, nil
}

func (m *Machine) doCall(g *Goroutine, f *Frame, in *Instr) (Val, bool, string) {
	var buf [8]Val
	args := buf[:0]
	switch in.op {
	case opCall:
		for _, a := range in.args {
			args = append(args, m.val(f, a))
		}
		v, done := m.call(g, in.x.(*Fn), args, nil, in.dst)
		return v, done, ""
	case opInvoke:
		rv := m.val(f, in.a)
		ifc, _ := rv.p.(*Iface)
		if ifc == nil {
			return Val{}, false, "invalid memory address or nil pointer dereference"
		}
		inv := in.x.(*invokeInfo)
		sf := m.p.method(ifc.t, inv.id, inv.m)
		if sf == nil {
			panic(engineBug("no method " + inv.id + " on " + ifc.t.str))
		}
		args = append(args, ifc.v)
		for _, a := range in.args {
			args = append(args, m.val(f, a))
		}
		v, done := m.call(g, m.p.fnLazy(sf), args, nil, in.dst)
		return v, done, ""
	}
	for _, a := range in.args {
		args = append(args, m.val(f, a))
	}
	v, done, ok := m.callClosure(g, m.val(f, in.a), args, in.dst)
	if !ok {
		return Val{}, false, "invalid memory address or nil pointer dereference"
	}
	return v, done, ""
}

func (m *Machine) concInt(v Val) int64 {
	if v.p == nil {
		return int64(v.n)
	}
	return int64(m.concretize(v.p.(*Expr)))
}

func sortStrings(s []string) []string { sort.Strings(s); return s }

var _ = ssa.NewConst
