package main

import (
	"fmt"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Intrinsic replaces the body of a function.
type Intrinsic struct {
	name     string
	f        func(m *Machine, g *Goroutine, fn *Fn, args []Val) (Val, bool)
	pure     func(m *Machine, args []Val) Val
	redirect *ssa.Function
}

const vrtPath = "github.com/cespare/goclj/zz_vrt"

var intrinsics = map[string]*Intrinsic{}

func reg(name string, f func(m *Machine, g *Goroutine, args []Val) Val) {
	intrinsics[name] = &Intrinsic{name: name, f: func(m *Machine, g *Goroutine, fn *Fn, args []Val) (Val, bool) { return f(m, g, args), true }}
}

func regX(name string, f func(m *Machine, g *Goroutine, fn *Fn, args []Val) (Val, bool)) {
	intrinsics[name] = &Intrinsic{name: name, f: f}
}

func lookupIntrinsic(name string) *Intrinsic {
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return atomicIntrinsic(name[len("sync/atomic."):])
	}
	return nil
}

func nop(m *Machine, g *Goroutine, args []Val) Val { return Val{} }

func init() {
	v := func(n string) string { return vrtPath + "." + n }
	reg(v("byteIn"), func(m *Machine, g *Goroutine, a []Val) Val {
		return m.newInput("byte", 8, int64(a[0].n), int64(a[1].n))
	})
	reg(v("runeIn"), func(m *Machine, g *Goroutine, a []Val) Val {
		return m.newInput("rune", 32, sx(32, a[0].n), sx(32, a[1].n))
	})
	reg(v("intIn"), func(m *Machine, g *Goroutine, a []Val) Val {
		return m.newInput("int", 64, int64(a[0].n), int64(a[1].n))
	})
	reg(v("boolIn"), func(m *Machine, g *Goroutine, a []Val) Val { return m.newInput("bool", 0, 0, 1) })
	reg(v("Choice"), func(m *Machine, g *Goroutine, a []Val) Val {
		n := int(m.concInt(a[0]))
		k := m.choose(n)
		m.inputs = append(m.inputs, input{kind: "choice", v: Val{n: uint64(k)}, id: -1})
		return Val{n: uint64(k)}
	})
	reg(v("Assume"), func(m *Machine, g *Goroutine, a []Val) Val {
		m.assume(m.ex(a[0], boolT))
		return Val{}
	})
	reg(v("Assert"), func(m *Machine, g *Goroutine, a []Val) Val {
		m.assert(m.ex(a[0], boolT), goStr(a[1]))
		return Val{}
	})
	reg(v("Fail"), func(m *Machine, g *Goroutine, a []Val) Val {
		m.asserts++
		m.event("assert", m.showStr(a[0]), nil)
		panic(pathAbort{"end", "fail"})
	})
	reg(v("Stop"), func(m *Machine, g *Goroutine, a []Val) Val { panic(pathAbort{"infeasible", "stop"}) })
	reg(v("Reach"), func(m *Machine, g *Goroutine, a []Val) Val {
		m.reach = append(m.reach, goStr(a[0]))
		return Val{}
	})
	reg(v("Observe"), func(m *Machine, g *Goroutine, a []Val) Val {
		m.obs = append(m.obs, obsEnt{label: goStr(a[0]), v: a[1]})
		return Val{}
	})
	reg(v("Param"), func(m *Machine, g *Goroutine, a []Val) Val {
		if m.job != nil {
			if n, ok := m.job.Params[goStr(a[0])]; ok {
				return Val{n: uint64(int64(n))}
			}
		}
		return a[1]
	})
	reg(v("Symbolic"), func(m *Machine, g *Goroutine, a []Val) Val { return Val{n: 1} })
	reg(v("Concrete"), func(m *Machine, g *Goroutine, a []Val) Val { return boolVal(isConcStr(a[0])) })
	reg(v("mapOrder"), func(m *Machine, g *Goroutine, a []Val) Val {
		old := m.mapOrder
		m.trail = append(m.trail, trailEnt{kind: tFunc, o: func() { m.mapOrder = old }})
		m.mapOrder = a[0].n == 1
		return Val{}
	})
	reg(v("Race"), func(m *Machine, g *Goroutine, a []Val) Val {
		old := m.race
		m.trail = append(m.trail, trailEnt{kind: tFunc, o: func() { m.race = old }})
		m.race = a[0].n == 1
		return Val{}
	})
	// Settle lets every other goroutine run until all are blocked or done and returns how many are not done.
	regX(v("Settle"), func(m *Machine, g *Goroutine, fn *Fn, a []Val) (Val, bool) {
		n := 0
		for _, h := range m.gs {
			if h == g {
				continue
			}
			if h.status == gRun && len(h.stack) > 0 {
				m.cur = h
				return Val{}, false
			}
			if h.status != gDone {
				n++
			}
		}
		return Val{n: uint64(n)}, true
	})
	reg(v("TypeName"), func(m *Machine, g *Goroutine, a []Val) Val {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return strVal("<nil>")
		}
		return strVal(i.t.str)
	})
	// kind and payload access for the fmt model
	reg(v("kindOf"), func(m *Machine, g *Goroutine, a []Val) Val {
		i, _ := a[0].p.(*Iface)
		if i == nil {
			return Val{}
		}
		switch i.t.kind {
		case kBool:
			return Val{n: 1}
		case kInt:
			if i.t.signed {
				return Val{n: 2}
			}
			return Val{n: 3}
		case kString:
			return Val{n: 4}
		case kPtr:
			return Val{n: 5}
		case kStruct:
			return Val{n: 6}
		case kSlice:
			return Val{n: 7}
		case kMap:
			return Val{n: 8}
		case kFloat:
			return Val{n: 9}
		}
		return Val{n: 10}
	})
	reg(v("isNilPtr"), func(m *Machine, g *Goroutine, a []Val) Val {
		i, _ := a[0].p.(*Iface)
		return boolVal(i != nil && i.t.kind == kPtr && i.v.p == nil)
	})
	reg(v("intOf"), func(m *Machine, g *Goroutine, a []Val) Val {
		i := a[0].p.(*Iface)
		return m.convInt(i.v, i.t, intT)
	})
	reg(v("strOf"), func(m *Machine, g *Goroutine, a []Val) Val { return a[0].p.(*Iface).v })
	reg(v("boolOf"), func(m *Machine, g *Goroutine, a []Val) Val { return a[0].p.(*Iface).v })
	reg(v("sliceLen"), func(m *Machine, g *Goroutine, a []Val) Val {
		return Val{n: uint64(m.sliceOf(a[0].p.(*Iface).v).len)}
	})
	reg(v("sliceAt"), func(m *Machine, g *Goroutine, a []Val) Val {
		i := a[0].p.(*Iface)
		s := m.sliceOf(i.v)
		k := int(a[1].n)
		el := i.t.elem
		cells := make([]Val, el.size)
		for j := range cells {
			cells[j] = s.obj.get(s.off + k*el.size + j)
		}
		vv := fromCells(cells, el)
		if el.kind == kIface {
			return vv
		}
		return Val{p: &Iface{el, vv}}
	})
	reg(v("swapElems"), func(m *Machine, g *Goroutine, a []Val) Val {
		i := a[0].p.(*Iface)
		s := m.sliceOf(i.v)
		n := i.t.elem.size
		x, y := s.off+int(a[1].n)*n, s.off+int(a[2].n)*n
		for j := 0; j < n; j++ {
			p, q := s.obj.get(x+j), s.obj.get(y+j)
			m.set(s.obj, x+j, q)
			m.set(s.obj, y+j, p)
		}
		return Val{}
	})
	// Exit unwinds to the enclosing CatchExit without running deferred functions.
	regX(v("exit"), func(m *Machine, g *Goroutine, fn *Fn, a []Val) (Val, bool) {
		h := len(m.handlers)
		if h == 0 {
			m.event("exit", fmt.Sprintf("os.Exit(%d) outside CatchExit", int64(a[0].n)), nil)
			panic(pathAbort{"end", "exit"})
		}
		hd := m.handlers[h-1]
		if hd.g != g.id {
			panic(pathAbort{"unsupported", "exit on another goroutine"})
		}
		m.handlers = m.handlers[:h-1]
		g.stack = g.stack[:hd.depth]
		g.panics = nil
		f := m.frame(g)
		f.regs[hd.dst] = Val{n: a[0].n}
		f.pc++
		return Val{}, false
	})
	// catch calls the function and returns its result, or the exit code if it exits.
	regX(v("catch"), func(m *Machine, g *Goroutine, fn *Fn, a []Val) (Val, bool) {
		f := m.frame(g)
		dst := f.fn.code[f.pc].dst
		m.handlers = append(m.handlers, catchHandler{g: g.id, depth: len(g.stack), dst: dst})
		cl := a[0].p.(*Closure)
		m.push(g, m.p.ready(cl.fn), nil, cl.bind, dst)
		return Val{}, false
	})
	reg(v("unsupported"), func(m *Machine, g *Goroutine, a []Val) Val {
		panic(pathAbort{"unsupported", "model: " + goStr(a[0])})
	})
	reg(v("Known"), func(m *Machine, g *Goroutine, a []Val) Val {
		old := m.known
		m.trail = append(m.trail, trailEnt{kind: tFunc, o: func() { m.known = old }})
		m.known = goStr(a[0])
		return Val{}
	})
	reg(v("catchDone"), func(m *Machine, g *Goroutine, a []Val) Val {
		if h := len(m.handlers); h > 0 {
			m.handlers = m.handlers[:h-1]
		}
		return Val{}
	})

	// runtime
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Gosched", "(*strings.Builder).copyCheck", "internal/race.Acquire", "internal/race.Release", "internal/race.ReadRange", "internal/race.WriteRange", "runtime.LockOSThread"} {
		reg(n, nop)
	}
	reg("internal/abi.NoEscape", func(m *Machine, g *Goroutine, a []Val) Val { return a[0] })
	regX("runtime.Goexit", func(m *Machine, g *Goroutine, fn *Fn, a []Val) (Val, bool) {
		m.startPanic(g, Val{}, true)
		return Val{}, false
	})
	reg("runtime.NumGoroutine", func(m *Machine, g *Goroutine, a []Val) Val {
		n := 0
		for _, h := range m.gs {
			if h.status != gDone {
				n++
			}
		}
		return Val{n: uint64(n)}
	})

	// byte searching
	reg("internal/bytealg.IndexByte", func(m *Machine, g *Goroutine, a []Val) Val {
		s := m.sliceOf(a[0])
		return m.indexByte(sliceCells(&s), a[1])
	})
	reg("internal/bytealg.IndexByteString", func(m *Machine, g *Goroutine, a []Val) Val {
		return m.indexByte(strBytes(a[0]), a[1])
	})
	reg("internal/bytealg.LastIndexByte", func(m *Machine, g *Goroutine, a []Val) Val {
		s := m.sliceOf(a[0])
		return m.lastIndexByte(sliceCells(&s), a[1])
	})
	reg("internal/bytealg.LastIndexByteString", func(m *Machine, g *Goroutine, a []Val) Val {
		return m.lastIndexByte(strBytes(a[0]), a[1])
	})
	reg("internal/bytealg.Count", func(m *Machine, g *Goroutine, a []Val) Val {
		s := m.sliceOf(a[0])
		return m.countByte(sliceCells(&s), a[1])
	})
	reg("internal/bytealg.CountString", func(m *Machine, g *Goroutine, a []Val) Val {
		return m.countByte(strBytes(a[0]), a[1])
	})
	eqb := func(m *Machine, g *Goroutine, a []Val) Val {
		s, t := m.sliceOf(a[0]), m.sliceOf(a[1])
		return exVal(m.strEq(mkStr(sliceCells(&s)), mkStr(sliceCells(&t))))
	}
	reg("bytes.Equal", eqb)
	reg("internal/bytealg.Equal", eqb)
	cmps := func(m *Machine, x, y Val) Val {
		e := m.strEq(x, y)
		l := m.strLess(x, y)
		return exVal(m.x.Ite(e, m.x.Const(64, 0), m.x.Ite(l, m.x.Const(64, ^uint64(0)), m.x.Const(64, 1))))
	}
	cmpS := func(m *Machine, g *Goroutine, a []Val) Val { return cmps(m, a[0], a[1]) }
	reg("internal/bytealg.CompareString", cmpS)
	reg("strings.Compare", cmpS)
	reg("runtime.cmpstring", cmpS)
	cmpB := func(m *Machine, g *Goroutine, a []Val) Val {
		s, t := m.sliceOf(a[0]), m.sliceOf(a[1])
		return cmps(m, mkStr(sliceCells(&s)), mkStr(sliceCells(&t)))
	}
	reg("internal/bytealg.Compare", cmpB)
	reg("bytes.Compare", cmpB)
	reg("internal/bytealg.MakeNoZero", func(m *Machine, g *Goroutine, a []Val) Val {
		n := int(m.concInt(a[0]))
		return Val{p: &Slice{obj: m.newObj(n), len: n, cap: n}}
	})
	reg("internal/bytealg.Cutover", func(m *Machine, g *Goroutine, a []Val) Val { return Val{n: 1 << 30} })

	// runes
	isSpace := &Intrinsic{name: "unicode.IsSpace"}
	isSpace.pure = func(m *Machine, a []Val) Val {
		if a[0].p == nil {
			return boolVal(unicode.IsSpace(rune(int32(a[0].n))))
		}
		return exVal(m.inTable(a[0].p.(*Expr), unicode.White_Space))
	}
	isSpace.f = func(m *Machine, g *Goroutine, fn *Fn, a []Val) (Val, bool) { return isSpace.pure(m, a), true }
	intrinsics["unicode.IsSpace"] = isSpace
	reg("unicode/utf8.DecodeRune", func(m *Machine, g *Goroutine, a []Val) Val {
		s := m.sliceOf(a[0])
		if s.len > 4 {
			s.len = 4
		}
		return m.decodeTuple(sliceCells(&s))
	})
	reg("unicode/utf8.DecodeRuneInString", func(m *Machine, g *Goroutine, a []Val) Val {
		n := strLen(a[0])
		if n > 4 {
			n = 4
		}
		if n == 0 {
			return m.decodeTuple(nil)
		}
		return m.decodeTuple(strBytes(substr(a[0], 0, n)))
	})
	reg("unicode/utf8.EncodeRune", func(m *Machine, g *Goroutine, a []Val) Val {
		b := m.encodeRune(a[1])
		s := m.sliceOf(a[0])
		if s.len < len(b) {
			panic(pathAbort{"unsupported", "EncodeRune into short buffer"})
		}
		for i, c := range b {
			m.set(s.obj, s.off+i, c)
		}
		return Val{n: uint64(len(b))}
	})
	reg("unicode/utf8.AppendRune", func(m *Machine, g *Goroutine, a []Val) Val {
		return m.appendBytes(a[0], m.encodeRune(a[1]))
	})

	// locks
	lock := func(m *Machine, g *Goroutine, fn *Fn, a []Val) (Val, bool) {
		o := a[0].p.(*Obj)
		if o.get(int(a[0].n)).n == 1 {
			g.status = gBlockLock
			return Val{}, false
		}
		m.set(o, int(a[0].n), Val{n: 1})
		if m.race {
			if l, ok := o.get(int(a[0].n)).p.([]uint32); ok {
				m.vcAcquire(g, l)
			}
		}
		return Val{}, true
	}
	unlock := func(m *Machine, g *Goroutine, a []Val) Val {
		o := a[0].p.(*Obj)
		m.set(o, int(a[0].n), Val{})
		for _, h := range m.gs {
			if h.status == gBlockLock {
				h.status = gRun
				if m.race {
					m.vcAcquire(h, m.vcRelease(g))
				}
			}
		}
		return Val{}
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)"} {
		regX(t+".Lock", lock)
		reg(t+".Unlock", unlock)
	}
	regX("(*sync.RWMutex).RLock", lock)
	reg("(*sync.RWMutex).RUnlock", unlock)
	reg("(*sync.WaitGroup).Add", func(m *Machine, g *Goroutine, a []Val) Val {
		o := a[0].p.(*Obj)
		i := int(a[0].n)
		m.set(o, i, Val{n: o.get(i).n + a[1].n})
		wakeLocks(m)
		return Val{}
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, g *Goroutine, a []Val) Val {
		o := a[0].p.(*Obj)
		i := int(a[0].n)
		m.set(o, i, Val{n: o.get(i).n - 1})
		wakeLocks(m)
		return Val{}
	})
	regX("(*sync.WaitGroup).Wait", func(m *Machine, g *Goroutine, fn *Fn, a []Val) (Val, bool) {
		o := a[0].p.(*Obj)
		if o.get(int(a[0].n)).n != 0 {
			g.status = gBlockLock
			return Val{}, false
		}
		return Val{}, true
	})
}

func wakeLocks(m *Machine) {
	for _, h := range m.gs {
		if h.status == gBlockLock {
			h.status = gRun
		}
	}
}

var boolT = &TInfo{kind: kBool}

func (m *Machine) decodeTuple(b []Val) Val {
	if len(b) == 0 {
		return Val{p: &Agg{c: []Val{{n: 0xFFFD}, {}}}}
	}
	r, n := m.decodeRune(b)
	return Val{p: &Agg{c: []Val{r, {n: uint64(n)}}}}
}

func (m *Machine) appendBytes(sv Val, b []Val) Val {
	s := m.sliceOf(sv)
	if len(b) == 0 {
		return sv
	}
	if s.len+len(b) <= s.cap {
		for i, c := range b {
			m.set(s.obj, s.off+s.len+i, c)
		}
		return Val{p: &Slice{obj: s.obj, off: s.off, len: s.len + len(b), cap: s.cap}}
	}
	nc := growCap(s.cap, s.len+len(b), byteT)
	o := m.newObj(nc)
	o.cells = make([]Val, s.len+len(b), nc)
	for i := 0; i < s.len; i++ {
		o.cells[i] = s.obj.get(s.off + i)
	}
	copy(o.cells[s.len:], b)
	return Val{p: &Slice{obj: o, len: s.len + len(b), cap: nc}}
}

func (m *Machine) inTable(e *Expr, t *unicode.RangeTable) *Expr {
	r := m.x.F
	add := func(lo, hi, st uint32) {
		if st == 1 {
			c := m.x.And(m.x.Not(m.x.Ult(e, m.x.Const(32, uint64(lo)))), m.x.Not(m.x.Ult(m.x.Const(32, uint64(hi)), e)))
			r = m.x.Or(r, c)
			return
		}
		for q := lo; q <= hi; q += st {
			r = m.x.Or(r, m.x.Eq(e, m.x.Const(32, uint64(q))))
		}
	}
	for _, q := range t.R16 {
		add(uint32(q.Lo), uint32(q.Hi), uint32(q.Stride))
	}
	for _, q := range t.R32 {
		add(q.Lo, q.Hi, q.Stride)
	}
	return r
}

func (m *Machine) indexByte(b []Val, c Val) Val {
	conc := true
	for _, x := range b {
		if x.p != nil {
			conc = false
			break
		}
	}
	ce := m.bx(c)
	if conc && c.p != nil && len(b) <= 128 {
		r := m.x.Const(64, ^uint64(0))
		for i := len(b) - 1; i >= 0; i-- {
			r = m.x.Ite(m.x.Eq(ce, m.bx(b[i])), m.x.Const(64, uint64(i)), r)
		}
		return exVal(r)
	}
	for i, x := range b {
		if x.p == nil && c.p == nil {
			if x.n == c.n {
				return Val{n: uint64(i)}
			}
			continue
		}
		if m.fork(m.x.Eq(m.bx(x), ce)) {
			return Val{n: uint64(i)}
		}
	}
	return Val{n: ^uint64(0)}
}

func (m *Machine) lastIndexByte(b []Val, c Val) Val {
	ce := m.bx(c)
	for i := len(b) - 1; i >= 0; i-- {
		if m.fork(m.x.Eq(m.bx(b[i]), ce)) {
			return Val{n: uint64(i)}
		}
	}
	return Val{n: ^uint64(0)}
}

func (m *Machine) countByte(b []Val, c Val) Val {
	ce := m.bx(c)
	n := 0
	for _, x := range b {
		if m.fork(m.x.Eq(m.bx(x), ce)) {
			n++
		}
	}
	return Val{n: uint64(n)}
}

// newInput creates a fresh symbolic input with inclusive bounds.
func (m *Machine) newInput(kind string, w uint8, lo, hi int64) Val {
	if m.pendIdx < len(m.pend) {
		// re-execution cannot happen: inputs never fork
		panic(engineBug("newInput re-executed"))
	}
	id := len(m.varW)
	m.varW = append(m.varW, w)
	m.vst = append(m.vst, nil)
	e := m.x.Var(w, id)
	m.inputs = append(m.inputs, input{kind: kind, lo: lo, hi: hi, v: Val{p: e}, w: w, id: int32(id)})
	switch w {
	case 0:
	case 8:
		if lo > 0 {
			m.addPC(m.x.Not(m.x.Ult(e, m.x.Const(8, uint64(lo)))))
		}
		if hi < 255 {
			m.addPC(m.x.Not(m.x.Ult(m.x.Const(8, uint64(hi)), e)))
		}
	default:
		m.addPC(m.x.Not(m.x.Slt(e, m.x.Const(w, uint64(lo)))))
		m.addPC(m.x.Not(m.x.Slt(m.x.Const(w, uint64(hi)), e)))
	}
	return Val{p: e}
}

func (m *Machine) assert(c *Expr, msg string) {
	m.asserts++
	if c == m.x.T {
		return
	}
	if m.pendIdx < len(m.pend) {
		m.pendIdx++
		return
	}
	nc := m.x.Not(c)
	switch m.check(nc) {
	case rUnsat:
	case rSat:
		m.event("assert", msg, []*Expr{nc})
	default:
		m.event("inconclusive", msg, nil)
	}
	if c == m.x.F || m.check(c) == rUnsat {
		panic(pathAbort{"end", "assert"})
	}
	if !c.isConst() {
		m.addPC(c)
	}
	m.note(decision{d: 1}, false)
}

// showStr renders a possibly symbolic string using one model of the path.
func (m *Machine) showStr(v Val) string {
	var sb strings.Builder
	for _, b := range strBytes(v) {
		if b.p == nil {
			sb.WriteByte(byte(b.n))
			continue
		}
		x, ok := m.witness(b.p.(*Expr))
		if !ok {
			x = '?'
		}
		sb.WriteByte(byte(x))
	}
	return sb.String()
}

func atomicIntrinsic(name string) *Intrinsic {
	mk := func(f func(m *Machine, a []Val) Val) *Intrinsic {
		return &Intrinsic{name: name, f: func(m *Machine, g *Goroutine, fn *Fn, a []Val) (Val, bool) { return f(m, a), true }}
	}
	cell := func(a []Val) (*Obj, int) { o, _ := a[0].p.(*Obj); return o, int(a[0].n) }
	switch {
	case strings.HasPrefix(name, "Load"):
		return mk(func(m *Machine, a []Val) Val { o, i := cell(a); return o.get(i) })
	case strings.HasPrefix(name, "Store"):
		return mk(func(m *Machine, a []Val) Val { o, i := cell(a); m.set(o, i, a[1]); return Val{} })
	case strings.HasPrefix(name, "Add"):
		w := uint8(64)
		if strings.Contains(name, "32") {
			w = 32
		}
		return mk(func(m *Machine, a []Val) Val {
			o, i := cell(a)
			v := Val{n: mask(w, o.get(i).n+a[1].n)}
			m.set(o, i, v)
			return v
		})
	case strings.HasPrefix(name, "Swap"):
		return mk(func(m *Machine, a []Val) Val {
			o, i := cell(a)
			old := o.get(i)
			m.set(o, i, a[1])
			return old
		})
	case strings.HasPrefix(name, "CompareAndSwap"):
		return mk(func(m *Machine, a []Val) Val {
			o, i := cell(a)
			if o.get(i) == a[1] {
				m.set(o, i, a[2])
				return Val{n: 1}
			}
			return Val{}
		})
	}
	return nil
}

func skipInitPkg(p string) bool {
	switch p {
	case "internal/oserror", "internal/stringslite", "internal/itoa", "internal/filepathlite":
		return false
	case "runtime", "reflect", "errors", "os", "syscall", "time", "fmt", "log", "sync", "context", "unsafe", "sync/atomic", "iter", "unique", "weak", "io/ioutil", "bufio_", "encoding", "encoding/binary", "math/rand", "testing", "os/signal", "os/exec", "runtime/debug", "math/rand/v2", "hash/maphash", "os/user", "log/slog":
		return true
	}
	for _, pre := range []string{"internal/", "runtime/", "vendor/", "encoding/", "crypto/", "net"} {
		if strings.HasPrefix(p, pre) {
			return true
		}
	}
	return false
}
