package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

const (
	opNop uint8 = iota
	opBin
	opUn
	opLoad
	opStore
	opCall
	opInvoke
	opCallDyn
	opBuiltin
	opGo
	opDefer
	opRunDefers
	opPanic
	opReturn
	opIf
	opJump
	opAlloc
	opFieldAddr
	opField
	opIndexAddr
	opIndex
	opLookup
	opSlice
	opMakeMap
	opMakeChan
	opMakeSlice
	opMakeIface
	opMakeClosure
	opMapUpdate
	opRange
	opNext
	opTypeAssert
	opExtract
	opConvert
	opCopy
	opChangeIface
	opSend
	opRecv
	opSelect
	opUnsupported
)

const globalBase = 1 << 24

type Instr struct {
	op   uint8
	sub  token.Token
	flag bool
	dst  int32
	a, b int32
	c, d int32
	t    *TInfo
	t2   *TInfo
	args []int32
	x    any
	pos  token.Pos
}

type phi struct {
	dst   int32
	edges []int32
	t     *TInfo
}

type edge struct {
	blk  int32
	pred int32
}

type Block struct {
	start, end int32 // code range
	phis       []phi
	succ       []edge
	pure       bool // only pure instructions and a final If/Jump: may be speculated
}

type Fn struct {
	ssa     *ssa.Function
	name    string
	code    []Instr
	blocks  []Block
	blkOf   []int32
	consts  []Val
	nregs   int32
	nparams int
	recover int32 // block or -1
	intr    *Intrinsic
	once    sync.Once
	err     string
	execs   int64 // instructions executed (all workers)
	results []int32
	pure    int8 // summary state: 0 unknown 1 pure 2 not
	pkg     string
	retT    []*TInfo
	repo    bool // belongs to the code under test
}

type ssaCallInfo struct {
	builtin string
	invoke  *types.Func
	t       *TInfo
	args    []*TInfo
	resT    *TInfo
}

type Program struct {
	prog     *ssa.Program
	mu       sync.Mutex
	fns      map[*ssa.Function]*Fn
	list     []*Fn
	globals  map[*ssa.Global]int32
	glist    []*ssa.Global
	modPath  string
	skipInit map[string]bool
	redirect map[string]*ssa.Function
	rtErr    *TInfo // type of runtime errors
}

func (p *Program) global(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := int32(len(p.glist))
	p.glist = append(p.glist, g)
	p.globals[g] = i
	return i
}

// fn returns the compiled form of f; compilation happens on first use.
func (p *Program) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	c, ok := p.fns[f]
	if !ok {
		c = &Fn{ssa: f, name: fnName(f), recover: -1}
		p.fns[f] = c
		p.list = append(p.list, c)
	}
	p.mu.Unlock()
	c.once.Do(func() { p.compile(c) })
	return c
}

func fnName(f *ssa.Function) string {
	if f.Origin() != nil && f.Origin() != f {
		return f.Origin().String()
	}
	return f.String()
}

func (p *Program) compile(c *Fn) {
	f := c.ssa
	if f.Pkg != nil {
		c.pkg = f.Pkg.Pkg.Path()
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		c.pkg = f.Origin().Pkg.Pkg.Path()
	}
	if in := lookupIntrinsic(c.name); in != nil {
		c.intr = in
		return
	}
	if r, ok := p.redirect[c.name]; ok && r != f {
		c.intr = &Intrinsic{name: c.name, redirect: r}
		return
	}
	if len(f.Blocks) == 0 {
		c.err = "function without body: " + c.name
		return
	}
	k := &compiler{p: p, c: c, reg: map[ssa.Value]int32{}, cst: map[string]int32{}}
	for _, v := range f.Params {
		k.newReg(v)
	}
	for _, v := range f.FreeVars {
		k.newReg(v)
	}
	c.nparams = len(f.Params)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				k.newReg(v)
			}
		}
	}
	c.blocks = make([]Block, len(f.Blocks))
	for i, b := range f.Blocks {
		bl := &c.blocks[i]
		bl.start = int32(len(c.code))
		bl.pure = true
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				q := phi{dst: k.reg[ph], t: tinfo(ph.Type())}
				for _, e := range ph.Edges {
					q.edges = append(q.edges, k.val(e))
				}
				bl.phis = append(bl.phis, q)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ins, pure := k.instr(in)
			if !pure {
				bl.pure = false
			}
			ins.pos = in.Pos()
			c.code = append(c.code, ins)
			c.blkOf = append(c.blkOf, int32(i))
		}
		bl.end = int32(len(c.code))
		for j, s := range b.Succs {
			pi := -1
			skip := 0
			if j == 1 && b.Succs[0] == s {
				skip = 1
			}
			for q, pr := range s.Preds {
				if pr == b {
					if skip > 0 {
						skip--
						continue
					}
					pi = q
					break
				}
			}
			bl.succ = append(bl.succ, edge{int32(s.Index), int32(pi)})
		}
	}
	if f.Recover != nil {
		c.recover = int32(f.Recover.Index)
	}
	c.nregs = k.n
	sig := f.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		c.retT = append(c.retT, tinfo(sig.Results().At(i).Type()))
	}
	if pkgOf := c.pkg; pkgOf != "" {
		c.repo = isRepoPkg(pkgOf)
	}
}

func isRepoPkg(p string) bool {
	const mod = "github.com/cespare/goclj"
	if p == mod || p == mod+"/zz_cli" {
		return true
	}
	return strings.HasPrefix(p, mod+"/") && !strings.HasPrefix(p, mod+"/zz_")
}

type compiler struct {
	p   *Program
	c   *Fn
	reg map[ssa.Value]int32
	cst map[string]int32
	n   int32
}

func (k *compiler) newReg(v ssa.Value) {
	k.reg[v] = k.n
	k.n++
}

func (k *compiler) konst(v Val) int32 {
	k.c.consts = append(k.c.consts, v)
	return -int32(len(k.c.consts))
}

func (k *compiler) val(v ssa.Value) int32 {
	switch v := v.(type) {
	case *ssa.Const:
		return k.konst(constVal(v))
	case *ssa.Global:
		return -(globalBase + k.p.global(v))
	case *ssa.Function:
		return k.konst(Val{p: &Closure{fn: k.p.fnLazy(v)}})
	case *ssa.Builtin:
		return k.konst(Val{p: &Closure{bname: v.Name()}})
	}
	r, ok := k.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, k.c.name))
	}
	return r
}

// fnLazy registers a function without compiling it.
func (p *Program) fnLazy(f *ssa.Function) *Fn {
	p.mu.Lock()
	defer p.mu.Unlock()
	c, ok := p.fns[f]
	if !ok {
		c = &Fn{ssa: f, name: fnName(f), recover: -1}
		p.fns[f] = c
		p.list = append(p.list, c)
	}
	return c
}

func (p *Program) ready(c *Fn) *Fn {
	c.once.Do(func() { p.compile(c) })
	return c
}

func constVal(v *ssa.Const) Val {
	ti := tinfo(v.Type())
	if v.Value == nil {
		return Val{}
	}
	switch ti.kind {
	case kBool:
		if constant.BoolVal(v.Value) {
			return Val{n: 1}
		}
		return Val{}
	case kInt:
		if ti.signed {
			return Val{n: mask64(ti, uint64(v.Int64()))}
		}
		return Val{n: mask64(ti, v.Uint64())}
	case kFloat:
		return Val{n: math.Float64bits(v.Float64())}
	case kString:
		return strVal(constant.StringVal(v.Value))
	case kUnsafe:
		return Val{}
	case kIface, kPtr, kSlice:
		return Val{}
	}
	// constants of type parameter types and the like
	switch v.Value.Kind() {
	case constant.Int:
		i, _ := constant.Int64Val(v.Value)
		return Val{n: uint64(i)}
	case constant.String:
		return strVal(constant.StringVal(v.Value))
	}
	return Val{}
}

func mask64(ti *TInfo, n uint64) uint64 { return mask(ti.w, n) }

func strVal(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: &Str{s: s}}
}

func elemOf(t types.Type) *TInfo { return tinfo(t).elem }

func (k *compiler) instr(in ssa.Instruction) (Instr, bool) {
	var dst int32 = -1
	if v, ok := in.(ssa.Value); ok {
		dst = k.reg[v]
	}
	switch in := in.(type) {
	case *ssa.BinOp:
		i := Instr{op: opBin, sub: in.Op, dst: dst, a: k.val(in.X), b: k.val(in.Y), t: tinfo(in.X.Type()), t2: tinfo(in.Y.Type())}
		pure := i.t.kind == kInt || i.t.kind == kBool
		switch in.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			pure = false
			if c, ok := in.Y.(*ssa.Const); ok && i.t.kind == kInt && c.Value != nil && constant.Sign(c.Value) > 0 {
				pure = true
			}
		}
		if in.X.Type() != nil {
			// comparison with an untyped nil constant takes the other operand's type
			if c, ok := in.X.(*ssa.Const); ok && c.Value == nil {
				i.t = tinfo(in.Y.Type())
			}
		}
		return i, pure
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			return Instr{op: opLoad, dst: dst, a: k.val(in.X), t: tinfo(in.Type())}, false
		case token.ARROW:
			return Instr{op: opRecv, dst: dst, a: k.val(in.X), flag: in.CommaOk, t: tinfo(in.X.Type()).elem}, false
		}
		t := tinfo(in.X.Type())
		return Instr{op: opUn, sub: in.Op, dst: dst, a: k.val(in.X), t: t}, t.kind == kInt || t.kind == kBool
	case *ssa.Store:
		return Instr{op: opStore, a: k.val(in.Addr), b: k.val(in.Val), t: tinfo(in.Val.Type())}, false
	case *ssa.Alloc:
		return Instr{op: opAlloc, dst: dst, t: tinfo(in.Type()).elem, x: in.Comment}, false
	case *ssa.FieldAddr:
		st := tinfo(in.X.Type()).elem
		f := st.fields[in.Field]
		return Instr{op: opFieldAddr, dst: dst, a: k.val(in.X), c: int32(f.off), t: st}, false
	case *ssa.Field:
		st := tinfo(in.X.Type())
		f := st.fields[in.Field]
		return Instr{op: opField, dst: dst, a: k.val(in.X), c: int32(f.off), t: f.t}, false
	case *ssa.IndexAddr:
		xt := tinfo(in.X.Type())
		i := Instr{op: opIndexAddr, dst: dst, a: k.val(in.X), b: k.val(in.Index), t2: tinfo(in.Index.Type())}
		if xt.kind == kSlice {
			i.t = xt.elem
			i.flag = true
		} else {
			i.t = xt.elem.elem
			i.c = int32(xt.elem.alen)
		}
		return i, false
	case *ssa.Index:
		xt := tinfo(in.X.Type())
		i := Instr{op: opIndex, dst: dst, a: k.val(in.X), b: k.val(in.Index), t2: tinfo(in.Index.Type())}
		if xt.kind == kString {
			i.flag = true
		} else {
			i.t = xt.elem
			i.c = int32(xt.alen)
		}
		return i, false
	case *ssa.Lookup:
		xt := tinfo(in.X.Type())
		if xt.kind == kString {
			return Instr{op: opIndex, dst: dst, a: k.val(in.X), b: k.val(in.Index), t2: tinfo(in.Index.Type()), flag: true}, false
		}
		return Instr{op: opLookup, dst: dst, a: k.val(in.X), b: k.val(in.Index), t: xt, flag: in.CommaOk}, false
	case *ssa.Slice:
		i := Instr{op: opSlice, dst: dst, a: k.val(in.X), b: 0, c: 0, d: 0, t: tinfo(in.X.Type())}
		none := k.konst(Val{p: noArg{}})
		i.b, i.c, i.d = none, none, none
		if in.Low != nil {
			i.b = k.val(in.Low)
		}
		if in.High != nil {
			i.c = k.val(in.High)
		}
		if in.Max != nil {
			i.d = k.val(in.Max)
		}
		return i, false
	case *ssa.MakeMap:
		return Instr{op: opMakeMap, dst: dst, t: tinfo(in.Type())}, false
	case *ssa.MakeChan:
		return Instr{op: opMakeChan, dst: dst, a: k.val(in.Size), t: tinfo(in.Type())}, false
	case *ssa.MakeSlice:
		return Instr{op: opMakeSlice, dst: dst, a: k.val(in.Len), b: k.val(in.Cap), t: tinfo(in.Type()).elem}, false
	case *ssa.MakeInterface:
		return Instr{op: opMakeIface, dst: dst, a: k.val(in.X), t: tinfo(in.X.Type())}, false
	case *ssa.MakeClosure:
		i := Instr{op: opMakeClosure, dst: dst, x: k.p.fnLazy(in.Fn.(*ssa.Function))}
		for _, b := range in.Bindings {
			i.args = append(i.args, k.val(b))
		}
		return i, false
	case *ssa.MapUpdate:
		return Instr{op: opMapUpdate, a: k.val(in.Map), b: k.val(in.Key), c: k.val(in.Value), t: tinfo(in.Map.Type())}, false
	case *ssa.Range:
		return Instr{op: opRange, dst: dst, a: k.val(in.X), t: tinfo(in.X.Type())}, false
	case *ssa.Next:
		return Instr{op: opNext, dst: dst, a: k.val(in.Iter), flag: in.IsString}, false
	case *ssa.TypeAssert:
		return Instr{op: opTypeAssert, dst: dst, a: k.val(in.X), flag: in.CommaOk, t: tinfo(in.AssertedType), t2: tinfo(in.X.Type())}, false
	case *ssa.Extract:
		return Instr{op: opExtract, dst: dst, a: k.val(in.Tuple), c: int32(in.Index)}, false
	case *ssa.Convert:
		t, f := tinfo(in.Type()), tinfo(in.X.Type())
		pure := t.kind == kInt && f.kind == kInt
		return Instr{op: opConvert, dst: dst, a: k.val(in.X), t: t, t2: f}, pure
	case *ssa.MultiConvert:
		return Instr{op: opConvert, dst: dst, a: k.val(in.X), t: tinfo(in.Type()), t2: tinfo(in.X.Type())}, false
	case *ssa.ChangeType:
		return Instr{op: opCopy, dst: dst, a: k.val(in.X)}, true
	case *ssa.ChangeInterface:
		return Instr{op: opCopy, dst: dst, a: k.val(in.X)}, true
	case *ssa.Send:
		return Instr{op: opSend, a: k.val(in.Chan), b: k.val(in.X)}, false
	case *ssa.Select:
		i := Instr{op: opSelect, dst: dst, flag: in.Blocking}
		var cases []selCase
		for _, s := range in.States {
			sc := selCase{send: s.Dir == types.SendOnly, ch: k.val(s.Chan)}
			if s.Send != nil {
				sc.val = k.val(s.Send)
			}
			cases = append(cases, sc)
		}
		i.x = cases
		return i, false
	case *ssa.If:
		return Instr{op: opIf, a: k.val(in.Cond)}, true
	case *ssa.Jump:
		return Instr{op: opJump}, true
	case *ssa.Return:
		i := Instr{op: opReturn}
		for _, r := range in.Results {
			i.args = append(i.args, k.val(r))
		}
		return i, false
	case *ssa.RunDefers:
		return Instr{op: opRunDefers}, false
	case *ssa.Panic:
		return Instr{op: opPanic, a: k.val(in.X)}, false
	case *ssa.Go:
		i := k.call(&in.Call, -1)
		i.x = &callSite{op: i.op, x: i.x, t: i.t}
		i.op = opGo
		return i, false
	case *ssa.Defer:
		i := k.call(&in.Call, -1)
		i.x = &callSite{op: i.op, x: i.x, t: i.t}
		i.op = opDefer
		return i, false
	case *ssa.Call:
		i := k.call(&in.Call, dst)
		return i, false
	}
	return Instr{op: opUnsupported, x: fmt.Sprintf("%T %s", in, in)}, false
}

type noArg struct{}

type callSite struct {
	op uint8
	x  any
	t  *TInfo
}

type selCase struct {
	send bool
	ch   int32
	val  int32
}

type invokeInfo struct {
	m  *types.Func
	id string
}

type builtinInfo struct {
	name string
	ts   []*TInfo
	res  *TInfo
}

func (k *compiler) call(cc *ssa.CallCommon, dst int32) Instr {
	i := Instr{dst: dst}
	for _, a := range cc.Args {
		i.args = append(i.args, k.val(a))
	}
	if cc.IsInvoke() {
		i.op = opInvoke
		i.a = k.val(cc.Value)
		i.x = &invokeInfo{cc.Method, cc.Method.Id()}
		return i
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		i.op = opBuiltin
		bi := &builtinInfo{name: v.Name()}
		for _, a := range cc.Args {
			bi.ts = append(bi.ts, tinfo(a.Type()))
		}
		if r := cc.Signature().Results(); r.Len() == 1 {
			bi.res = tinfo(r.At(0).Type())
		}
		i.x = bi
		return i
	case *ssa.Function:
		i.op = opCall
		i.x = k.p.fnLazy(v)
		return i
	}
	i.op = opCallDyn
	i.a = k.val(cc.Value)
	return i
}

func addExecs(f *Fn, n int64) { atomic.AddInt64(&f.execs, n) }
