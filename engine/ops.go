package main

import (
	"fmt"
	"go/token"
	"math"
	"unicode/utf8"
)

func (m *Machine) binop(in *Instr, a, b Val) (Val, string) {
	t := in.t
	switch t.kind {
	case kInt:
		switch in.sub {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if a.p == nil && b.p == nil {
				return boolVal(cmpInt(in.sub, t, a.n, b.n)), ""
			}
			x, y := m.ex(a, t), m.ex(b, t)
			return exVal(m.cmpExpr(in.sub, t, x, y)), ""
		case token.SHL, token.SHR:
			return m.shift(in, a, b)
		}
		if a.p == nil && b.p == nil {
			r, perr := arith(in.sub, t, a.n, b.n)
			return Val{n: r}, perr
		}
		x, y := m.ex(a, t), m.ex(b, t)
		var op uint8
		switch in.sub {
		case token.ADD:
			op = oAdd
		case token.SUB:
			op = oSub
		case token.MUL:
			op = oMul
		case token.AND:
			op = oBand
		case token.OR:
			op = oBor
		case token.XOR:
			op = oBxor
		case token.AND_NOT:
			return exVal(m.x.Bin(oBand, x, m.x.Bnot(y))), ""
		case token.QUO, token.REM:
			if m.fork(m.x.Eq(y, m.x.Const(t.w, 0))) {
				return Val{}, "integer divide by zero"
			}
			switch {
			case in.sub == token.QUO && t.signed:
				op = oSdiv
			case in.sub == token.QUO:
				op = oUdiv
			case t.signed:
				op = oSrem
			default:
				op = oUrem
			}
		default:
			panic(engineBug("binop " + in.sub.String()))
		}
		return exVal(m.x.Bin(op, x, y)), ""
	case kBool:
		if a.p == nil && b.p == nil {
			switch in.sub {
			case token.EQL:
				return boolVal(a.n == b.n), ""
			case token.NEQ:
				return boolVal(a.n != b.n), ""
			}
		}
		x, y := m.ex(a, t), m.ex(b, t)
		switch in.sub {
		case token.EQL:
			return exVal(m.x.Ite(x, y, m.x.Not(y))), ""
		case token.NEQ:
			return exVal(m.x.Ite(x, m.x.Not(y), y)), ""
		case token.AND, token.LAND:
			return exVal(m.x.And(x, y)), ""
		case token.OR, token.LOR:
			return exVal(m.x.Or(x, y)), ""
		}
	case kString:
		switch in.sub {
		case token.ADD:
			return concat(a, b), ""
		case token.EQL:
			return exVal(m.strEq(a, b)), ""
		case token.NEQ:
			return exVal(m.x.Not(m.strEq(a, b))), ""
		case token.LSS:
			return exVal(m.strLess(a, b)), ""
		case token.GTR:
			return exVal(m.strLess(b, a)), ""
		case token.LEQ:
			return exVal(m.x.Not(m.strLess(b, a))), ""
		case token.GEQ:
			return exVal(m.x.Not(m.strLess(a, b))), ""
		}
	case kFloat:
		if a.p != nil || b.p != nil {
			panic(pathAbort{"unsupported", "symbolic floating point"})
		}
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		fl := func(f float64) (Val, string) {
			if t.w == 32 {
				f = float64(float32(f))
			}
			return Val{n: math.Float64bits(f)}, ""
		}
		switch in.sub {
		case token.ADD:
			return fl(x + y)
		case token.SUB:
			return fl(x - y)
		case token.MUL:
			return fl(x * y)
		case token.QUO:
			return fl(x / y)
		case token.EQL:
			return boolVal(x == y), ""
		case token.NEQ:
			return boolVal(x != y), ""
		case token.LSS:
			return boolVal(x < y), ""
		case token.LEQ:
			return boolVal(x <= y), ""
		case token.GTR:
			return boolVal(x > y), ""
		case token.GEQ:
			return boolVal(x >= y), ""
		}
	default:
		switch in.sub {
		case token.EQL, token.NEQ:
			ta, tb := in.t, in.t2
			var e *Expr
			var perr string
			if ta.kind == kIface && tb.kind != kIface && b.p != nil {
				e, perr = m.eqIface(a, Val{p: &Iface{tb, b}})
			} else if tb.kind == kIface && ta.kind != kIface && a.p != nil {
				e, perr = m.eqIface(Val{p: &Iface{ta, a}}, b)
			} else {
				e, perr = m.eq(a, b, ta)
			}
			if perr != "" {
				return Val{}, perr
			}
			if in.sub == token.NEQ {
				e = m.x.Not(e)
			}
			return exVal(e), ""
		}
	}
	panic(engineBug(fmt.Sprintf("binop %s on %s", in.sub, t)))
}

func cmpInt(op token.Token, t *TInfo, a, b uint64) bool {
	if t.signed {
		x, y := sx(t.w, a), sx(t.w, b)
		switch op {
		case token.EQL:
			return x == y
		case token.NEQ:
			return x != y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		}
		return x >= y
	}
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	}
	return a >= b
}

func (m *Machine) cmpExpr(op token.Token, t *TInfo, x, y *Expr) *Expr {
	switch op {
	case token.EQL:
		return m.x.Eq(x, y)
	case token.NEQ:
		return m.x.Not(m.x.Eq(x, y))
	}
	lt := m.x.Ult
	if t.signed {
		lt = m.x.Slt
	}
	switch op {
	case token.LSS:
		return lt(x, y)
	case token.GTR:
		return lt(y, x)
	case token.LEQ:
		return m.x.Not(lt(y, x))
	}
	return m.x.Not(lt(x, y))
}

func arith(op token.Token, t *TInfo, a, b uint64) (uint64, string) {
	w := t.w
	switch op {
	case token.ADD:
		return mask(w, a+b), ""
	case token.SUB:
		return mask(w, a-b), ""
	case token.MUL:
		return mask(w, a*b), ""
	case token.AND:
		return a & b, ""
	case token.OR:
		return a | b, ""
	case token.XOR:
		return mask(w, a^b), ""
	case token.AND_NOT:
		return a &^ b, ""
	case token.QUO, token.REM:
		if b == 0 {
			return 0, "integer divide by zero"
		}
		var o uint8
		switch {
		case op == token.QUO && t.signed:
			o = oSdiv
		case op == token.QUO:
			o = oUdiv
		case t.signed:
			o = oSrem
		default:
			o = oUrem
		}
		return evalBin(o, w, a, b), ""
	}
	panic(engineBug("arith " + op.String()))
}

func (m *Machine) shift(in *Instr, a, b Val) (Val, string) {
	t, t2 := in.t, in.t2
	if b.p == nil {
		n := b.n
		if t2.signed && sx(t2.w, n) < 0 {
			return Val{}, "negative shift amount"
		}
		if a.p == nil {
			if in.sub == token.SHL {
				if n >= uint64(t.w) {
					return Val{}, ""
				}
				return Val{n: mask(t.w, a.n<<n)}, ""
			}
			if t.signed {
				if n >= uint64(t.w) {
					n = uint64(t.w) - 1
				}
				return Val{n: mask(t.w, uint64(sx(t.w, a.n)>>n))}, ""
			}
			if n >= uint64(t.w) {
				return Val{}, ""
			}
			return Val{n: a.n >> n}, ""
		}
		x := a.p.(*Expr)
		if n > uint64(t.w) {
			n = uint64(t.w)
		}
		k := m.x.Const(t.w, n)
		if in.sub == token.SHL {
			return exVal(m.x.Bin(oShl, x, k)), ""
		}
		if t.signed {
			if n >= uint64(t.w) {
				k = m.x.Const(t.w, uint64(t.w)-1)
			}
			return exVal(m.x.Bin(oAshr, x, k)), ""
		}
		return exVal(m.x.Bin(oLshr, x, k)), ""
	}
	n := m.concretize(b.p.(*Expr))
	return m.shift(in, a, Val{n: n})
}

func (m *Machine) unop(in *Instr, a Val) Val {
	t := in.t
	switch in.sub {
	case token.NOT:
		if a.p == nil {
			return boolVal(a.n == 0)
		}
		return exVal(m.x.Not(a.p.(*Expr)))
	case token.SUB:
		if t.kind == kFloat {
			return Val{n: math.Float64bits(-math.Float64frombits(a.n))}
		}
		if a.p == nil {
			return Val{n: mask(t.w, -a.n)}
		}
		return exVal(m.x.Neg(a.p.(*Expr)))
	case token.XOR:
		if a.p == nil {
			return Val{n: mask(t.w, ^a.n)}
		}
		return exVal(m.x.Bnot(a.p.(*Expr)))
	}
	panic(engineBug("unop " + in.sub.String()))
}

func (m *Machine) convInt(v Val, from, to *TInfo) Val {
	if v.p == nil {
		if from.signed {
			return Val{n: mask(to.w, uint64(sx(from.w, v.n)))}
		}
		return Val{n: mask(to.w, v.n)}
	}
	e := v.p.(*Expr)
	switch {
	case to.w == e.w:
		return v
	case to.w < e.w:
		return exVal(m.x.Trunc(to.w, e))
	case from.signed:
		return exVal(m.x.Sext(to.w, e))
	}
	return exVal(m.x.Zext(to.w, e))
}

func (m *Machine) convert(v Val, from, to *TInfo) Val {
	switch {
	case from.kind == kInt && to.kind == kInt:
		return m.convInt(v, from, to)
	case from.kind == kInt && to.kind == kString:
		r := m.convInt(v, from, &TInfo{kind: kInt, w: 32, signed: true})
		return mkStr(m.encodeRune(r))
	case from.kind == kString && to.kind == kSlice:
		if to.elem.w == 8 {
			return m.bytesToSlice(strBytes(v))
		}
		bs := strBytes(v)
		var rs []Val
		for i := 0; i < len(bs); {
			r, n := m.decodeRune(bs[i:])
			rs = append(rs, r)
			i += n
		}
		return m.bytesToSlice(rs)
	case from.kind == kSlice && to.kind == kString:
		s, _ := v.p.(*Slice)
		if s == nil {
			return Val{}
		}
		if from.elem.w == 8 {
			return mkStr(sliceCells(s))
		}
		var out []Val
		for _, r := range sliceCells(s) {
			out = append(out, m.encodeRune(r)...)
		}
		return mkStr(out)
	case from.kind == kInt && to.kind == kFloat:
		if v.p != nil {
			panic(pathAbort{"unsupported", "symbolic int to float"})
		}
		var f float64
		if from.signed {
			f = float64(sx(from.w, v.n))
		} else {
			f = float64(v.n)
		}
		return Val{n: math.Float64bits(f)}
	case from.kind == kFloat && to.kind == kInt:
		f := math.Float64frombits(v.n)
		if to.signed {
			return Val{n: mask(to.w, uint64(int64(f)))}
		}
		return Val{n: mask(to.w, uint64(f))}
	case from.kind == kFloat && to.kind == kFloat:
		if to.w == 32 {
			return Val{n: math.Float64bits(float64(float32(math.Float64frombits(v.n))))}
		}
		return v
	}
	// pointers, unsafe pointers, same-shape conversions
	return v
}

// ---- strings ----

var byteT = &TInfo{kind: kInt, w: 8}
var runeT = &TInfo{kind: kInt, w: 32, signed: true}
var intT = &TInfo{kind: kInt, w: 64, signed: true}

func strLen(v Val) int {
	if v.p == nil {
		return 0
	}
	return len(v.p.(*Str).s)
}

func strBytes(v Val) []Val {
	if v.p == nil {
		return nil
	}
	s := v.p.(*Str)
	out := make([]Val, len(s.s))
	for i := range out {
		if s.e != nil && s.e[i] != nil {
			out[i] = Val{p: s.e[i]}
		} else {
			out[i] = Val{n: uint64(s.s[i])}
		}
	}
	return out
}

func strAt(v Val, i int) Val {
	s := v.p.(*Str)
	if s.e != nil && s.e[i] != nil {
		return Val{p: s.e[i]}
	}
	return Val{n: uint64(s.s[i])}
}

func isConcStr(v Val) bool {
	if v.p == nil {
		return true
	}
	return v.p.(*Str).e == nil
}

// goStr returns the concrete text of v; symbolic bytes come out as '?'.
func goStr(v Val) string {
	if v.p == nil {
		return ""
	}
	return v.p.(*Str).s
}

func mkStr(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	raw := make([]byte, len(b))
	var e []*Expr
	for i, c := range b {
		if c.p != nil {
			if e == nil {
				e = make([]*Expr, len(b))
			}
			e[i] = c.p.(*Expr)
			raw[i] = '?'
		} else {
			raw[i] = byte(c.n)
		}
	}
	return Val{p: &Str{string(raw), e}}
}

func substr(v Val, i, j int) Val {
	if i == j {
		return Val{}
	}
	s := v.p.(*Str)
	if i == 0 && j == len(s.s) {
		return v
	}
	r := &Str{s: s.s[i:j]}
	if s.e != nil {
		for k := i; k < j; k++ {
			if s.e[k] != nil {
				r.e = s.e[i:j:j]
				break
			}
		}
	}
	return Val{p: r}
}

func concat(a, b Val) Val {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	x, y := a.p.(*Str), b.p.(*Str)
	r := &Str{s: x.s + y.s}
	if x.e != nil || y.e != nil {
		r.e = make([]*Expr, len(r.s))
		if x.e != nil {
			copy(r.e, x.e)
		}
		if y.e != nil {
			copy(r.e[len(x.s):], y.e)
		}
	}
	return Val{p: r}
}

func (m *Machine) bx(v Val) *Expr { return m.ex(v, byteT) }

func (m *Machine) strEq(a, b Val) *Expr {
	n := strLen(a)
	if n != strLen(b) {
		return m.x.F
	}
	if n == 0 {
		return m.x.T
	}
	x, y := a.p.(*Str), b.p.(*Str)
	if x == y {
		return m.x.T
	}
	if x.e == nil && y.e == nil {
		return m.x.Bool(x.s == y.s)
	}
	// concrete mismatches first
	for i := 0; i < n; i++ {
		if (x.e == nil || x.e[i] == nil) && (y.e == nil || y.e[i] == nil) && x.s[i] != y.s[i] {
			return m.x.F
		}
	}
	r := m.x.T
	for i := 0; i < n; i++ {
		p, q := strAt(a, i), strAt(b, i)
		if p == q {
			continue
		}
		r = m.x.And(r, m.x.Eq(m.bx(p), m.bx(q)))
		if r == m.x.F {
			return r
		}
	}
	return r
}

func (m *Machine) strLess(a, b Val) *Expr {
	na, nb := strLen(a), strLen(b)
	n := na
	if nb < n {
		n = nb
	}
	r := m.x.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		p, q := m.bx(strAt(a, i)), m.bx(strAt(b, i))
		r = m.x.Or(m.x.Ult(p, q), m.x.And(m.x.Eq(p, q), r))
	}
	return r
}

// encodeRune returns the UTF-8 bytes of a rune value.
func (m *Machine) encodeRune(v Val) []Val {
	if v.p == nil {
		r := rune(int32(uint32(v.n)))
		var out []Val
		for _, b := range []byte(string(r)) {
			out = append(out, Val{n: uint64(b)})
		}
		return out
	}
	e := v.p.(*Expr)
	if e.utf8 != nil {
		out := make([]Val, len(e.utf8))
		for i, b := range e.utf8 {
			out[i] = exVal(b)
		}
		return out
	}
	k := func(n uint64) *Expr { return m.x.Const(32, n) }
	if m.fork(m.x.Ult(e, k(0x80))) {
		return []Val{exVal(m.x.Trunc(8, e))}
	}
	cont := func(sh uint64) Val {
		return exVal(m.x.Trunc(8, m.x.Bin(oBor, k(0x80), m.x.Bin(oBand, m.x.Bin(oLshr, e, k(sh)), k(0x3f)))))
	}
	lead := func(sh, tag uint64) Val {
		return exVal(m.x.Trunc(8, m.x.Bin(oBor, k(tag), m.x.Bin(oLshr, e, k(sh)))))
	}
	if m.fork(m.x.Ult(e, k(0x800))) {
		return []Val{lead(6, 0xC0), cont(0)}
	}
	bad := m.x.Or(m.x.Ult(k(0x10FFFF), e), m.x.And(m.x.Not(m.x.Ult(e, k(0xD800))), m.x.Ult(e, k(0xE000))))
	if m.fork(bad) {
		return []Val{{n: 0xEF}, {n: 0xBF}, {n: 0xBD}}
	}
	if m.fork(m.x.Ult(e, k(0x10000))) {
		return []Val{lead(12, 0xE0), cont(6), cont(0)}
	}
	return []Val{lead(18, 0xF0), cont(12), cont(6), cont(0)}
}

// decodeRune decodes the first rune of b (not empty).
func (m *Machine) decodeRune(b []Val) (Val, int) {
	conc := true
	n := len(b)
	if n > 4 {
		n = 4
	}
	if b[0].p == nil && b[0].n < 0x80 {
		return Val{n: b[0].n}, 1
	}
	var raw [4]byte
	for i := 0; i < n; i++ {
		if b[i].p != nil {
			conc = false
			break
		}
		raw[i] = byte(b[i].n)
	}
	if conc {
		r, w := utf8.DecodeRune(raw[:n])
		return Val{n: uint64(uint32(r))}, w
	}
	x := m.x
	k := func(v uint64) *Expr { return x.Const(8, v) }
	rng := func(e *Expr, lo, hi uint64) *Expr { return x.And(x.Not(x.Ult(e, k(lo))), x.Not(x.Ult(k(hi), e))) }
	b0 := m.bx(b[0])
	bad := Val{n: 0xFFFD}
	if m.fork(x.Ult(b0, k(0x80))) {
		e := x.Zext(32, b0)
		return exVal(e), 1
	}
	z := func(e *Expr, maskv, sh uint64) *Expr {
		return x.Bin(oShl, x.Bin(oBand, x.Zext(32, e), x.Const(32, maskv)), x.Const(32, sh))
	}
	or := func(a, b *Expr) *Expr { return x.Bin(oBor, a, b) }
	mk := func(e *Expr, bs ...*Expr) Val {
		if !e.isConst() {
			e.utf8 = bs
		}
		return exVal(e)
	}
	if m.fork(rng(b0, 0xC2, 0xDF)) {
		if n < 2 {
			return bad, 1
		}
		b1 := m.bx(b[1])
		if !m.fork(rng(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		return mk(or(z(b0, 0x1F, 6), z(b1, 0x3F, 0)), b0, b1), 2
	}
	if m.fork(rng(b0, 0xE0, 0xEF)) {
		if n < 2 {
			return bad, 1
		}
		b1 := m.bx(b[1])
		ok := x.Or(x.And(x.Eq(b0, k(0xE0)), rng(b1, 0xA0, 0xBF)),
			x.Or(x.And(x.Eq(b0, k(0xED)), rng(b1, 0x80, 0x9F)),
				x.And(x.And(x.Not(x.Eq(b0, k(0xE0))), x.Not(x.Eq(b0, k(0xED)))), rng(b1, 0x80, 0xBF))))
		if n < 3 {
			return bad, 1
		}
		b2 := m.bx(b[2])
		if !m.fork(x.And(ok, rng(b2, 0x80, 0xBF))) {
			return bad, 1
		}
		return mk(or(or(z(b0, 0x0F, 12), z(b1, 0x3F, 6)), z(b2, 0x3F, 0)), b0, b1, b2), 3
	}
	if m.fork(rng(b0, 0xF0, 0xF4)) {
		if n < 4 {
			return bad, 1
		}
		b1, b2, b3 := m.bx(b[1]), m.bx(b[2]), m.bx(b[3])
		ok := x.Or(x.And(x.Eq(b0, k(0xF0)), rng(b1, 0x90, 0xBF)),
			x.Or(x.And(x.Eq(b0, k(0xF4)), rng(b1, 0x80, 0x8F)),
				x.And(x.And(x.Not(x.Eq(b0, k(0xF0))), x.Not(x.Eq(b0, k(0xF4)))), rng(b1, 0x80, 0xBF))))
		if !m.fork(x.And(ok, x.And(rng(b2, 0x80, 0xBF), rng(b3, 0x80, 0xBF)))) {
			return bad, 1
		}
		return mk(or(or(z(b0, 0x07, 18), z(b1, 0x3F, 12)), or(z(b2, 0x3F, 6), z(b3, 0x3F, 0))), b0, b1, b2, b3), 4
	}
	return bad, 1
}

func (m *Machine) bytesToSlice(b []Val) Val {
	o := m.newObj(len(b))
	o.cells = append([]Val(nil), b...)
	return Val{p: &Slice{obj: o, len: len(b), cap: len(b)}}
}

// sliceCells returns the cells of a slice of one-cell elements.
func sliceCells(s *Slice) []Val {
	out := make([]Val, s.len)
	for i := range out {
		out[i] = s.obj.get(s.off + i)
	}
	return out
}

// ---- indexing ----

func (m *Machine) indexAddr(f *Frame, in *Instr) string {
	xv := m.val(f, in.a)
	iv := m.val(f, in.b)
	var obj *Obj
	var off, n int
	if in.flag {
		s, _ := xv.p.(*Slice)
		if s != nil {
			obj, off, n = s.obj, s.off, s.len
		}
	} else {
		switch o := xv.p.(type) {
		case *Obj:
			obj, off, n = o, int(xv.n), int(in.c)
		case *SymPtr:
			i := m.concretize(o.idx)
			obj, off, n = o.obj, o.off+int(i)*o.strd, int(in.c)
		default:
			return "invalid memory address or nil pointer dereference"
		}
	}
	if iv.p == nil {
		i := int64(iv.n)
		if in.t2.kind == kInt && in.t2.w < 64 && in.t2.signed {
			i = sx(in.t2.w, iv.n)
		}
		if i < 0 || i >= int64(n) {
			return fmt.Sprintf("index out of range [%d] with length %d", i, n)
		}
		f.regs[in.dst] = Val{p: obj, n: uint64(off + int(i)*in.t.size)}
		return ""
	}
	e := m.idx64(iv, in.t2)
	if !m.fork(m.x.Ult(e, m.x.Const(64, uint64(n)))) {
		return "index out of range [symbolic] with length " + fmt.Sprint(n)
	}
	f.regs[in.dst] = Val{p: &SymPtr{obj: obj, off: off, n: n, strd: in.t.size, idx: e, ti: in.t}}
	return ""
}

func (m *Machine) idx64(v Val, t *TInfo) *Expr {
	e := v.p.(*Expr)
	if e.w < 64 {
		if t.signed {
			return m.x.Sext(64, e)
		}
		return m.x.Zext(64, e)
	}
	return e
}

func (m *Machine) index(f *Frame, in *Instr) string {
	xv := m.val(f, in.a)
	iv := m.val(f, in.b)
	var n int
	if in.flag {
		n = strLen(xv)
	} else {
		n = int(in.c)
	}
	if iv.p == nil {
		i := int64(iv.n)
		if in.t2.w < 64 && in.t2.signed {
			i = sx(in.t2.w, iv.n)
		}
		if i < 0 || i >= int64(n) {
			return fmt.Sprintf("index out of range [%d] with length %d", i, n)
		}
		if in.flag {
			f.regs[in.dst] = strAt(xv, int(i))
		} else {
			c := aggCells(xv, n*in.t.size)
			f.regs[in.dst] = fromCells(c[int(i)*in.t.size:(int(i)+1)*in.t.size], in.t)
		}
		return ""
	}
	e := m.idx64(iv, in.t2)
	if !m.fork(m.x.Ult(e, m.x.Const(64, uint64(n)))) {
		return "index out of range [symbolic] with length " + fmt.Sprint(n)
	}
	if in.flag {
		f.regs[in.dst] = m.selectVals(strBytes(xv), e, byteT)
		return ""
	}
	if in.t.kind == kInt || in.t.kind == kBool {
		f.regs[in.dst] = m.selectVals(aggCells(xv, n), e, in.t)
		return ""
	}
	i := int(m.concretize(e))
	c := aggCells(xv, n*in.t.size)
	f.regs[in.dst] = fromCells(c[i*in.t.size:(i+1)*in.t.size], in.t)
	return ""
}

func (m *Machine) slice(f *Frame, in *Instr) (Val, string) {
	xv := m.val(f, in.a)
	arg := func(o int32, def int) (int, bool) {
		v := m.val(f, o)
		if _, ok := v.p.(noArg); ok {
			return def, true
		}
		return int(m.concInt(v)), true
	}
	switch in.t.kind {
	case kString:
		n := strLen(xv)
		lo, _ := arg(in.b, 0)
		hi, _ := arg(in.c, n)
		if hi < 0 || hi > n {
			return Val{}, fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			return Val{}, fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)
		}
		return substr(xv, lo, hi), ""
	case kSlice, kPtr:
		var s Slice
		var stride int
		if in.t.kind == kSlice {
			p, _ := xv.p.(*Slice)
			if p != nil {
				s = *p
			}
			stride = in.t.elem.size
		} else {
			o, _ := xv.p.(*Obj)
			if o == nil {
				return Val{}, "invalid memory address or nil pointer dereference"
			}
			at := in.t.elem
			s = Slice{obj: o, off: int(xv.n), len: at.alen, cap: at.alen}
			stride = at.elem.size
		}
		lo, _ := arg(in.b, 0)
		hi, _ := arg(in.c, s.len)
		mx, _ := arg(in.d, s.cap)
		if mx < 0 || mx > s.cap {
			return Val{}, fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, s.cap)
		}
		if hi < 0 || hi > mx {
			return Val{}, fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, mx)
		}
		if lo < 0 || lo > hi {
			return Val{}, fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)
		}
		if s.obj == nil {
			return Val{}, ""
		}
		return Val{p: &Slice{obj: s.obj, off: s.off + lo*stride, len: hi - lo, cap: mx - lo}}, ""
	}
	panic(engineBug("slice of " + in.t.str))
}

// ---- equality ----

func (m *Machine) eqIface(a, b Val) (*Expr, string) {
	x, _ := a.p.(*Iface)
	y, _ := b.p.(*Iface)
	if x == nil || y == nil {
		return m.x.Bool(x == nil && y == nil), ""
	}
	if x.t != y.t {
		return m.x.F, ""
	}
	return m.eq(x.v, y.v, x.t)
}

func (m *Machine) eq(a, b Val, t *TInfo) (*Expr, string) {
	switch t.kind {
	case kInt, kBool:
		return m.x.Eq(m.ex(a, t), m.ex(b, t)), ""
	case kFloat:
		return m.x.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n)), ""
	case kString:
		return m.strEq(a, b), ""
	case kIface:
		return m.eqIface(a, b)
	case kStruct:
		r := m.x.T
		ca, cb := aggCells(a, t.size), aggCells(b, t.size)
		for _, fl := range t.fields {
			e, perr := m.eq(fromCells2(ca, fl.off, fl.t), fromCells2(cb, fl.off, fl.t), fl.t)
			if perr != "" {
				return nil, perr
			}
			r = m.x.And(r, e)
		}
		return r, ""
	case kArray:
		r := m.x.T
		ca, cb := aggCells(a, t.size), aggCells(b, t.size)
		for i := 0; i < t.alen; i++ {
			e, perr := m.eq(fromCells2(ca, i*t.elem.size, t.elem), fromCells2(cb, i*t.elem.size, t.elem), t.elem)
			if perr != "" {
				return nil, perr
			}
			r = m.x.And(r, e)
		}
		return r, ""
	case kPtr, kUnsafe, kChan:
		return m.x.Bool(a.p == b.p && (a.p == nil || a.n == b.n)), ""
	case kSlice, kMap, kFunc:
		if a.p != nil && b.p != nil {
			return nil, "comparing uncomparable type " + t.str
		}
		return m.x.Bool(a.p == nil && b.p == nil), ""
	}
	panic(engineBug("eq on " + t.str))
}

func fromCells2(c []Val, off int, t *TInfo) Val {
	if t.kind == kStruct || t.kind == kArray {
		return Val{p: &Agg{c: c[off : off+t.size]}}
	}
	return c[off]
}

// ---- interfaces ----

func (m *Machine) typeAssert(in *Instr, v Val) (Val, string) {
	ifc, _ := v.p.(*Iface)
	ok := false
	var res Val
	if ifc != nil {
		if in.t.kind == kIface {
			if implements(ifc.t, in.t) {
				ok = true
				res = v
			}
		} else if ifc.t == in.t {
			ok = true
			res = ifc.v
		}
	}
	if in.flag {
		if !ok {
			res = Val{}
		}
		return Val{p: &Agg{c: []Val{res, boolVal(ok)}}}, ""
	}
	if !ok {
		if ifc == nil {
			return Val{}, "interface conversion: interface is nil, not " + in.t.str
		}
		return Val{}, "interface conversion: " + ifc.t.str + " is not " + in.t.str
	}
	return res, ""
}
