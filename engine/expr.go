package main

import (
	"fmt"
	"sort"
	"strings"
)

// Expr is a hash-consed bit-vector (w in 8,16,32,64) or boolean (w==0) term.
// Tables are per worker; terms of different workers never meet.
type Expr struct {
	op      uint8
	w       uint8
	a, b, c *Expr
	k       uint64
	id      uint32
	size    uint32
	vars    []int32 // sorted ids of the variables occurring in the term
	tmpl    int32   // interned text with the single variable renamed (0: not computed)
	utf8    []*Expr // bytes this rune was decoded from, if any
	utf8c   []byte
}

const (
	oVar uint8 = iota
	oConst
	oNot
	oAnd
	oOr
	oEq
	oUlt
	oUle
	oSlt
	oSle
	oIte
	oAdd
	oSub
	oMul
	oUdiv
	oUrem
	oSdiv
	oSrem
	oBand
	oBor
	oBxor
	oShl
	oLshr
	oAshr
	oZext
	oSext
	oTrunc
	oBnot
	oNeg
)

type ekey struct {
	op, w   uint8
	a, b, c uint32
	k       uint64
}

// Ectx is a term table.
type Ectx struct {
	tab  map[ekey]*Expr
	next uint32
	T, F *Expr
	vars []*Expr // variable terms by (id,width) are interned like anything else
}

func newEctx() *Ectx {
	c := &Ectx{tab: make(map[ekey]*Expr, 1<<12), next: 1}
	c.T = c.mk(oConst, 0, nil, nil, nil, 1)
	c.F = c.mk(oConst, 0, nil, nil, nil, 0)
	return c
}

func eid(e *Expr) uint32 {
	if e == nil {
		return 0
	}
	return e.id
}

func mergeVars(x, y []int32) []int32 {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	if len(x) == 1 && len(y) == 1 && x[0] == y[0] {
		return x
	}
	// subset tests avoid most allocations
	out := make([]int32, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] == y[j]:
			out = append(out, x[i])
			i++
			j++
		case x[i] < y[j]:
			out = append(out, x[i])
			i++
		default:
			out = append(out, y[j])
			j++
		}
	}
	out = append(out, x[i:]...)
	out = append(out, y[j:]...)
	if len(out) == len(x) {
		return x
	}
	if len(out) == len(y) {
		return y
	}
	return out
}

func (c *Ectx) mk(op, w uint8, a, b, d *Expr, k uint64) *Expr {
	key := ekey{op, w, eid(a), eid(b), eid(d), k}
	if e, ok := c.tab[key]; ok {
		return e
	}
	e := &Expr{op: op, w: w, a: a, b: b, c: d, k: k, id: c.next, size: 1}
	c.next++
	for _, s := range [3]*Expr{a, b, d} {
		if s != nil {
			e.vars = mergeVars(e.vars, s.vars)
			e.size += s.size
			if e.size > 1<<30 {
				e.size = 1 << 30
			}
		}
	}
	if op == oVar {
		e.vars = []int32{int32(k)}
	}
	c.tab[key] = e
	return e
}

func mask(w uint8, k uint64) uint64 {
	if w >= 64 {
		return k
	}
	if w == 0 {
		return k & 1
	}
	return k & (1<<w - 1)
}

func sx(w uint8, k uint64) int64 {
	switch w {
	case 8:
		return int64(int8(k))
	case 16:
		return int64(int16(k))
	case 32:
		return int64(int32(k))
	}
	return int64(k)
}

func (c *Ectx) Const(w uint8, k uint64) *Expr { return c.mk(oConst, w, nil, nil, nil, mask(w, k)) }
func (c *Ectx) Bool(b bool) *Expr {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ectx) Var(w uint8, id int) *Expr { return c.mk(oVar, w, nil, nil, nil, uint64(id)) }

func (e *Expr) isConst() bool { return e.op == oConst }

func (c *Ectx) Not(a *Expr) *Expr {
	switch a.op {
	case oConst:
		return c.Bool(a.k == 0)
	case oNot:
		return a.a
	}
	return c.mk(oNot, 0, a, nil, nil, 0)
}

func (c *Ectx) And(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T {
		return b
	}
	if b == c.T {
		return a
	}
	if (a.op == oNot && a.a == b) || (b.op == oNot && b.a == a) {
		return c.F
	}
	return c.mk(oAnd, 0, a, b, nil, 0)
}

func (c *Ectx) Or(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F {
		return b
	}
	if b == c.F {
		return a
	}
	if (a.op == oNot && a.a == b) || (b.op == oNot && b.a == a) {
		return c.T
	}
	return c.mk(oOr, 0, a, b, nil, 0)
}

func (c *Ectx) Ite(p, a, b *Expr) *Expr {
	if p == c.T {
		return a
	}
	if p == c.F {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == c.T {
			return c.Or(p, b)
		}
		if a == c.F {
			return c.And(c.Not(p), b)
		}
		if b == c.T {
			return c.Or(c.Not(p), a)
		}
		if b == c.F {
			return c.And(p, a)
		}
	}
	return c.mk(oIte, a.w, p, a, b, 0)
}

func (c *Ectx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.T
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		if a.isConst() {
			return c.Bool(a.k == b.k)
		}
		if a.w == 0 {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
		switch a.op {
		case oZext:
			if mask(a.a.w, b.k) != b.k {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case oSext:
			if uint64(sx(a.a.w, b.k))&maskAll(a.w) != b.k {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case oIte:
			if a.b.isConst() || a.c.isConst() || (a.b.op == oIte && a.size < 400) || (a.c.op == oIte && a.size < 400) {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case oAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		}
	} else if a.op == oZext && b.op == oZext && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return c.mk(oEq, 0, a, b, nil, 0)
}

func maskAll(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func (c *Ectx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k < b.k)
	}
	if b.isConst() {
		if b.k == 0 {
			return c.F
		}
		if a.op == oZext {
			if b.k > maskAll(a.a.w) {
				return c.T
			}
			return c.Ult(a.a, c.Const(a.a.w, b.k))
		}
		if a.op == oIte && (a.b.isConst() || a.c.isConst()) {
			return c.Ite(a.a, c.Ult(a.b, b), c.Ult(a.c, b))
		}
	}
	if a.isConst() {
		if a.k == maskAll(a.w) {
			return c.F
		}
		if b.op == oZext {
			if a.k >= maskAll(b.a.w) {
				return c.F
			}
			return c.Ult(c.Const(b.a.w, a.k), b.a)
		}
		if b.op == oIte && (b.b.isConst() || b.c.isConst()) {
			return c.Ite(b.a, c.Ult(a, b.b), c.Ult(a, b.c))
		}
	}
	if a.op == oZext && b.op == oZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(oUlt, 0, a, b, nil, 0)
}

func (c *Ectx) Ule(a, b *Expr) *Expr { return c.Not(c.Ult(b, a)) }

func (c *Ectx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(sx(a.w, a.k) < sx(b.w, b.k))
	}
	nonneg := func(e *Expr) bool {
		return e.op == oZext && e.a.w < e.w || e.op == oConst && sx(e.w, e.k) >= 0
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if b.isConst() && sx(b.w, b.k) <= 0 && nonneg(a) {
		return c.F
	}
	if a.isConst() && sx(a.w, a.k) < 0 && nonneg(b) {
		return c.T
	}
	if b.isConst() && a.op == oIte && (a.b.isConst() || a.c.isConst()) {
		return c.Ite(a.a, c.Slt(a.b, b), c.Slt(a.c, b))
	}
	if a.isConst() && b.op == oIte && (b.b.isConst() || b.c.isConst()) {
		return c.Ite(b.a, c.Slt(a, b.b), c.Slt(a, b.c))
	}
	return c.mk(oSlt, 0, a, b, nil, 0)
}
func (c *Ectx) Sle(a, b *Expr) *Expr { return c.Not(c.Slt(b, a)) }

func (c *Ectx) Zext(w uint8, a *Expr) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.k)
	}
	if a.op == oZext {
		return c.Zext(w, a.a)
	}
	if a.op == oIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.Zext(w, a.b), c.Zext(w, a.c))
	}
	return c.mk(oZext, w, a, nil, nil, 0)
}
func (c *Ectx) Sext(w uint8, a *Expr) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sx(a.w, a.k)))
	}
	if a.op == oZext {
		return c.Zext(w, a.a)
	}
	if a.op == oSext {
		return c.Sext(w, a.a)
	}
	if a.op == oIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.Sext(w, a.b), c.Sext(w, a.c))
	}
	return c.mk(oSext, w, a, nil, nil, 0)
}
func (c *Ectx) Trunc(w uint8, a *Expr) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.k)
	}
	if a.op == oZext || a.op == oSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(w, a.a)
		}
		if a.op == oZext {
			return c.Zext(w, a.a)
		}
		return c.Sext(w, a.a)
	}
	if a.op == oTrunc {
		return c.Trunc(w, a.a)
	}
	if a.op == oIte && (a.b.isConst() || a.c.isConst()) {
		return c.Ite(a.a, c.Trunc(w, a.b), c.Trunc(w, a.c))
	}
	return c.mk(oTrunc, w, a, nil, nil, 0)
}

// Bin builds an arithmetic or bitwise term.
func (c *Ectx) Bin(op uint8, a, b *Expr) *Expr {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(w, evalBin(op, w, a.k, b.k))
	}
	// constants to the right for commutative operators
	switch op {
	case oAdd, oMul, oBand, oBor, oBxor:
		if a.isConst() {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case oAdd, oSub, oBor, oBxor, oShl, oLshr, oAshr:
			if b.k == 0 {
				return a
			}
		case oMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case oBand:
			if b.k == 0 {
				return b
			}
			if b.k == maskAll(w) {
				return a
			}
			if a.op == oZext {
				return c.Zext(w, c.Bin(oBand, a.a, c.Const(a.a.w, b.k)))
			}
		case oUdiv, oSdiv:
			if b.k == 1 {
				return a
			}
		}
		if op == oSub {
			return c.Bin(oAdd, a, c.Const(w, -b.k))
		}
		if op == oAdd && a.op == oAdd && a.b.isConst() {
			return c.Bin(oAdd, a.a, c.Const(w, a.b.k+b.k))
		}
		if a.op == oIte && (a.b.isConst() && a.c.isConst()) {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
		if (op == oShl || op == oLshr) && b.k >= uint64(w) {
			return c.Const(w, 0)
		}
	}
	if op == oSub && a == b || op == oBxor && a == b {
		return c.Const(w, 0)
	}
	if (op == oBand || op == oBor) && a == b {
		return a
	}
	return c.mk(op, w, a, b, nil, 0)
}

func (c *Ectx) Bnot(a *Expr) *Expr {
	if a.isConst() {
		return c.Const(a.w, ^a.k)
	}
	return c.mk(oBnot, a.w, a, nil, nil, 0)
}
func (c *Ectx) Neg(a *Expr) *Expr {
	if a.isConst() {
		return c.Const(a.w, -a.k)
	}
	return c.mk(oNeg, a.w, a, nil, nil, 0)
}

func evalBin(op, w uint8, x, y uint64) uint64 {
	switch op {
	case oAdd:
		x += y
	case oSub:
		x -= y
	case oMul:
		x *= y
	case oUdiv:
		if y == 0 {
			return maskAll(w)
		}
		x /= y
	case oUrem:
		if y == 0 {
			return x
		}
		x %= y
	case oSdiv:
		a, b := sx(w, x), sx(w, y)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return maskAll(w)
		}
		if b == -1 {
			x = uint64(-a)
		} else {
			x = uint64(a / b)
		}
	case oSrem:
		a, b := sx(w, x), sx(w, y)
		if b == 0 {
			return x
		}
		if b == -1 {
			x = 0
		} else {
			x = uint64(a % b)
		}
	case oBand:
		x &= y
	case oBor:
		x |= y
	case oBxor:
		x ^= y
	case oShl:
		if y >= uint64(w) {
			return 0
		}
		x <<= y
	case oLshr:
		if y >= uint64(w) {
			return 0
		}
		x >>= y
	case oAshr:
		a := sx(w, x)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		x = uint64(a >> y)
	default:
		panic("evalBin")
	}
	return mask(w, x)
}

// eval computes the value of e under an assignment.
func eval(e *Expr, val func(id int32) uint64) uint64 {
	if e.size > 300 {
		return evalMemo(e, val, map[uint32]uint64{})
	}
	return evalRec(e, val, nil)
}

func evalMemo(e *Expr, val func(id int32) uint64, memo map[uint32]uint64) uint64 {
	return evalRec(e, val, memo)
}

func evalRec(e *Expr, val func(id int32) uint64, memo map[uint32]uint64) (r uint64) {
	switch e.op {
	case oConst:
		return e.k
	case oVar:
		return mask(e.w, val(int32(e.k)))
	}
	if memo != nil {
		if v, ok := memo[e.id]; ok {
			return v
		}
		defer func() { memo[e.id] = r }()
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case oNot:
		return 1 - evalRec(e.a, val, memo)
	case oAnd:
		if evalRec(e.a, val, memo) == 0 {
			return 0
		}
		return evalRec(e.b, val, memo)
	case oOr:
		if evalRec(e.a, val, memo) == 1 {
			return 1
		}
		return evalRec(e.b, val, memo)
	case oIte:
		if evalRec(e.a, val, memo) == 1 {
			return evalRec(e.b, val, memo)
		}
		return evalRec(e.c, val, memo)
	}
	x := evalRec(e.a, val, memo)
	switch e.op {
	case oZext:
		return x
	case oSext:
		return mask(e.w, uint64(sx(e.a.w, x)))
	case oTrunc:
		return mask(e.w, x)
	case oBnot:
		return mask(e.w, ^x)
	case oNeg:
		return mask(e.w, -x)
	}
	y := evalRec(e.b, val, memo)
	switch e.op {
	case oEq:
		return b2u(x == y)
	case oUlt:
		return b2u(x < y)
	case oUle:
		return b2u(x <= y)
	case oSlt:
		return b2u(sx(e.a.w, x) < sx(e.a.w, y))
	case oSle:
		return b2u(sx(e.a.w, x) <= sx(e.a.w, y))
	}
	return evalBin(e.op, e.w, x, y)
}

// subst replaces variable id `from` by term `to` (same width).
func (c *Ectx) subst(e *Expr, m map[int32]*Expr, memo map[uint32]*Expr) *Expr {
	if len(e.vars) == 0 {
		return e
	}
	if e.op == oVar {
		if t, ok := m[int32(e.k)]; ok {
			return t
		}
		return e
	}
	if r, ok := memo[e.id]; ok {
		return r
	}
	var a, b, d *Expr
	if e.a != nil {
		a = c.subst(e.a, m, memo)
	}
	if e.b != nil {
		b = c.subst(e.b, m, memo)
	}
	if e.c != nil {
		d = c.subst(e.c, m, memo)
	}
	var r *Expr
	switch e.op {
	case oNot:
		r = c.Not(a)
	case oAnd:
		r = c.And(a, b)
	case oOr:
		r = c.Or(a, b)
	case oEq:
		r = c.Eq(a, b)
	case oUlt:
		r = c.Ult(a, b)
	case oUle:
		r = c.Ule(a, b)
	case oSlt:
		r = c.Slt(a, b)
	case oSle:
		r = c.Sle(a, b)
	case oIte:
		r = c.Ite(a, b, d)
	case oZext:
		r = c.Zext(e.w, a)
	case oSext:
		r = c.Sext(e.w, a)
	case oTrunc:
		r = c.Trunc(e.w, a)
	case oBnot:
		r = c.Bnot(a)
	case oNeg:
		r = c.Neg(a)
	default:
		r = c.Bin(e.op, a, b)
	}
	memo[e.id] = r
	return r
}

var opNames = [...]string{
	oNot: "not", oAnd: "and", oOr: "or", oEq: "=", oUlt: "bvult", oUle: "bvule", oSlt: "bvslt", oSle: "bvsle",
	oIte: "ite", oAdd: "bvadd", oSub: "bvsub", oMul: "bvmul", oUdiv: "bvudiv", oUrem: "bvurem", oSdiv: "bvsdiv",
	oSrem: "bvsrem", oBand: "bvand", oBor: "bvor", oBxor: "bvxor", oShl: "bvshl", oLshr: "bvlshr", oAshr: "bvashr",
	oBnot: "bvnot", oNeg: "bvneg",
}

// smtPrinter renders terms with variables named by a renaming, sharing nodes through let.
type smtPrinter struct {
	name func(id int32) string
}

func (p *smtPrinter) print(sb *strings.Builder, e *Expr) {
	if e.size < 60 {
		p.plain(sb, e, nil)
		return
	}
	// count uses
	cnt := map[*Expr]int{}
	var order []*Expr
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e.op == oVar || e.op == oConst {
			return
		}
		cnt[e]++
		if cnt[e] > 1 {
			return
		}
		for _, s := range [3]*Expr{e.a, e.b, e.c} {
			if s != nil {
				walk(s)
			}
		}
		order = append(order, e) // post-order
	}
	walk(e)
	names := map[*Expr]string{}
	n := 0
	for _, s := range order {
		if cnt[s] > 1 && s != e {
			nm := fmt.Sprintf("t%d", n)
			sb.WriteString("(let ((")
			sb.WriteString(nm)
			sb.WriteByte(' ')
			p.plain(sb, s, names)
			sb.WriteString(")) ")
			names[s] = nm
			n++
		}
	}
	p.plain(sb, e, names)
	for i := 0; i < n; i++ {
		sb.WriteByte(')')
	}
}

func (p *smtPrinter) plain(sb *strings.Builder, e *Expr, names map[*Expr]string) {
	if names != nil {
		if nm, ok := names[e]; ok {
			sb.WriteString(nm)
			return
		}
	}
	switch e.op {
	case oVar:
		sb.WriteString(p.name(int32(e.k)))
		return
	case oConst:
		if e.w == 0 {
			if e.k == 1 {
				sb.WriteString("true")
			} else {
				sb.WriteString("false")
			}
			return
		}
		fmt.Fprintf(sb, "(_ bv%d %d)", e.k, e.w)
		return
	case oZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) ", e.w-e.a.w)
		p.plain(sb, e.a, names)
		sb.WriteByte(')')
		return
	case oSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) ", e.w-e.a.w)
		p.plain(sb, e.a, names)
		sb.WriteByte(')')
		return
	case oTrunc:
		fmt.Fprintf(sb, "((_ extract %d 0) ", e.w-1)
		p.plain(sb, e.a, names)
		sb.WriteByte(')')
		return
	}
	sb.WriteByte('(')
	sb.WriteString(opNames[e.op])
	for _, s := range [3]*Expr{e.a, e.b, e.c} {
		if s != nil {
			sb.WriteByte(' ')
			p.plain(sb, s, names)
		}
	}
	sb.WriteByte(')')
}

func (e *Expr) String() string {
	var sb strings.Builder
	(&smtPrinter{name: func(id int32) string { return fmt.Sprintf("v%d", id) }}).print(&sb, e)
	return sb.String()
}

func sortInt32(s []int32) { sort.Slice(s, func(i, j int) bool { return s[i] < s[j] }) }
