package main

import (
	"fmt"
	"sort"
)

func (m *Machine) newMap() *Map {
	m.nextID++
	return &Map{st: &mapState{idx: map[any]int{}, epoch: m.serial}, born: m.serial, id: m.nextID}
}

type ptrKey struct {
	p any
	n uint64
}
type ifKey struct {
	t *TInfo
	k any
}
type aggKey struct{ s string }

// keyOf converts a map key to a comparable Go value; ok is false when it has symbolic parts.
func (m *Machine) keyOf(v Val, t *TInfo) (any, bool) {
	switch t.kind {
	case kInt, kBool, kFloat:
		if v.p != nil {
			return nil, false
		}
		return v.n, true
	case kString:
		if !isConcStr(v) {
			return nil, false
		}
		return goStr(v), true
	case kPtr, kUnsafe, kChan:
		if v.p == nil {
			return nil, true
		}
		return ptrKey{v.p, v.n}, true
	case kIface:
		i, _ := v.p.(*Iface)
		if i == nil {
			return nil, true
		}
		k, ok := m.keyOf(i.v, i.t)
		return ifKey{i.t, k}, ok
	case kStruct, kArray:
		c := aggCells(v, t.size)
		s := ""
		add := func(off int, ft *TInfo) bool {
			k, ok := m.keyOf(fromCells2(c, off, ft), ft)
			if pk, isp := k.(ptrKey); isp {
				s += fmt.Sprintf("%p+%d;", pk.p, pk.n)
				return ok
			}
			s += fmt.Sprintf("%T:%v;", k, k)
			return ok
		}
		if t.kind == kStruct {
			for _, fl := range t.fields {
				if !add(fl.off, fl.t) {
					return nil, false
				}
			}
		} else {
			for i := 0; i < t.alen; i++ {
				if !add(i*t.elem.size, t.elem) {
					return nil, false
				}
			}
		}
		return aggKey{s}, true
	}
	panic(pathAbort{"unsupported", "map key of type " + t.str})
}

func (m *Machine) mapOwn(mp *Map) *mapState {
	st := mp.st
	if st.epoch >= m.top {
		return st
	}
	ns := &mapState{ents: append([]mapEntry(nil), st.ents...), idx: make(map[any]int, len(st.idx)), syms: append([]int(nil), st.syms...), live: st.live, epoch: m.serial}
	for k, v := range st.idx {
		ns.idx[k] = v
	}
	m.trail = append(m.trail, trailEnt{kind: tMap, o: mp, old: Val{p: st}})
	mp.st = ns
	return ns
}

// mapFind returns the index of the entry equal to key, splitting the path if that depends on
// symbolic data; -1 if there is none.
func (m *Machine) mapFind(mp *Map, key Val, t *TInfo) int {
	st := mp.st
	k, conc := m.keyOf(key, t.key)
	if conc {
		if i, ok := st.idx[k]; ok {
			return i
		}
		for _, i := range st.syms {
			if st.ents[i].del {
				continue
			}
			e, _ := m.eq(st.ents[i].k, key, t.key)
			if m.fork(e) {
				return i
			}
		}
		return -1
	}
	for i := range st.ents {
		if st.ents[i].del {
			continue
		}
		e, _ := m.eq(st.ents[i].k, key, t.key)
		if e == m.x.F {
			continue
		}
		if m.fork(e) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapLookup(mv, key Val, t *TInfo, commaOK bool) Val {
	mp, _ := mv.p.(*Map)
	wrap := func(v Val, ok Val) Val {
		if commaOK {
			return Val{p: &Agg{c: []Val{v, ok}}}
		}
		return v
	}
	if mp == nil || len(mp.st.ents) == 0 {
		return wrap(Val{}, Val{})
	}
	if m.race {
		m.raceMap(mp, false)
	}
	st := mp.st
	k, conc := m.keyOf(key, t.key)
	if conc && len(st.syms) == 0 {
		if i, ok := st.idx[k]; ok {
			return wrap(st.ents[i].v, Val{n: 1})
		}
		return wrap(Val{}, Val{})
	}
	// merged lookup when the element is a scalar or carries no data
	el := t.elem
	if el.kind == kInt || el.kind == kBool || el.size == 0 {
		found := m.x.F
		var val *Expr
		if el.size != 0 {
			val = m.x.Const(el.w, 0)
		}
		n := 0
		for i := range st.ents {
			en := &st.ents[i]
			if en.del {
				continue
			}
			e, _ := m.eq(en.k, key, t.key)
			if e == m.x.F {
				continue
			}
			n++
			found = m.x.Or(found, e)
			if val != nil {
				val = m.x.Ite(e, m.ex(en.v, el), val)
			}
		}
		var v Val
		if val != nil {
			v = exVal(val)
		}
		return wrap(v, exVal(found))
	}
	i := m.mapFind(mp, key, t)
	if i < 0 {
		return wrap(Val{}, Val{})
	}
	return wrap(st.ents[i].v, Val{n: 1})
}

func (m *Machine) mapSet(mp *Map, key, v Val, t *TInfo) {
	if t.key.kind == kIface {
		if i, _ := key.p.(*Iface); i != nil {
			switch i.t.kind {
			case kSlice, kMap, kFunc:
				panic(pathAbort{"unsupported", "hash of unhashable type " + i.t.str})
			}
		}
	}
	i := m.mapFind(mp, key, t)
	if m.race {
		m.raceMap(mp, true)
	}
	st := m.mapOwn(mp)
	if i >= 0 {
		st.ents[i].v = v
		return
	}
	st.ents = append(st.ents, mapEntry{k: key, v: v})
	st.live++
	if k, conc := m.keyOf(key, t.key); conc {
		st.idx[k] = len(st.ents) - 1
	} else {
		st.syms = append(st.syms, len(st.ents)-1)
	}
}

func (m *Machine) mapDelete(mp *Map, key Val, t *TInfo) {
	i := m.mapFind(mp, key, t)
	if i < 0 {
		return
	}
	if m.race {
		m.raceMap(mp, true)
	}
	st := m.mapOwn(mp)
	st.ents[i].del = true
	st.live--
	if k, conc := m.keyOf(st.ents[i].k, t.key); conc {
		delete(st.idx, k)
	}
	for j, s := range st.syms {
		if s == i {
			st.syms = append(append([]int(nil), st.syms[:j]...), st.syms[j+1:]...)
			break
		}
	}
}

func (m *Machine) mapClear(mp *Map) {
	st := m.mapOwn(mp)
	for i := range st.ents {
		st.ents[i].del = true
	}
	st.live = 0
	st.idx = map[any]int{}
	st.syms = nil
}

// ---- iteration ----

type iterState struct {
	str   Val
	mp    *Map
	isStr bool
	order []int // chosen order of entries at start
	t     *TInfo
}

// rangeInit creates an iterator object: cell 0 is the position, cell 1 the static part.
func (m *Machine) rangeInit(v Val, t *TInfo) Val {
	o := m.newObj(2)
	it := &iterState{t: t}
	if t.kind == kString {
		it.isStr = true
		it.str = v
	} else {
		it.mp, _ = v.p.(*Map)
		if it.mp != nil {
			for i := range it.mp.st.ents {
				if !it.mp.st.ents[i].del {
					it.order = append(it.order, i)
				}
			}
			if m.mapOrder && len(it.order) > 1 && m.mapOrderRelevant() {
				it.order = m.permute(it.order)
			}
		}
	}
	o.cells = []Val{{}, {p: it}}
	return Val{p: o}
}

// permute explores iteration orders: all of them up to 3 entries, rotations and the reversal above.
func (m *Machine) permute(o []int) []int {
	n := len(o)
	if n <= 3 {
		rest := append([]int(nil), o...)
		var out []int
		for len(rest) > 0 {
			k := m.choose(len(rest))
			out = append(out, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
		}
		return out
	}
	if m.choose(2) == 0 {
		return o
	}
	out := append([]int(nil), o...)
	sort.Sort(sort.Reverse(sort.IntSlice(out)))
	return out
}

func (m *Machine) rangeNext(iv Val, isStr bool) Val {
	o := iv.p.(*Obj)
	it := o.cells[1].p.(*iterState)
	pos := int(o.cells[0].n)
	if it.isStr {
		n := strLen(it.str)
		if pos >= n {
			return Val{p: &Agg{c: []Val{{}, {}, {}}}}
		}
		end := pos + 4
		if end > n {
			end = n
		}
		r, w := m.decodeRune(strBytes(substr(it.str, pos, end)))
		m.set(o, 0, Val{n: uint64(pos + w)})
		return Val{p: &Agg{c: []Val{{n: 1}, {n: uint64(pos)}, r}}}
	}
	if it.mp == nil {
		return Val{p: &Agg{c: []Val{{}, {}, {}}}}
	}
	if m.race {
		m.raceMap(it.mp, false)
	}
	st := it.mp.st
	for {
		var idx int
		if pos < len(it.order) {
			idx = it.order[pos]
		} else {
			// entries added during iteration may or may not be visited; they are visited here
			idx = pos - len(it.order)
			base := 0
			for _, k := range it.order {
				if k >= base {
					base = k + 1
				}
			}
			idx += base
			if idx >= len(st.ents) {
				m.set(o, 0, Val{n: uint64(pos)})
				return Val{p: &Agg{c: []Val{{}, {}, {}}}}
			}
		}
		pos++
		if st.ents[idx].del {
			continue
		}
		m.set(o, 0, Val{n: uint64(pos)})
		return Val{p: &Agg{c: []Val{{n: 1}, st.ents[idx].k, st.ents[idx].v}}}
	}
}

func (m *Machine) mapOrderRelevant() bool {
	f := m.cur.stack[len(m.cur.stack)-1]
	return f.fn.repo
}

// ---- channels ----

func (m *Machine) chanOwn(c *Chan) *chanState {
	st := c.st
	if st.epoch >= m.top {
		return st
	}
	ns := &chanState{buf: append([]Val(nil), st.buf...), bufVC: append([][]uint32(nil), st.bufVC...), sendq: append([]chanWaiter(nil), st.sendq...), recvq: append([]chanWaiter(nil), st.recvq...), closed: st.closed, epoch: m.serial, vc: st.vc}
	m.trail = append(m.trail, trailEnt{kind: tChan, o: c, old: Val{p: st}})
	c.st = ns
	return ns
}

func (m *Machine) wakeG(w chanWaiter, v Val, ok bool) {
	g := m.gs[w.g]
	g.status = gRun
	g.woken = true
	g.wake = v
	g.wakeOK = ok
	g.wakeIx = w.sel
	g.tok++
}

// dequeue removes the first live waiter of q.
func (m *Machine) dequeue(q *[]chanWaiter) (chanWaiter, bool) {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = append([]chanWaiter(nil), (*q)[1:]...)
		if m.gs[w.g].tok == w.tok {
			return w, true
		}
	}
	return chanWaiter{}, false
}

func (m *Machine) peekQ(q []chanWaiter) bool {
	for _, w := range q {
		if m.gs[w.g].tok == w.tok {
			return true
		}
	}
	return false
}

func (m *Machine) block(g *Goroutine, st uint8) {
	g.status = st
	g.woken = false
}

func (m *Machine) chanSend(g *Goroutine, f *Frame, in *Instr) bool {
	if g.woken {
		g.woken = false
		if !g.wakeOK {
			m.runtimePanic(g, "send on closed channel")
			return false
		}
		return true
	}
	c, _ := m.val(f, in.a).p.(*Chan)
	if c == nil {
		m.block(g, gBlockForever)
		return false
	}
	m.maybeSwitch(g)
	v := m.val(f, in.b)
	ok, closed := m.trySend(g, c, v)
	if closed {
		m.runtimePanic(g, "send on closed channel")
		return false
	}
	if ok {
		return true
	}
	st := m.chanOwn(c)
	st.sendq = append(st.sendq, chanWaiter{g: g.id, val: v, sel: -1, tok: g.tok})
	m.block(g, gBlockSend)
	return false
}

func (m *Machine) trySend(g *Goroutine, c *Chan, v Val) (ok, closed bool) {
	if c.st.closed {
		return false, true
	}
	if m.peekQ(c.st.recvq) {
		st := m.chanOwn(c)
		w, _ := m.dequeue(&st.recvq)
		m.vcExchange(g, m.gs[w.g])
		m.wakeG(w, v, true)
		return true, false
	}
	if len(c.st.buf) < c.cap {
		st := m.chanOwn(c)
		st.buf = append(st.buf, v)
		if m.race {
			st.bufVC = append(st.bufVC, m.vcRelease(g))
		}
		return true, false
	}
	return false, false
}

func (m *Machine) tryRecv(g *Goroutine, c *Chan) (v Val, ok, ready bool) {
	if len(c.st.buf) > 0 {
		st := m.chanOwn(c)
		v = st.buf[0]
		st.buf = append([]Val(nil), st.buf[1:]...)
		if m.race && len(st.bufVC) > 0 {
			m.vcAcquire(g, st.bufVC[0])
			st.bufVC = st.bufVC[1:]
		}
		if w, has := m.dequeue(&st.sendq); has {
			st.buf = append(st.buf, w.val)
			if m.race {
				st.bufVC = append(st.bufVC, m.vcRelease(m.gs[w.g]))
			}
			m.wakeG(w, Val{}, true)
		}
		return v, true, true
	}
	if m.peekQ(c.st.sendq) {
		st := m.chanOwn(c)
		w, _ := m.dequeue(&st.sendq)
		m.vcExchange(g, m.gs[w.g])
		m.wakeG(w, Val{}, true)
		return w.val, true, true
	}
	if c.st.closed {
		if m.race {
			m.vcAcquire(g, c.st.vc)
		}
		return Val{}, false, true
	}
	return Val{}, false, false
}

func (m *Machine) chanRecv(g *Goroutine, f *Frame, in *Instr) bool {
	put := func(v Val, ok bool) {
		if in.flag {
			f.regs[in.dst] = Val{p: &Agg{c: []Val{v, boolVal(ok)}}}
		} else {
			f.regs[in.dst] = v
		}
	}
	if g.woken {
		g.woken = false
		put(g.wake, g.wakeOK)
		return true
	}
	c, _ := m.val(f, in.a).p.(*Chan)
	if c == nil {
		m.block(g, gBlockForever)
		return false
	}
	m.maybeSwitch(g)
	v, ok, ready := m.tryRecv(g, c)
	if ready {
		put(v, ok)
		return true
	}
	st := m.chanOwn(c)
	st.recvq = append(st.recvq, chanWaiter{g: g.id, sel: -1, tok: g.tok})
	m.block(g, gBlockRecv)
	return false
}

func (m *Machine) closeChan(g *Goroutine, c *Chan) string {
	if c == nil {
		return "close of nil channel"
	}
	if c.st.closed {
		return "close of closed channel"
	}
	st := m.chanOwn(c)
	st.closed = true
	if m.race {
		st.vc = m.vcRelease(g)
	}
	for {
		w, ok := m.dequeue(&st.recvq)
		if !ok {
			break
		}
		if m.race {
			m.vcAcquire(m.gs[w.g], st.vc)
		}
		m.wakeG(w, Val{}, false)
	}
	for {
		w, ok := m.dequeue(&st.sendq)
		if !ok {
			break
		}
		m.wakeG(w, Val{}, false)
	}
	return ""
}

// chanSelect implements select. Among several ready cases all are explored.
func (m *Machine) chanSelect(g *Goroutine, f *Frame, in *Instr) bool {
	cases := in.x.([]selCase)
	nrecv := 0
	for _, c := range cases {
		if !c.send {
			nrecv++
		}
	}
	result := func(ix int, v Val, ok bool) {
		a := &Agg{c: make([]Val, 2+nrecv)}
		a.c[0] = Val{n: uint64(int64(ix))}
		a.c[1] = boolVal(ok)
		k := 0
		for i, c := range cases {
			if c.send {
				continue
			}
			if i == ix {
				a.c[2+k] = v
			}
			k++
		}
		f.regs[in.dst] = Val{p: a}
	}
	if g.woken {
		g.woken = false
		if g.wakeIx >= 0 && cases[g.wakeIx].send && !g.wakeOK {
			m.runtimePanic(g, "send on closed channel")
			return false
		}
		result(g.wakeIx, g.wake, g.wakeOK)
		return true
	}
	var ready []int
	for i, c := range cases {
		ch, _ := m.val(f, c.ch).p.(*Chan)
		if ch == nil {
			continue
		}
		if c.send {
			if ch.st.closed || m.peekQ(ch.st.recvq) || len(ch.st.buf) < ch.cap {
				ready = append(ready, i)
			}
		} else if len(ch.st.buf) > 0 || m.peekQ(ch.st.sendq) || ch.st.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[m.choose(len(ready))]
		ch := m.val(f, cases[i].ch).p.(*Chan)
		if cases[i].send {
			_, closed := m.trySend(g, ch, m.val(f, cases[i].val))
			if closed {
				m.runtimePanic(g, "send on closed channel")
				return false
			}
			result(i, Val{}, false)
			return true
		}
		v, ok, _ := m.tryRecv(g, ch)
		result(i, v, ok)
		return true
	}
	if !in.flag {
		result(-1, Val{}, false)
		return true
	}
	any := false
	for i, c := range cases {
		ch, _ := m.val(f, c.ch).p.(*Chan)
		if ch == nil {
			continue
		}
		any = true
		st := m.chanOwn(ch)
		if c.send {
			st.sendq = append(st.sendq, chanWaiter{g: g.id, val: m.val(f, c.val), sel: i, tok: g.tok})
		} else {
			st.recvq = append(st.recvq, chanWaiter{g: g.id, sel: i, tok: g.tok})
		}
	}
	if any {
		m.block(g, gBlockSelect)
	} else {
		m.block(g, gBlockForever)
	}
	return false
}

// maybeSwitch is a scheduling point in schedule exploration mode.
func (m *Machine) maybeSwitch(g *Goroutine) {}
