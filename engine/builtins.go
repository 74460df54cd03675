package main

import (
	"fmt"
	"math"
)

func (m *Machine) sliceOf(v Val) Slice {
	if s, _ := v.p.(*Slice); s != nil {
		return *s
	}
	return Slice{}
}

// builtin executes a builtin call. The string result is "", "moved" or a runtime panic message.
func (m *Machine) builtin(g *Goroutine, f *Frame, in *Instr) (Val, string) {
	bi := in.x.(*builtinInfo)
	var buf [4]Val
	args := buf[:0]
	for _, a := range in.args {
		args = append(args, m.val(f, a))
	}
	switch bi.name {
	case "len":
		t := bi.ts[0]
		switch t.kind {
		case kString:
			return Val{n: uint64(strLen(args[0]))}, ""
		case kSlice:
			return Val{n: uint64(m.sliceOf(args[0]).len)}, ""
		case kMap:
			mp, _ := args[0].p.(*Map)
			if mp == nil {
				return Val{}, ""
			}
			if m.race {
				m.raceMap(mp, false)
			}
			return Val{n: uint64(mp.st.live)}, ""
		case kChan:
			c, _ := args[0].p.(*Chan)
			if c == nil {
				return Val{}, ""
			}
			return Val{n: uint64(len(c.st.buf))}, ""
		case kArray:
			return Val{n: uint64(t.alen)}, ""
		case kPtr:
			return Val{n: uint64(t.elem.alen)}, ""
		}
	case "cap":
		switch bi.ts[0].kind {
		case kSlice:
			return Val{n: uint64(m.sliceOf(args[0]).cap)}, ""
		case kChan:
			c, _ := args[0].p.(*Chan)
			if c == nil {
				return Val{}, ""
			}
			return Val{n: uint64(c.cap)}, ""
		case kArray:
			return Val{n: uint64(bi.ts[0].alen)}, ""
		case kPtr:
			return Val{n: uint64(bi.ts[0].elem.alen)}, ""
		}
	case "append":
		el := bi.ts[0].elem
		st := el.size
		s := m.sliceOf(args[0])
		if len(args) == 1 {
			return args[0], ""
		}
		var n int
		var cells []Val
		if bi.ts[1].kind == kString {
			cells = strBytes(args[1])
			n = len(cells)
		} else {
			t := m.sliceOf(args[1])
			n = t.len
			cells = make([]Val, n*st)
			for i := range cells {
				cells[i] = t.obj.get(t.off + i)
			}
			if m.race && t.obj != nil && n > 0 {
				m.raceRead(t.obj, t.off, n*st)
			}
		}
		if n == 0 {
			return args[0], ""
		}
		if s.len+n <= s.cap {
			base := s.off + s.len*st
			if m.race {
				m.raceWrite(s.obj, base, n*st)
			}
			for i, c := range cells {
				m.set(s.obj, base+i, c)
			}
			return Val{p: &Slice{obj: s.obj, off: s.off, len: s.len + n, cap: s.cap}}, ""
		}
		nc := growCap(s.cap, s.len+n, el)
		if nc > 1<<22 {
			panic(pathAbort{"limit", "huge slice"})
		}
		o := m.newObj(nc * st)
		o.cells = make([]Val, (s.len+n)*st, nc*st)
		if s.obj != nil {
			if m.race && s.len > 0 {
				m.raceRead(s.obj, s.off, s.len*st)
			}
			for i := 0; i < s.len*st; i++ {
				o.cells[i] = s.obj.get(s.off + i)
			}
		}
		copy(o.cells[s.len*st:], cells)
		return Val{p: &Slice{obj: o, len: s.len + n, cap: nc}}, ""
	case "copy":
		d := m.sliceOf(args[0])
		st := bi.ts[0].elem.size
		var cells []Val
		if bi.ts[1].kind == kString {
			cells = strBytes(args[1])
			if len(cells) > d.len {
				cells = cells[:d.len]
			}
		} else {
			s := m.sliceOf(args[1])
			n := s.len
			if d.len < n {
				n = d.len
			}
			cells = make([]Val, n*st)
			for i := range cells {
				cells[i] = s.obj.get(s.off + i)
			}
			if m.race && n > 0 {
				m.raceRead(s.obj, s.off, n*st)
			}
		}
		if m.race && len(cells) > 0 {
			m.raceWrite(d.obj, d.off, len(cells))
		}
		for i, c := range cells {
			m.set(d.obj, d.off+i, c)
		}
		if st == 0 {
			return Val{n: uint64(d.len)}, ""
		}
		return Val{n: uint64(len(cells) / st)}, ""
	case "delete":
		mp, _ := args[0].p.(*Map)
		if mp != nil {
			m.mapDelete(mp, args[1], bi.ts[0])
		}
		return Val{}, ""
	case "clear":
		switch bi.ts[0].kind {
		case kMap:
			if mp, _ := args[0].p.(*Map); mp != nil {
				m.mapClear(mp)
			}
		case kSlice:
			s := m.sliceOf(args[0])
			for i := 0; i < s.len*bi.ts[0].elem.size; i++ {
				m.set(s.obj, s.off+i, Val{})
			}
		}
		return Val{}, ""
	case "close":
		c, _ := args[0].p.(*Chan)
		return Val{}, m.closeChan(g, c)
	case "print", "println":
		return Val{}, ""
	case "recover":
		if f.deferOf == 2 && f.panicking != nil && f.native != recoveredMark && !f.panicking.goexit {
			f.native = recoveredMark
			return f.panicking.val, ""
		}
		return Val{}, ""
	case "min", "max":
		t := bi.ts[0]
		r := args[0]
		for _, a := range args[1:] {
			switch t.kind {
			case kInt:
				x, y := m.ex(r, t), m.ex(a, t)
				lt := m.x.Ult
				if t.signed {
					lt = m.x.Slt
				}
				c := lt(x, y)
				if bi.name == "max" {
					c = m.x.Not(c)
				}
				r = exVal(m.x.Ite(c, x, y))
			case kFloat:
				x, y := math.Float64frombits(r.n), math.Float64frombits(a.n)
				if bi.name == "min" {
					x = math.Min(x, y)
				} else {
					x = math.Max(x, y)
				}
				r = Val{n: math.Float64bits(x)}
			default:
				panic(pathAbort{"unsupported", bi.name + " of strings"})
			}
		}
		return r, ""
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			return Val{}, "value method called using nil pointer"
		}
		return args[0], ""
	case "SliceData":
		s := m.sliceOf(args[0])
		if s.obj == nil {
			return Val{}, ""
		}
		return Val{p: s.obj, n: uint64(s.off)}, ""
	case "StringData":
		bs := strBytes(args[0])
		if len(bs) == 0 {
			return Val{}, ""
		}
		o := m.newObj(len(bs))
		o.cells = bs
		return Val{p: o}, ""
	case "String":
		n := int(m.concInt(args[1]))
		if n == 0 {
			return Val{}, ""
		}
		o, _ := args[0].p.(*Obj)
		if o == nil {
			return Val{}, "unsafe.String: nil pointer"
		}
		bs := make([]Val, n)
		for i := range bs {
			bs[i] = o.get(int(args[0].n) + i)
		}
		return mkStr(bs), ""
	case "Slice":
		n := int(m.concInt(args[1]))
		o, _ := args[0].p.(*Obj)
		if o == nil {
			return Val{}, ""
		}
		return Val{p: &Slice{obj: o, off: int(args[0].n), len: n, cap: n}}, ""
	}
	panic(pathAbort{"unsupported", fmt.Sprintf("builtin %s %v", bi.name, bi.ts)})
}

func growCap(old, need int, el *TInfo) int {
	nc := old
	dbl := 2 * old
	if need > dbl {
		nc = need
	} else if old < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	// size classes: close to what the runtime does for the element sizes that occur
	w := el.size * 8
	switch el.kind {
	case kInt:
		w = int(el.w) / 8
	case kBool:
		w = 1
	case kString, kIface:
		w = 16
	case kSlice:
		w = 24
	}
	if w == 0 {
		return need
	}
	bytes := nc * w
	for _, c := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048} {
		if bytes <= c {
			return c / w
		}
	}
	return nc
}

func (m *Machine) builtinDeferred(g *Goroutine, d deferred) {
	switch d.call.builtin {
	case "close":
		c, _ := d.args[0].p.(*Chan)
		if msg := m.closeChan(g, c); msg != "" {
			m.runtimePanic(g, msg)
		}
	case "delete":
		if mp, _ := d.args[0].p.(*Map); mp != nil {
			m.mapDelete(mp, d.args[1], d.call.args[0])
		}
	case "recover", "print", "println":
	default:
		panic(pathAbort{"unsupported", "deferred builtin " + d.call.builtin})
	}
}
