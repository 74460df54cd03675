package main

import "fmt"

// Happens-before race detection with vector clocks, per memory cell.

type cellHist struct {
	wg    int
	wc    uint32
	wpos  string
	reads map[int]uint32
	rpos  map[int]string
}

func (m *Machine) vcOf(g *Goroutine) []uint32 {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	if g.vc[g.id] == 0 {
		g.vc[g.id] = 1
	}
	return g.vc
}

func vcCopy(v []uint32) []uint32 { return append([]uint32(nil), v...) }

func (m *Machine) forkVC(g *Goroutine, child int) []uint32 {
	v := vcCopy(m.vcOf(g))
	g.vc = vcCopy(g.vc)
	g.vc[g.id]++
	for len(v) <= child {
		v = append(v, 0)
	}
	v[child] = 1
	return v
}

func (m *Machine) vcRelease(g *Goroutine) []uint32 {
	r := vcCopy(m.vcOf(g))
	g.vc = vcCopy(g.vc)
	g.vc[g.id]++
	return r
}

func (m *Machine) vcAcquire(g *Goroutine, v []uint32) {
	n := vcCopy(m.vcOf(g))
	for len(n) < len(v) {
		n = append(n, 0)
	}
	for i, x := range v {
		if x > n[i] {
			n[i] = x
		}
	}
	g.vc = n
}

// vcExchange models an unbuffered rendezvous: both sides synchronise with each other.
func (m *Machine) vcExchange(a, b *Goroutine) {
	if !m.race {
		return
	}
	va, vb := m.vcRelease(a), m.vcRelease(b)
	m.vcAcquire(a, vb)
	m.vcAcquire(b, va)
}

func (m *Machine) here() string {
	p := m.p.prog.Fset.Position(m.pos)
	f := ""
	if n := len(m.cur.stack); n > 0 {
		f = m.cur.stack[n-1].fn.name
	}
	return fmt.Sprintf("%s (%s:%d)", f, shortFile(p.Filename), p.Line)
}

func (m *Machine) setHist(get func() *cellHist, set func(*cellHist), h *cellHist) {
	old := get()
	m.trail = append(m.trail, trailEnt{kind: tFunc, o: func() { set(old) }})
	set(h)
}

func (m *Machine) raceRead(o *Obj, off, n int) {
	if m.initing {
		return
	}
	g := m.cur
	vc := m.vcOf(g)
	for i := off; i < off+n; i++ {
		i := i
		h := o.vc[i]
		if h != nil && h.wg != g.id && h.wc != 0 && (len(vc) <= h.wg || vc[h.wg] < h.wc) {
			m.event("race", fmt.Sprintf("unsynchronised read at %s of memory written at %s", m.here(), h.wpos), nil)
			panic(pathAbort{"end", "race"})
		}
		if h != nil && h.reads[g.id] == vc[g.id] {
			continue
		}
		nh := &cellHist{reads: map[int]uint32{}, rpos: map[int]string{}}
		if h != nil {
			nh.wg, nh.wc, nh.wpos = h.wg, h.wc, h.wpos
			for k, v := range h.reads {
				nh.reads[k] = v
				nh.rpos[k] = h.rpos[k]
			}
		}
		nh.reads[g.id] = vc[g.id]
		nh.rpos[g.id] = m.here()
		if o.vc == nil {
			o.vc = map[int]*cellHist{}
		}
		m.setHist(func() *cellHist { return o.vc[i] }, func(h *cellHist) { o.vc[i] = h }, nh)
	}
}

func (m *Machine) raceWrite(o *Obj, off, n int) {
	if m.initing {
		return
	}
	g := m.cur
	vc := m.vcOf(g)
	for i := off; i < off+n; i++ {
		i := i
		h := o.vc[i]
		if h != nil {
			if h.wg != g.id && h.wc != 0 && (len(vc) <= h.wg || vc[h.wg] < h.wc) {
				m.event("race", fmt.Sprintf("unsynchronised writes at %s and %s", m.here(), h.wpos), nil)
				panic(pathAbort{"end", "race"})
			}
			for rg, rc := range h.reads {
				if rg != g.id && (len(vc) <= rg || vc[rg] < rc) {
					m.event("race", fmt.Sprintf("unsynchronised write at %s of memory read at %s", m.here(), h.rpos[rg]), nil)
					panic(pathAbort{"end", "race"})
				}
			}
			if h.wg == g.id && h.wc == vc[g.id] && len(h.reads) == 0 {
				continue
			}
		}
		nh := &cellHist{wg: g.id, wc: vc[g.id], wpos: m.here()}
		if o.vc == nil {
			o.vc = map[int]*cellHist{}
		}
		m.setHist(func() *cellHist { return o.vc[i] }, func(h *cellHist) { o.vc[i] = h }, nh)
	}
}

func (m *Machine) raceMap(mp *Map, write bool) {
	if m.initing {
		return
	}
	g := m.cur
	vc := m.vcOf(g)
	h := mp.vc
	if h != nil {
		if h.wg != g.id && h.wc != 0 && (len(vc) <= h.wg || vc[h.wg] < h.wc) {
			m.event("race", fmt.Sprintf("unsynchronised map access at %s, map written at %s", m.here(), h.wpos), nil)
			panic(pathAbort{"end", "race"})
		}
		if write {
			for rg, rc := range h.reads {
				if rg != g.id && (len(vc) <= rg || vc[rg] < rc) {
					m.event("race", fmt.Sprintf("unsynchronised map write at %s, map read at %s", m.here(), h.rpos[rg]), nil)
					panic(pathAbort{"end", "race"})
				}
			}
		}
	}
	nh := &cellHist{reads: map[int]uint32{}, rpos: map[int]string{}}
	if h != nil {
		nh.wg, nh.wc, nh.wpos = h.wg, h.wc, h.wpos
		for k, v := range h.reads {
			nh.reads[k] = v
			nh.rpos[k] = h.rpos[k]
		}
	}
	if write {
		nh = &cellHist{wg: g.id, wc: vc[g.id], wpos: m.here()}
	} else {
		nh.reads[g.id] = vc[g.id]
		nh.rpos[g.id] = m.here()
	}
	m.setHist(func() *cellHist { return mp.vc }, func(h *cellHist) { mp.vc = h }, nh)
}
