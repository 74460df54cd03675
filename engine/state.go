package main

import (
	"go/token"
)

// Val is a runtime value. The zero Val is the zero value of every type.
type Val struct {
	n uint64
	p any
}

type Str struct {
	s string
	e []*Expr // nil, or len(s) entries; a nil entry means the concrete byte of s
}

type Obj struct {
	cells []Val
	n     int // logical number of cells
	born  uint64
	vc    map[int]*cellHist // race mode
	name  string
}

type SymPtr struct {
	obj  *Obj
	off  int
	n    int // number of elements
	strd int
	idx  *Expr // 64 bit
	ti   *TInfo
}

type Slice struct {
	obj *Obj
	off int
	len int
	cap int
}

type Agg struct{ c []Val }

type Closure struct {
	fn    *Fn
	bind  []Val
	intr  *Intrinsic // direct intrinsic
	bname string
}

type Iface struct {
	t *TInfo
	v Val
}

type mapEntry struct {
	k, v Val
	del  bool
}

type mapState struct {
	ents  []mapEntry
	idx   map[any]int // concrete keys
	syms  []int       // entries with symbolic keys
	live  int
	epoch uint64
}

type Map struct {
	st   *mapState
	born uint64
	id   uint64
	vc   *cellHist
}

type chanWaiter struct {
	g   int // goroutine id
	val Val
	sel int // index of the select case, -1 outside select
	tok uint64
}

type chanState struct {
	buf    []Val
	bufVC  [][]uint32
	sendq  []chanWaiter
	recvq  []chanWaiter
	closed bool
	epoch  uint64
	vc     []uint32
}

type Chan struct {
	st   *chanState
	cap  int
	born uint64
	id   uint64
}

type deferred struct {
	fn   Val
	args []Val
	call *ssaCallInfo
}

// Frame is one activation. Frames are copied before being written when they were captured by a
// choice point (epoch < machine epoch).
type Frame struct {
	fn     *Fn
	regs   []Val
	pc     int32
	prev   int32 // previous block index
	epoch  uint64
	defers []deferred
	dst    int32 // register of the caller that receives the result
	// panic bookkeeping
	deferOf   int8 // 0: ordinary call, 1: deferred call run by RunDefers, 2: deferred call run while unwinding
	panicking *panicState
	iters     map[int32]int
	bind      []Val
	native    any // intrinsic continuation
}

type panicState struct {
	val       Val // interface value
	recovered bool
	goexit    bool
	where     token.Pos
	stack     string
}

const (
	gRun uint8 = iota
	gBlockSend
	gBlockRecv
	gBlockSelect
	gBlockForever
	gBlockLock
	gDone
)

type Goroutine struct {
	id     int
	stack  []*Frame
	status uint8
	panics []*panicState
	wake   Val // value delivered on wakeup
	wakeOK bool
	wakeIx int
	woken  bool
	tok    uint64
	vc     []uint32
	epoch  uint64
	where  string
	waitOn any
}

type decision struct {
	d int32
	v uint64
}

type choicePoint struct {
	serial   uint64
	gs       []*Goroutine // shallow copies with copied stacks
	cur      int
	trail    int
	pc       int
	inputs   int
	obs      int
	reach    int
	decs     int
	pend     []decision
	alts     []alt
	nextID   uint64
	instrs   int64
	multi    int
	handlers []catchHandler
}

type alt struct {
	d    decision
	cond *Expr
}

const (
	tCell uint8 = iota
	tMap
	tChan
	tVState
	tObjVC
	tFunc
	tCount
)

type trailEnt struct {
	kind uint8
	i    int
	o    any
	old  Val
}
