package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

const (
	kInvalid uint8 = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kTuple
	kUnsafe
	kOther
)

// TInfo is the canonical description of a Go type: identical types share one TInfo.
type TInfo struct {
	id     int
	t      types.Type
	kind   uint8
	w      uint8 // bit width of kInt, 0 for kBool
	signed bool
	size   int // cells
	elem   *TInfo
	key    *TInfo
	fields []TField
	alen   int
	str    string
	mu     sync.Mutex
	meth   map[string]*ssa.Function
}

type TField struct {
	off int
	t   *TInfo
}

type typeTab struct {
	mu  sync.Mutex
	m   typeutil.Map
	n   int
	all []*TInfo
}

var ttab typeTab

func tinfo(t types.Type) *TInfo {
	ttab.mu.Lock()
	defer ttab.mu.Unlock()
	return tinfoL(t)
}

func tinfoL(t types.Type) *TInfo {
	t = types.Unalias(t)
	if v := ttab.m.At(t); v != nil {
		return v.(*TInfo)
	}
	ti := &TInfo{id: ttab.n, t: t, size: 1}
	ttab.n++
	ttab.all = append(ttab.all, ti)
	ttab.m.Set(t, ti)
	ti.str = types.TypeString(t, func(p *types.Package) string { return p.Name() })
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = kBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = kInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = kInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = kInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = kInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = kInt, 64
		case types.Uint8:
			ti.kind, ti.w = kInt, 8
		case types.Uint16:
			ti.kind, ti.w = kInt, 16
		case types.Uint32:
			ti.kind, ti.w = kInt, 32
		case types.Float32, types.Float64, types.UntypedFloat:
			ti.kind, ti.w = kFloat, 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case types.String, types.UntypedString:
			ti.kind = kString
		case types.UnsafePointer:
			ti.kind = kUnsafe
		default:
			ti.kind = kOther
		}
	case *types.Pointer:
		ti.kind = kPtr
		ti.elem = tinfoL(u.Elem())
	case *types.Slice:
		ti.kind = kSlice
		ti.elem = tinfoL(u.Elem())
	case *types.Map:
		ti.kind = kMap
		ti.key, ti.elem = tinfoL(u.Key()), tinfoL(u.Elem())
	case *types.Chan:
		ti.kind = kChan
		ti.elem = tinfoL(u.Elem())
	case *types.Signature:
		ti.kind = kFunc
	case *types.Interface:
		ti.kind = kIface
	case *types.Struct:
		ti.kind = kStruct
		ti.size = 0
		for i := 0; i < u.NumFields(); i++ {
			f := tinfoL(u.Field(i).Type())
			ti.fields = append(ti.fields, TField{ti.size, f})
			ti.size += f.size
		}
	case *types.Array:
		ti.kind = kArray
		ti.elem = tinfoL(u.Elem())
		ti.alen = int(u.Len())
		ti.size = ti.alen * ti.elem.size
	case *types.Tuple:
		ti.kind = kTuple
		ti.size = 0
		for i := 0; i < u.Len(); i++ {
			f := tinfoL(u.At(i).Type())
			ti.fields = append(ti.fields, TField{ti.size, f})
			ti.size += f.size
		}
	default:
		ti.kind = kOther
	}
	return ti
}

// method finds the function implementing method name for dynamic type ti.
func (p *Program) method(ti *TInfo, id string, mobj *types.Func) *ssa.Function {
	ti.mu.Lock()
	defer ti.mu.Unlock()
	if f, ok := ti.meth[id]; ok {
		return f
	}
	f := p.prog.LookupMethod(ti.t, mobj.Pkg(), mobj.Name())
	if ti.meth == nil {
		ti.meth = map[string]*ssa.Function{}
	}
	ti.meth[id] = f
	return f
}

func (ti *TInfo) String() string { return fmt.Sprintf("%s", ti.str) }

type implKey struct{ a, b *TInfo }

var implCache sync.Map

func implements(ti, iface *TInfo) bool {
	k := implKey{ti, iface}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	it := iface.t.Underlying().(*types.Interface)
	r := types.Implements(ti.t, it)
	implCache.Store(k, r)
	return r
}
