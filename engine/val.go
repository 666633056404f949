package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Val is a value of the interpreted program.
//
//	scalars: c (concrete, masked to the type's width) or t (symbolic)
//	string:  p = nil ("") | string | *SymStr
//	pointer: p = nil | *Val | *SymPtr ; unsafe.Pointer the same
//	slice:   p = nil | []Val ; struct/array/tuple: p = *Agg
//	map: *Map, chan: *Chan, func: *Closure, interface: *Ifc
type Val struct {
	t *Term
	c uint64
	p any
}

type SymStr struct{ b []Val }
type Agg struct{ e []Val }
type Ifc struct {
	ti *TI
	v  Val
}
type Closure struct {
	fn   *Fn
	bind []Val
}

// SymPtr is the address of element idx (symbolic) of s; only loads use it.
type SymPtr struct {
	s   []Val
	idx *Term
}

type MapEnt struct {
	k, v Val
}
type Map struct {
	ents []MapEnt
	idx  map[any]int // concrete keys; nil = rebuild
	symK bool        // some key is symbolic
}
type Chan struct {
	buf    []Val
	cap    int
	closed bool
	// unbuffered: goroutine (id+1) whose value is in buf, and whether it was taken
	offer int
	taken bool
}

type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KString
	KPtr
	KStruct
	KArray
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KTuple
	KOther
)

type TI struct {
	t      types.Type
	k      Kind
	w      uint8
	signed bool
	elem   *TI
	key    *TI
	fields []*TI
	n      int
	size   int64
	id     int
	named  bool
}

func (t *TI) agg() bool    { return t.k == KStruct || t.k == KArray || t.k == KTuple }
func (t *TI) scalar() bool { return t.k == KInt || t.k == KBool }

type typeTab struct {
	mu  sync.Mutex
	m   typeutil.Map
	all []*TI
}

var tt typeTab
var sizes = types.SizesFor("gc", "amd64")

func tiOf(t types.Type) *TI {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.get(t)
}

func (tt *typeTab) get(t types.Type) *TI {
	t = types.Unalias(t)
	if v := tt.m.At(t); v != nil {
		return v.(*TI)
	}
	ti := &TI{t: t, id: len(tt.all)}
	tt.all = append(tt.all, ti)
	tt.m.Set(t, ti)
	switch t.(type) {
	case *types.Named:
		ti.named = true
	}
	func() {
		defer func() { recover() }()
		ti.size = sizes.Sizeof(t)
	}()
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.k = KBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.k, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.k, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.k, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.k, ti.w, ti.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.k, ti.w = KInt, 64
		case types.Uint8:
			ti.k, ti.w = KInt, 8
		case types.Uint16:
			ti.k, ti.w = KInt, 16
		case types.Uint32:
			ti.k, ti.w = KInt, 32
		case types.Float32, types.Float64, types.UntypedFloat:
			ti.k, ti.w = KFloat, 64
		case types.String, types.UntypedString:
			ti.k = KString
		case types.UnsafePointer, types.UntypedNil:
			ti.k = KPtr
		default:
			ti.k = KOther
		}
	case *types.Pointer:
		ti.k = KPtr
		ti.elem = tt.get(u.Elem())
	case *types.Struct:
		ti.k = KStruct
		for i := 0; i < u.NumFields(); i++ {
			ti.fields = append(ti.fields, tt.get(u.Field(i).Type()))
		}
	case *types.Array:
		ti.k = KArray
		ti.elem = tt.get(u.Elem())
		ti.n = int(u.Len())
	case *types.Slice:
		ti.k = KSlice
		ti.elem = tt.get(u.Elem())
	case *types.Map:
		ti.k = KMap
		ti.key = tt.get(u.Key())
		ti.elem = tt.get(u.Elem())
	case *types.Chan:
		ti.k = KChan
		ti.elem = tt.get(u.Elem())
	case *types.Signature:
		ti.k = KFunc
	case *types.Interface:
		ti.k = KIface
	case *types.Tuple:
		ti.k = KTuple
		for i := 0; i < u.Len(); i++ {
			ti.fields = append(ti.fields, tt.get(u.At(i).Type()))
		}
	default:
		ti.k = KOther
	}
	return ti
}

func zero(ti *TI) Val {
	switch ti.k {
	case KStruct, KTuple:
		a := &Agg{make([]Val, len(ti.fields))}
		for i, f := range ti.fields {
			if f.agg() {
				a.e[i] = zero(f)
			}
		}
		return Val{p: a}
	case KArray:
		a := &Agg{make([]Val, ti.n)}
		if ti.elem.agg() {
			for i := range a.e {
				a.e[i] = zero(ti.elem)
			}
		}
		return Val{p: a}
	}
	return Val{}
}

// copyVal makes an independent copy of an aggregate.
func copyVal(ti *TI, v Val) Val {
	if !ti.agg() {
		return v
	}
	src := v.p.(*Agg)
	a := &Agg{make([]Val, len(src.e))}
	copy(a.e, src.e)
	switch ti.k {
	case KArray:
		if ti.elem.agg() {
			for i := range a.e {
				a.e[i] = copyVal(ti.elem, a.e[i])
			}
		}
	default:
		for i, f := range ti.fields {
			if f.agg() {
				a.e[i] = copyVal(f, a.e[i])
			}
		}
	}
	return Val{p: a}
}

func strLen(v Val) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.p))
}

func strByte(v Val, i int) Val {
	switch s := v.p.(type) {
	case string:
		return Val{c: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic(fmt.Sprintf("strByte of %T", v.p))
}

func strSlice(v Val, lo, hi int) Val {
	if lo == hi {
		return Val{}
	}
	switch s := v.p.(type) {
	case string:
		return Val{p: s[lo:hi]}
	case *SymStr:
		return mkStrNoCopy(s.b[lo:hi])
	}
	panic(fmt.Sprintf("strSlice of %T", v.p))
}

func strBytes(v Val) []Val {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		b := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			b[i].c = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.p))
}

func allConcrete(b []Val) bool {
	for i := range b {
		if b[i].t != nil {
			return false
		}
	}
	return true
}

func concStr(b []Val) string {
	x := make([]byte, len(b))
	for i := range b {
		x[i] = byte(b[i].c)
	}
	return string(x)
}

// mkStrNoCopy makes a string of bytes that nobody will change.
func mkStrNoCopy(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	if allConcrete(b) {
		return Val{p: concStr(b)}
	}
	return Val{p: &SymStr{b}}
}

func mkStr(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	if allConcrete(b) {
		return Val{p: concStr(b)}
	}
	return Val{p: &SymStr{append([]Val(nil), b...)}}
}

func goStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{p: s}
}

func strConcat(a, b Val) Val {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return Val{p: x + y}
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Val, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return Val{p: &SymStr{r}}
}

func boolVal(b bool) Val {
	if b {
		return Val{c: 1}
	}
	return Val{}
}

func tval(t *Term) Val {
	if t.isConst() {
		return Val{c: t.k}
	}
	return Val{t: t}
}

func intVal(i int) Val { return Val{c: uint64(i)} }
