package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type OpdKind uint8

const (
	opNone OpdKind = iota
	opReg
	opConst
	opGlobal
)

type Opd struct {
	k OpdKind
	i int32
	v Val
}

type PhiMove struct {
	dst int32
	src Opd
}

type Block struct {
	ins   []*Ins
	succs []*Block
	// phis[k] = moves when entered from predecessor k
	phis [][]PhiMove
	// predIdx for each successor edge: index of this block among succ's preds
	edge []int
	idx  int
	src  *ssa.BasicBlock
}

type Ins struct {
	ssa      ssa.Instruction
	dst      int32
	a, b     Opd
	c, d     Opd
	args     []Opd
	ti       *TI // result type (or relevant type)
	ti2      *TI // operand type
	fn       *Fn // static callee
	in       Intrin
	bi       string // builtin
	idx      int
	ok       bool
	tok      token.Token
	kind     insKind
	loadOnly bool
}

type insKind uint8

const (
	iAlloc insKind = iota
	iBinOp
	iUnOp
	iLoad
	iCall
	iInvoke
	iBuiltin
	iGo
	iDefer
	iRunDefers
	iPanic
	iReturn
	iIf
	iJump
	iMove
	iConvert
	iMakeInterface
	iMakeClosure
	iMakeMap
	iMakeSlice
	iMakeChan
	iSlice
	iSliceToArrPtr
	iFieldAddr
	iField
	iIndexAddr
	iIndex
	iLookup
	iMapUpdate
	iRange
	iNext
	iTypeAssert
	iExtract
	iSelect
	iSend
	iStore
	iNop
	iUnsupported
)

type Fn struct {
	ssa        *ssa.Function
	name       string
	nregs      int
	params     int
	blocks     []*Block
	recov      *Block
	once       sync.Once
	in         Intrin
	redir      *Fn
	inited     bool // resolved intrinsic
	resTI      *TI
	pkg        *ssa.Package
	nofree     int
	hits       int64
	mergeState int32
}

type Program struct {
	prog     *ssa.Program
	mu       sync.Mutex
	fns      map[*ssa.Function]*Fn
	globIdx  map[*ssa.Global]int
	globs    []*ssa.Global
	methods  sync.Map // methodKey -> *Fn
	redirect map[string]*ssa.Function
	msets    sync.Map
	initOK   func(path string) bool
	pureMu   sync.Mutex
	pureTab  map[*Fn]int
}

func (P *Program) fnOf(f *ssa.Function) *Fn {
	P.mu.Lock()
	defer P.mu.Unlock()
	return P.fnOfLocked(f)
}

func (P *Program) fnOfLocked(f *ssa.Function) *Fn {
	if x, ok := P.fns[f]; ok {
		return x
	}
	x := &Fn{ssa: f, name: f.String(), pkg: f.Pkg}
	P.fns[f] = x
	name := x.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if r, ok := P.redirect[name]; ok && r != f {
		x.redir = P.fnOfLocked(r)
		return x
	}
	if in, ok := intrinsics[name]; ok {
		x.in = in
	} else if strings.HasPrefix(f.Name(), "sym") && f.Pkg != nil && f.Pkg.Pkg.Name() == "main" {
		if in, ok := symIntrinsics[f.Name()]; ok {
			x.in = in
		}
	}
	if f.Name() == "init" && f.Pkg != nil && f.Signature.Recv() == nil && f.Parent() == nil && f.Synthetic != "" && !P.initOK(f.Pkg.Pkg.Path()) {
		x.in = func(m *Machine, args []Val) Val { return Val{} }
	}
	return x
}

func (P *Program) global(g *ssa.Global) int {
	P.mu.Lock()
	defer P.mu.Unlock()
	if i, ok := P.globIdx[g]; ok {
		return i
	}
	i := len(P.globs)
	P.globIdx[g] = i
	P.globs = append(P.globs, g)
	return i
}

func (P *Program) compile(fn *Fn) {
	fn.once.Do(func() { P.doCompile(fn) })
}

func constVal(c *ssa.Const) Val {
	ti := tiOf(c.Type())
	if c.Value == nil {
		return zero(ti)
	}
	switch ti.k {
	case KBool:
		return boolVal(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{c: uint64(i) & maskW(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{c: u & maskW(ti.w)}
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		return floatVal(f)
	case KString:
		return goStr(constant.StringVal(c.Value))
	}
	return Val{p: unsupportedConst{}}
}

type unsupportedConst struct{}

func (P *Program) doCompile(fn *Fn) {
	f := fn.ssa
	regs := map[ssa.Value]int32{}
	n := int32(0)
	for _, p := range f.Params {
		regs[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		regs[p] = n
		n++
	}
	fn.params = len(f.Params)
	fn.nofree = len(f.FreeVars)
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fn.nregs = int(n)
	res := f.Signature.Results()
	if res.Len() == 1 {
		fn.resTI = tiOf(res.At(0).Type())
	} else if res.Len() > 1 {
		fn.resTI = tiOf(res)
	}
	opd := func(v ssa.Value) Opd {
		if v == nil {
			return Opd{}
		}
		switch x := v.(type) {
		case *ssa.Const:
			return Opd{k: opConst, v: constVal(x)}
		case *ssa.Global:
			return Opd{k: opGlobal, i: int32(P.global(x))}
		case *ssa.Function:
			return Opd{k: opConst, v: Val{p: &Closure{fn: P.fnOf(x)}}}
		case *ssa.Builtin:
			return Opd{}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %v", v, f))
		}
		return Opd{k: opReg, i: r}
	}
	blocks := make([]*Block, len(f.Blocks))
	for i := range f.Blocks {
		blocks[i] = &Block{idx: i, src: f.Blocks[i]}
	}
	for i, b := range f.Blocks {
		nb := blocks[i]
		nb.phis = make([][]PhiMove, len(b.Preds))
		for _, s := range b.Succs {
			nb.succs = append(nb.succs, blocks[s.Index])
		}
		nb.edge = make([]int, len(b.Succs))
		used := map[*ssa.BasicBlock]int{}
		for si, s := range b.Succs {
			// the k-th occurrence of b among s.Preds belongs to the k-th
			// edge from b to s
			want := used[s]
			used[s]++
			cnt := 0
			for pi, p := range s.Preds {
				if p == b {
					if cnt == want {
						nb.edge[si] = pi
						break
					}
					cnt++
				}
			}
		}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				for k, e := range phi.Edges {
					nb.phis[k] = append(nb.phis[k], PhiMove{regs[phi], opd(e)})
				}
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := P.compileIns(in, opd)
			ci.ssa = in
			ci.dst = -1
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			nb.ins = append(nb.ins, ci)
		}
	}
	fn.blocks = blocks
	if f.Recover != nil {
		fn.recov = blocks[f.Recover.Index]
	}
}

func (P *Program) compileIns(in ssa.Instruction, opd func(ssa.Value) Opd) *Ins {
	ci := &Ins{}
	switch x := in.(type) {
	case *ssa.Alloc:
		ci.kind = iAlloc
		ci.ti = tiOf(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		ci.kind = iBinOp
		ci.a, ci.b = opd(x.X), opd(x.Y)
		ci.tok = x.Op
		ci.ti = tiOf(x.X.Type())
		ci.ti2 = tiOf(x.Y.Type())
		if ci.ti.k != KIface && ci.ti2.k == KIface {
			ci.ti = ci.ti2
		}
	case *ssa.UnOp:
		ci.a = opd(x.X)
		ci.tok = x.Op
		ci.ok = x.CommaOk
		ci.kind = iUnOp
		ci.ti = tiOf(x.X.Type())
		if x.Op == token.MUL {
			ci.kind = iLoad
			ci.ti = tiOf(x.Type())
		}
	case *ssa.Call:
		P.compileCall(ci, &x.Call, opd)
	case *ssa.Go:
		P.compileCall(ci, &x.Call, opd)
		ci.idx = int(ci.kind)
		ci.kind = iGo
	case *ssa.Defer:
		P.compileCall(ci, &x.Call, opd)
		ci.idx = int(ci.kind)
		ci.kind = iDefer
	case *ssa.RunDefers:
		ci.kind = iRunDefers
	case *ssa.Panic:
		ci.kind = iPanic
		ci.a = opd(x.X)
	case *ssa.Return:
		ci.kind = iReturn
		for _, r := range x.Results {
			ci.args = append(ci.args, opd(r))
		}
	case *ssa.If:
		ci.kind = iIf
		ci.a = opd(x.Cond)
	case *ssa.Jump:
		ci.kind = iJump
	case *ssa.ChangeType:
		ci.kind = iMove
		ci.a = opd(x.X)
	case *ssa.ChangeInterface:
		ci.kind = iMove
		ci.a = opd(x.X)
	case *ssa.Convert:
		ci.kind = iConvert
		ci.a = opd(x.X)
		ci.ti = tiOf(x.Type())
		ci.ti2 = tiOf(x.X.Type())
	case *ssa.MultiConvert:
		ci.kind = iConvert
		ci.a = opd(x.X)
		ci.ti = tiOf(x.Type())
		ci.ti2 = tiOf(x.X.Type())
	case *ssa.MakeInterface:
		ci.kind = iMakeInterface
		ci.a = opd(x.X)
		ci.ti = tiOf(x.X.Type())
	case *ssa.MakeClosure:
		ci.kind = iMakeClosure
		ci.fn = P.fnOf(x.Fn.(*ssa.Function))
		for _, b := range x.Bindings {
			ci.args = append(ci.args, opd(b))
		}
	case *ssa.MakeMap:
		ci.kind = iMakeMap
	case *ssa.MakeSlice:
		ci.kind = iMakeSlice
		ci.a, ci.b = opd(x.Len), opd(x.Cap)
		ci.ti = tiOf(x.Type()).elem
	case *ssa.MakeChan:
		ci.kind = iMakeChan
		ci.a = opd(x.Size)
	case *ssa.Slice:
		ci.kind = iSlice
		ci.a, ci.b, ci.c, ci.d = opd(x.X), opd(x.Low), opd(x.High), opd(x.Max)
		ci.ti = tiOf(x.X.Type())
	case *ssa.SliceToArrayPointer:
		ci.kind = iSliceToArrPtr
		ci.a = opd(x.X)
		ci.ti = tiOf(x.Type()).elem
	case *ssa.FieldAddr:
		ci.kind = iFieldAddr
		ci.a = opd(x.X)
		ci.idx = x.Field
	case *ssa.Field:
		ci.kind = iField
		ci.a = opd(x.X)
		ci.idx = x.Field
	case *ssa.IndexAddr:
		ci.kind = iIndexAddr
		ci.a, ci.b = opd(x.X), opd(x.Index)
		ci.ti = tiOf(x.X.Type())
		ci.ti2 = tiOf(x.Index.Type())
		elem := tiOf(x.Type()).elem
		if elem.scalar() {
			ci.loadOnly = true
			for _, r := range *x.Referrers() {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						ci.loadOnly = false
					}
				}
			}
		}
	case *ssa.Index:
		ci.kind = iIndex
		ci.a, ci.b = opd(x.X), opd(x.Index)
		ci.ti = tiOf(x.X.Type())
		ci.ti2 = tiOf(x.Index.Type())
	case *ssa.Lookup:
		ci.kind = iLookup
		ci.a, ci.b = opd(x.X), opd(x.Index)
		ci.ti = tiOf(x.X.Type())
		ci.ti2 = tiOf(x.Index.Type())
		ci.ok = x.CommaOk
	case *ssa.MapUpdate:
		ci.kind = iMapUpdate
		ci.a, ci.b, ci.c = opd(x.Map), opd(x.Key), opd(x.Value)
		ci.ti = tiOf(x.Map.Type())
	case *ssa.Range:
		ci.kind = iRange
		ci.a = opd(x.X)
		ci.ti = tiOf(x.X.Type())
	case *ssa.Next:
		ci.kind = iNext
		ci.a = opd(x.Iter)
		ci.ok = x.IsString
	case *ssa.TypeAssert:
		ci.kind = iTypeAssert
		ci.a = opd(x.X)
		ci.ti = tiOf(x.AssertedType)
		ci.ok = x.CommaOk
	case *ssa.Extract:
		ci.kind = iExtract
		ci.a = opd(x.Tuple)
		ci.idx = x.Index
	case *ssa.Select:
		ci.kind = iSelect
		ci.ok = x.Blocking
		for _, st := range x.States {
			ci.args = append(ci.args, opd(st.Chan), opd(st.Send))
		}
		ci.ti = tiOf(x.Type())
	case *ssa.Send:
		ci.kind = iSend
		ci.a, ci.b = opd(x.Chan), opd(x.X)
	case *ssa.Store:
		ci.kind = iStore
		ci.a, ci.b = opd(x.Addr), opd(x.Val)
		ci.ti = tiOf(x.Val.Type())
	default:
		ci.kind = iUnsupported
	}
	return ci
}

func (P *Program) compileCall(ci *Ins, c *ssa.CallCommon, opd func(ssa.Value) Opd) {
	for _, a := range c.Args {
		ci.args = append(ci.args, opd(a))
	}
	if c.IsInvoke() {
		ci.kind = iInvoke
		ci.a = opd(c.Value)
		return
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ci.kind = iBuiltin
		ci.bi = b.Name()
		if len(c.Args) > 0 {
			ci.ti = tiOf(c.Args[0].Type())
		}
		if len(c.Args) > 1 {
			ci.ti2 = tiOf(c.Args[1].Type())
		}
		return
	}
	ci.kind = iCall
	if f := c.StaticCallee(); f != nil {
		if _, isClo := c.Value.(*ssa.MakeClosure); !isClo {
			ci.fn = P.fnOf(f)
			return
		}
	}
	ci.a = opd(c.Value)
}

type methodKey struct {
	ti   *TI
	name string
	pkg  *types.Package
}

func (P *Program) method(ti *TI, m *types.Func) *Fn {
	key := methodKey{ti, m.Name(), nil}
	if !m.Exported() {
		key.pkg = m.Pkg()
	}
	if f, ok := P.methods.Load(key); ok {
		return f.(*Fn)
	}
	P.mu.Lock()
	sf := P.prog.LookupMethod(ti.t, m.Pkg(), m.Name())
	P.mu.Unlock()
	if sf == nil {
		return nil
	}
	f := P.fnOf(sf)
	P.methods.Store(key, f)
	return f
}

type implKey struct{ dyn, iface *TI }

func (P *Program) implements(dyn, iface *TI) bool {
	k := implKey{dyn, iface}
	if v, ok := P.msets.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(dyn.t, iface.t.Underlying().(*types.Interface))
	P.msets.Store(k, r)
	return r
}
