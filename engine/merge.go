package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Side-effect free functions with scalar results are summarised: all their
// paths are executed and the results merged into one ite term, so that they do
// not multiply the paths of the caller. No solver is involved: infeasible
// combinations only add unreachable ite branches.

const mergeLimit = 96

func pureIntrinsic(name string) bool {
	if strings.HasPrefix(name, "unicode.") {
		return true
	}
	switch name {
	case "unicode/utf8.DecodeRuneInString", "unicode/utf8.RuneLen", "unicode/utf8.ValidRune",
		"strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "strings.EqualFold",
		"github.com/mattn/go-runewidth.inTable", "strings.Index", "strings.IndexByte", "strings.IndexRune":
		return true
	}
	return false
}

func (P *Program) pure(fn *Fn) bool {
	for fn.redir != nil {
		fn = fn.redir
	}
	P.pureMu.Lock()
	defer P.pureMu.Unlock()
	return P.pureLocked(fn, 0)
}

func (P *Program) pureLocked(fn *Fn, depth int) bool {
	if v, ok := P.pureTab[fn]; ok {
		return v == 1
	}
	if depth > 12 {
		return false
	}
	P.pureTab[fn] = 2 // recursion: not pure
	r := P.pureCheck(fn, depth)
	if r {
		P.pureTab[fn] = 1
	}
	return r
}

func (P *Program) pureCheck(fn *Fn, depth int) bool {
	if fn.in != nil {
		return pureIntrinsic(fn.name)
	}
	f := fn.ssa
	if len(f.Blocks) == 0 {
		return false
	}
	var local func(v ssa.Value) bool
	local = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return local(x.X)
		case *ssa.IndexAddr:
			return local(x.X)
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !local(x.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select, *ssa.Panic, *ssa.MakeClosure, *ssa.MakeChan, *ssa.RunDefers, *ssa.Range, *ssa.Next:
				return false
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					return false
				}
			case *ssa.Call:
				if x.Call.IsInvoke() {
					return false
				}
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len", "cap", "min", "max":
					default:
						return false
					}
					continue
				}
				callee := x.Call.StaticCallee()
				if callee == nil {
					return false
				}
				cf := P.fnOf(callee)
				for cf.redir != nil {
					cf = cf.redir
				}
				if !P.pureLocked(cf, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

func (P *Program) mergeable(fn *Fn) bool {
	if fn.mergeState == 0 {
		s := int32(2)
		res := fn.ssa.Signature.Results()
		ok := res.Len() >= 1
		for i := 0; i < res.Len(); i++ {
			if !tiOf(res.At(i).Type()).scalar() {
				ok = false
			}
		}
		if ok && fn.in == nil && P.pure(fn) {
			s = 1
		}
		fn.mergeState = s
	}
	return fn.mergeState == 1
}

func anySym(args []Val) bool {
	for i := range args {
		if args[i].t != nil {
			return true
		}
		if _, ok := args[i].p.(*SymStr); ok {
			return true
		}
	}
	return false
}

// mergedCall summarises the call; ok is false when it has to be executed normally.
func (m *Machine) mergedCall(fn *Fn, args, bind []Val) (res Val, ok bool) {
	sgs, scur, sg := m.gs, m.cur, m.g
	sscript, sscriptP, spm := m.script, m.scriptP, m.pendingModel
	sinsDec, sinsPC, sinsTrail, sinsVar, sinsIn, sinsObs := m.insDec, m.insPC, m.insTrail, m.insVar, m.insIn, m.insObs
	base := len(m.choices)
	pc0, dec0, trail0 := len(m.pc), len(m.decs), len(m.trail)
	sm, sneed := m.model, m.needModel
	snested := m.nested
	scOld := m.choiceBase
	ssteps := m.maxSteps
	forks := m.forks
	sreach, sblk := m.reach, m.nblocked
	defer func() {
		m.undoTo(trail0)
		m.choices = m.choices[:base]
		m.gs, m.cur, m.g = sgs, scur, sg
		m.script, m.scriptP, m.pendingModel = sscript, sscriptP, spm
		m.insDec, m.insPC, m.insTrail, m.insVar, m.insIn, m.insObs = sinsDec, sinsPC, sinsTrail, sinsVar, sinsIn, sinsObs
		m.pc, m.decs = m.pc[:pc0], m.decs[:dec0]
		m.needModel = sneed
		m.setModel(sm)
		m.nested = snested
		m.choiceBase = scOld
		m.maxSteps = ssteps
		m.forks = forks
		m.reach, m.nblocked = sreach, sblk
	}()
	m.script, m.scriptP, m.pendingModel = nil, 0, nil
	m.nested = pc0 + 1
	m.choiceBase = base
	g := &G{}
	m.gs, m.cur, m.g = []*G{g}, 0, g
	root := m.pushFrame(fn, args, bind, -1)
	root.isRoot = true
	type pr struct {
		c *Term
		v Val
	}
	var rs []pr
	for {
		end := m.run()
		if end.kind != "ok" {
			return Val{}, false
		}
		c := m.tb.tru
		for _, t := range m.pc[pc0:] {
			c = m.tb.And(c, t)
		}
		rs = append(rs, pr{c, m.rootResult})
		if len(rs) > mergeLimit {
			return Val{}, false
		}
		if len(m.choices) == base {
			break
		}
		m.backtrack()
	}
	m.merges++
	rt := fn.resTI
	ite := func(c *Term, ti *TI, a, b Val) Val {
		if ti.k == KBool {
			return tval(m.tb.Ite(c, m.bterm(a), m.bterm(b)))
		}
		return tval(m.tb.Ite(c, m.term(a, ti.w), m.term(b, ti.w)))
	}
	r := rs[len(rs)-1].v
	for i := len(rs) - 2; i >= 0; i-- {
		if rt.k == KTuple {
			a := &Agg{make([]Val, len(rt.fields))}
			for k, f := range rt.fields {
				a.e[k] = ite(rs[i].c, f, rs[i].v.p.(*Agg).e[k], r.p.(*Agg).e[k])
			}
			r = Val{p: a}
		} else {
			r = ite(rs[i].c, rt, rs[i].v, r)
		}
	}
	return r, true
}
