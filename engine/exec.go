package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   *Fn
	bind []Val
	args []Val
	bi   *Ins // builtin
}

type panicInfo struct {
	v         Val // interface value
	msg       string
	recovered bool
}

type Frame struct {
	fn     *Fn
	blk    *Block
	pc     int
	regs   []Val
	defers []deferred
	ret    int32 // caller's destination register, -1 none
	// noAdvance: on return the caller's pc stays (RunDefers, panic unwinding)
	noAdvance bool
	pan       *panicInfo // this frame is panicking
	byPanic   *panicInfo // this frame is a deferred call run because of a panic
	isRoot    bool
}

type G struct {
	frames    []*Frame
	done      bool
	id        int
	blockedOn string
}

type trailEnt struct {
	addr *Val
	old  Val
	m    *Map
	ents []MapEnt
	symK bool
	ch   *Chan
	chv  Chan
	undo func()
}

type altern struct {
	dec   int64
	model *Model
	// chosen variable (symChoose): the model is completed with it when the
	// alternative is taken
	cv *Term
}

type Choice struct {
	trail    int
	gs       []*G
	cur      int
	pcLen    int
	inLen    int
	decLen   int
	obsLen   int
	script   []int64 // decisions already taken within the instruction
	alts     []altern
	steps    int64
	nvar     int
	nblocked int
	extra    extraState
}

// extraState is path state of intrinsics that is copied on forks.
type extraState struct {
	reach map[string]bool
}

type Input struct {
	Name   string `json:"name"`
	Kind   string `json:"kind"`
	t      *Term
	c      int64
	signed bool
	w      uint8
}

type Machine struct {
	P      *Program
	tb     *TB
	sol    *Solver
	glob   []*Val
	env    map[string]string
	tier   int
	params map[string]int

	trailOn bool
	trail   []trailEnt
	gs      []*G
	cur     int
	g       *G

	pc     []*Term
	model  *Model
	inputs []Input
	obs    []obsEnt
	decs   []int64
	nvar   int

	choices  []*Choice
	script   []int64 // forced decisions to come
	scriptP  int
	insDec   int // len(decs) at instruction start
	insPC    int
	insTrail int
	insVar   int
	insIn    int
	insObs   int

	steps, maxSteps int64
	totSteps        int64
	forks           int64
	branches        int64 // symbolic branch decisions
	reach           map[string]bool
	pendingModel    *Model
	nblocked        int
	fresh           bool
	curIns          *Ins
	noFork          bool
	ex              *Explorer
	lastFault       string
	sub             int
	initDone        bool
	nested          int // >0: inside a function summary; 1+length of the path condition at its start
	choiceBase      int
	needModel       bool
	rootResult      Val
	merges          int64
}

type obsEnt struct {
	label  string
	v      Val
	kind   Kind
	w      uint8
	signed bool
}

// ---- control-flow signals of the engine (Go panics) ----

type goPanic struct {
	v   Val
	msg string
}
type pathEnd struct {
	kind string // ok, assume, violation, unsupported
	msg  string
}
type blockSig struct{ why string }

func (m *Machine) unsupported(f string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

func (m *Machine) rtPanic(msg string) {
	panic(goPanic{Val{p: &Ifc{tiOf(types.Typ[types.String]), goStr("runtime error: " + msg)}}, "runtime error: " + msg})
}

// ---- memory ----

func (m *Machine) set(addr *Val, v Val) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{addr: addr, old: *addr})
	}
	*addr = v
}

func (m *Machine) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		e := &m.trail[i]
		switch {
		case e.addr != nil:
			*e.addr = e.old
		case e.m != nil:
			e.m.ents, e.m.symK = e.ents, e.symK
			e.m.idx = nil
		case e.ch != nil:
			*e.ch = e.chv
		case e.undo != nil:
			e.undo()
		}
		*e = trailEnt{}
	}
	m.trail = m.trail[:n]
}

func (m *Machine) onUndo(f func()) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{undo: f})
	}
}

func (m *Machine) saveMap(mp *Map) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{m: mp, ents: mp.ents, symK: mp.symK})
		mp.ents = append(make([]MapEnt, 0, len(mp.ents)+4), mp.ents...)
		mp.idx = nil
	}
}

func (m *Machine) saveChan(c *Chan) {
	if m.trailOn {
		cp := *c
		cp.buf = append([]Val(nil), c.buf...)
		m.trail = append(m.trail, trailEnt{ch: c, chv: cp})
	}
}

func (m *Machine) store(ti *TI, addr *Val, v Val) {
	if ti.agg() {
		src := v.p.(*Agg)
		dst := addr.p.(*Agg)
		if ti.k == KArray {
			for i := range src.e {
				m.store(ti.elem, &dst.e[i], src.e[i])
			}
		} else {
			for i, f := range ti.fields {
				m.store(f, &dst.e[i], src.e[i])
			}
		}
		return
	}
	m.set(addr, v)
}

// ---- terms ----

func (m *Machine) term(v Val, w uint8) *Term {
	if v.t != nil {
		return v.t
	}
	return m.tb.Const(w, v.c)
}
func (m *Machine) bterm(v Val) *Term {
	if v.t != nil {
		return v.t
	}
	return m.tb.Bool(v.c != 0)
}

// ---- decisions ----

func (m *Machine) setModel(md *Model) {
	m.model = md
	m.tb.newModelGen()
}

func (m *Machine) nextForced() (int64, bool) {
	if m.scriptP < len(m.script) {
		d := m.script[m.scriptP]
		m.scriptP++
		if m.scriptP == len(m.script) {
			m.script, m.scriptP = nil, 0
			if m.pendingModel != nil {
				m.setModel(m.pendingModel)
				m.pendingModel = nil
			} else {
				m.needModel = true
			}
		}
		return d, true
	}
	return 0, false
}

// ensureModel finds a model of the path condition after a replayed prefix.
func (m *Machine) ensureModel() {
	if !m.needModel {
		return
	}
	m.needModel = false
	e, err := m.sol.check(m.pc)
	if err != nil {
		panic(pathEnd{"unsupported", "solver: " + err.Error()})
	}
	if !e.sat {
		panic(pathEnd{"unsupported", "replayed prefix is infeasible"})
	}
	m.setModel(mergeModel(&Model{}, e))
}

// backtrack resumes the most recent choice point with its next alternative.
func (m *Machine) backtrack() {
	n := len(m.choices) - 1
	ch := m.choices[n]
	alt := ch.alts[len(ch.alts)-1]
	ch.alts = ch.alts[:len(ch.alts)-1]
	m.undoTo(ch.trail)
	if len(ch.alts) == 0 {
		m.choices = m.choices[:n]
		m.gs = ch.gs
		m.reach = ch.extra.reach
	} else {
		m.gs = copyGs(ch.gs)
		m.reach = map[string]bool{}
		for k := range ch.extra.reach {
			m.reach[k] = true
		}
	}
	m.cur = ch.cur
	m.g = m.gs[m.cur]
	m.pc = m.pc[:ch.pcLen]
	m.decs = m.decs[:ch.decLen]
	m.inputs = m.inputs[:ch.inLen]
	m.obs = m.obs[:ch.obsLen]
	m.steps = ch.steps
	m.nvar = ch.nvar
	m.nblocked = ch.nblocked
	m.script = append(append(make([]int64, 0, len(ch.script)+1), ch.script...), alt.dec)
	m.scriptP = 0
	m.pendingModel = alt.model
	if alt.cv != nil && alt.model != nil {
		md := alt.model.clone()
		md.put(int(alt.cv.k), uint64(alt.dec))
		m.pendingModel = md
	}
}

func mergeModel(base *Model, e *cacheEnt) *Model {
	md := base.clone()
	for i, id := range e.ids {
		md.put(id, e.val[i])
	}
	return md
}

func (m *Machine) query(extra *Term) *cacheEnt {
	e, err := m.sol.check(sliceConstraints(m.pc, extra))
	if err != nil {
		panic(pathEnd{"unsupported", "solver: " + err.Error()})
	}
	return e
}

func copyGs(gs []*G) []*G {
	res := make([]*G, len(gs))
	for i, g := range gs {
		ng := &G{done: g.done, id: g.id, frames: make([]*Frame, len(g.frames))}
		for j, f := range g.frames {
			nf := *f
			nf.regs = append([]Val(nil), f.regs...)
			nf.defers = append([]deferred(nil), f.defers...)
			ng.frames[j] = &nf
		}
		// panicInfo objects are shared between frames: copy consistently
		var pm map[*panicInfo]*panicInfo
		cp := func(p *panicInfo) *panicInfo {
			if p == nil {
				return nil
			}
			if q, ok := pm[p]; ok {
				return q
			}
			if pm == nil {
				pm = map[*panicInfo]*panicInfo{}
			}
			q := *p
			pm[p] = &q
			return &q
		}
		for _, f := range ng.frames {
			f.pan, f.byPanic = cp(f.pan), cp(f.byPanic)
		}
		res[i] = ng
	}
	return res
}

// snapshot makes a choice point for the current instruction.
func (m *Machine) snapshot(alts []altern) *Choice {
	ch := &Choice{
		trail: m.insTrail, cur: m.cur, pcLen: m.insPC, inLen: m.insIn, obsLen: m.insObs,
		decLen: m.insDec, script: append([]int64(nil), m.decs[m.insDec:]...),
		alts: alts, steps: m.steps, nvar: m.insVar,
	}
	ch.gs = copyGs(m.gs)
	ch.nblocked = m.nblocked
	if len(m.reach) > 0 {
		ch.extra.reach = make(map[string]bool, len(m.reach))
		for k := range m.reach {
			ch.extra.reach[k] = true
		}
	}
	return ch
}

func (m *Machine) decide(c *Term) bool {
	if c.isConst() {
		return c.k != 0
	}
	m.branches++
	if m.nested > 0 && m.scriptP >= len(m.script) {
		nc := m.tb.Not(c)
		for _, t := range m.pc {
			if t == c {
				return true
			}
			if t == nc {
				return false
			}
		}
		m.fork([]altern{{dec: 0, model: m.model}})
		m.pc = append(m.pc, c)
		m.decs = append(m.decs, 1)
		return true
	}
	if d, ok := m.nextForced(); ok {
		m.decs = append(m.decs, d)
		if d != 0 {
			m.pc = append(m.pc, c)
		} else {
			m.pc = append(m.pc, m.tb.Not(c))
		}
		return d != 0
	}
	m.ensureModel()
	mv := m.tb.eval(c, m.model) != 0
	same, other := c, m.tb.Not(c)
	var dSame, dOther int64 = 1, 0
	if !mv {
		same, other = other, same
		dSame, dOther = 0, 1
	}
	e := m.query(other)
	if e.sat {
		m.fork([]altern{{dec: dOther, model: mergeModel(m.model, e)}})
	}
	m.pc = append(m.pc, same)
	m.decs = append(m.decs, dSame)
	return mv
}

func (m *Machine) fork(alts []altern) {
	if m.noFork {
		panic(pathEnd{"unsupported", "fork in init"})
	}
	m.forks += int64(len(alts))
	m.choices = append(m.choices, m.snapshot(alts))
}

func (m *Machine) decideV(v Val) bool {
	if v.t == nil {
		return v.c != 0
	}
	return m.decide(v.t)
}

// choose forks n ways without adding a constraint.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := m.nextForced(); ok {
		m.decs = append(m.decs, d)
		return int(d)
	}
	alts := make([]altern, 0, n-1)
	for i := n - 1; i >= 1; i-- {
		alts = append(alts, altern{dec: int64(i), model: m.model})
	}
	m.fork(alts)
	m.decs = append(m.decs, 0)
	return 0
}

// chooseVar forks over all values of the fresh variable t, as far as the solver
// finds them feasible.
func (m *Machine) chooseVar(t *Term, n int) int {
	if d, ok := m.nextForced(); ok {
		m.decs = append(m.decs, d)
		m.pc = append(m.pc, m.tb.Eq(t, m.tb.Const(t.w, uint64(d))))
		return int(d)
	}
	m.ensureModel()
	m.branches++
	var alts []altern
	for i := n - 1; i >= 0; i-- {
		e, err := m.sol.check([]*Term{m.tb.Eq(t, m.tb.Const(t.w, uint64(i)))})
		if err != nil {
			panic(pathEnd{"unsupported", "solver: " + err.Error()})
		}
		if e.sat && i > 0 {
			alts = append(alts, altern{dec: int64(i), model: m.model, cv: t})
		}
	}
	if len(alts) > 0 {
		m.fork(alts)
	}
	md := m.model.clone()
	md.put(int(t.k), 0)
	m.setModel(md)
	m.pc = append(m.pc, m.tb.Eq(t, m.tb.Const(t.w, 0)))
	m.decs = append(m.decs, 0)
	return 0
}

const maxConcretize = 300

// concretize forks over all feasible values of t.
func (m *Machine) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	m.branches++
	if d, ok := m.nextForced(); ok {
		m.decs = append(m.decs, d)
		m.pc = append(m.pc, m.tb.Eq(t, m.tb.Const(t.w, uint64(d))))
		return uint64(d) & maskW(t.w)
	}
	if m.nested > 0 {
		panic(pathEnd{"unsupported", "concretize in summary"})
	}
	m.ensureModel()
	v0 := m.tb.eval(t, m.model)
	excl := m.tb.Not(m.tb.Eq(t, m.tb.Const(t.w, v0)))
	var alts []altern
	for {
		e := m.query(excl)
		if !e.sat {
			break
		}
		md := mergeModel(m.model, e)
		m.tb.newModelGen()
		v := m.tb.eval(t, md)
		m.tb.newModelGen()
		alts = append(alts, altern{dec: int64(v), model: md})
		excl = m.tb.And(excl, m.tb.Not(m.tb.Eq(t, m.tb.Const(t.w, v))))
		if len(alts) > maxConcretize {
			m.unsupported("too many values to enumerate for %s", m.tb.String(t))
		}
	}
	if len(alts) > 0 {
		m.fork(alts)
	}
	m.pc = append(m.pc, m.tb.Eq(t, m.tb.Const(t.w, v0)))
	m.decs = append(m.decs, int64(v0))
	return v0
}

func (m *Machine) concInt(v Val, w uint8, signed bool) int {
	x := v.c
	if v.t != nil {
		x = m.concretize(v.t)
	}
	if signed {
		return int(sx(x, w))
	}
	return int(x)
}

func (m *Machine) assume(c *Term) {
	if !m.decideAssume(c) {
		panic(pathEnd{"assume", ""})
	}
}

// decideAssume adds c to the path condition; false when infeasible.
func (m *Machine) decideAssume(c *Term) bool {
	if c.isConst() {
		return c.k != 0
	}
	if m.scriptP < len(m.script) {
		m.pc = append(m.pc, c)
		return true
	}
	m.ensureModel()
	if m.tb.eval(c, m.model) != 0 {
		m.pc = append(m.pc, c)
		return true
	}
	e := m.query(c)
	if !e.sat {
		return false
	}
	m.setModel(mergeModel(m.model, e))
	m.pc = append(m.pc, c)
	return true
}

func (m *Machine) newVar(name string, w uint8, lo, hi int64) *Term {
	m.nvar++
	return m.tb.Var(name, m.nvar, w, lo, hi)
}

// ---- frames ----

func (m *Machine) pushFrame(fn *Fn, args []Val, bind []Val, ret int32) *Frame {
	m.P.compile(fn)
	if len(fn.blocks) == 0 {
		m.unsupported("no body: %s", fn.name)
	}
	fr := &Frame{fn: fn, blk: fn.blocks[0], regs: make([]Val, fn.nregs), ret: ret}
	copy(fr.regs, args)
	copy(fr.regs[fn.params:], bind)
	m.g.frames = append(m.g.frames, fr)
	if len(m.g.frames) > 2000 {
		panic(pathEnd{"violation", "stack overflow"})
	}
	if !fn.inited {
		fn.inited = true
	}
	fn.hits++
	return fr
}

func (fr *Frame) get(m *Machine, o *Opd) Val {
	switch o.k {
	case opReg:
		return fr.regs[o.i]
	case opConst:
		return o.v
	case opGlobal:
		return Val{p: m.globalAddr(int(o.i))}
	}
	return Val{}
}

func (m *Machine) globalAddr(i int) *Val {
	for i >= len(m.glob) {
		m.glob = append(m.glob, nil)
	}
	if m.glob[i] == nil {
		m.P.mu.Lock()
		g := m.P.globs[i]
		m.P.mu.Unlock()
		if m.initDone && !m.P.initOK(g.Pkg.Pkg.Path()) {
			if _, ok := plainGlobals[g.String()]; !ok {
				m.unsupported("global %s of a package whose init is not run", g.String())
			}
		}
		v := zero(tiOf(g.Type().Underlying().(*types.Pointer).Elem()))
		m.glob[i] = &v
	}
	return m.glob[i]
}

// callFn starts (or, for intrinsics, performs) a call of the current instruction.
func (m *Machine) callFn(fr *Frame, fn *Fn, args, bind []Val, dst int32) {
	for fn.redir != nil {
		fn = fn.redir
	}
	if fn.in != nil {
		r := fn.in(m, args)
		if dst >= 0 {
			fr.regs[dst] = r
		}
		fr.pc++
		return
	}
	if m.nested == 0 && anySym(args) && m.P.mergeable(fn) {
		if v, ok := m.mergedCall(fn, args, bind); ok {
			if dst >= 0 {
				fr.regs[dst] = v
			}
			fr.pc++
			return
		}
	}
	m.pushFrame(fn, args, bind, dst)
}

func (m *Machine) resolveCall(fr *Frame, in *Ins, kind insKind) (*Fn, []Val, []Val) {
	if kind == iInvoke {
		rcv := fr.get(m, &in.a)
		ifc, ok := rcv.p.(*Ifc)
		if !ok {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		call := in.ssa.(ssa.CallInstruction).Common()
		fn := m.P.method(ifc.ti, call.Method)
		if fn == nil {
			m.unsupported("no method %s on %s", call.Method.Name(), ifc.ti.t)
		}
		args := make([]Val, 1+len(in.args))
		args[0] = ifc.v
		for i := range in.args {
			args[i+1] = fr.get(m, &in.args[i])
		}
		return fn, args, nil
	}
	args := make([]Val, len(in.args))
	for i := range in.args {
		args[i] = fr.get(m, &in.args[i])
	}
	if in.fn != nil {
		return in.fn, args, nil
	}
	f := fr.get(m, &in.a)
	c, ok := f.p.(*Closure)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return c.fn, args, c.bind
}

func (m *Machine) doReturn(fr *Frame, v Val) {
	g := m.g
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		m.rootResult = v
		return
	}
	caller := g.frames[len(g.frames)-1]
	if fr.byPanic != nil {
		// a deferred function called by the panicking caller has returned
		if caller.pan != nil && caller.pan.recovered {
			caller.pan = nil
			if len(caller.defers) > 0 {
				// remaining deferred calls are run by the recover block's
				// RunDefers equivalent: run them now, normally
				m.runRemaining(caller)
				return
			}
			m.recoverReturn(caller)
			return
		}
		m.unwind()
		return
	}
	if fr.ret >= 0 {
		caller.regs[fr.ret] = v
	}
	if !fr.noAdvance {
		caller.pc++
	}
}

// runRemaining: after a recovered panic the remaining defers run, then return.
func (m *Machine) runRemaining(fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	fr.pan = &panicInfo{recovered: true}
	m.callDeferred(fr, d, fr.pan)
}

func (m *Machine) recoverReturn(fr *Frame) {
	if fr.fn.recov != nil {
		fr.blk, fr.pc = fr.fn.recov, 0
		return
	}
	v := Val{}
	if fr.fn.resTI != nil {
		v = zero(fr.fn.resTI)
	}
	m.doReturn(fr, v)
}

func (m *Machine) callDeferred(fr *Frame, d deferred, by *panicInfo) {
	if d.bi != nil {
		m.builtin(fr, d.bi, d.args)
		if by != nil {
			m.afterPanicDefer(fr)
		}
		return
	}
	fn := d.fn
	for fn.redir != nil {
		fn = fn.redir
	}
	if fn.in != nil {
		fn.in(m, d.args)
		if by != nil {
			m.afterPanicDefer(fr)
		}
		return
	}
	nf := m.pushFrame(fn, d.args, d.bind, -1)
	nf.noAdvance = true
	nf.byPanic = by
}

func (m *Machine) afterPanicDefer(fr *Frame) {
	if fr.pan.recovered {
		fr.pan = nil
		if len(fr.defers) > 0 {
			m.runRemaining(fr)
			return
		}
		m.recoverReturn(fr)
		return
	}
	m.unwind()
}

// startPanic begins unwinding with v.
func (m *Machine) startPanic(p goPanic) {
	fr := m.g.frames[len(m.g.frames)-1]
	fr.pan = &panicInfo{v: p.v, msg: p.msg}
	m.unwind()
}

func (m *Machine) unwind() {
	g := m.g
	for {
		fr := g.frames[len(g.frames)-1]
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			m.callDeferred(fr, d, fr.pan)
			return
		}
		p := fr.pan
		g.frames = g.frames[:len(g.frames)-1]
		if len(g.frames) == 0 {
			panic(pathEnd{"violation", "panic: " + p.msg})
		}
		up := g.frames[len(g.frames)-1]
		up.pan = p
	}
}

func (m *Machine) jump(fr *Frame, k int) {
	b := fr.blk
	to := b.succs[k]
	moves := to.phis[b.edge[k]]
	switch len(moves) {
	case 0:
	case 1:
		fr.regs[moves[0].dst] = fr.get(m, &moves[0].src)
	default:
		var tmp [16]Val
		vals := tmp[:0]
		for i := range moves {
			vals = append(vals, fr.get(m, &moves[i].src))
		}
		for i := range moves {
			fr.regs[moves[i].dst] = vals[i]
		}
	}
	fr.blk, fr.pc = to, 0
}

// run executes until the path ends.
func (m *Machine) run() (end pathEnd) {
	for {
		e, again := m.runInner()
		if !again {
			return e
		}
	}
}

func (m *Machine) runInner() (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				m.lastFault = m.where()
				func() {
					defer func() {
						if r := recover(); r != nil {
							if pe, ok := r.(pathEnd); ok {
								if pe.kind == "violation" {
									pe.msg += " at " + m.lastFault
								}
								end, again = pe, false
								return
							}
							panic(r)
						}
					}()
					m.startPanic(x)
					again = true
				}()
			case pathEnd:
				end, again = x, false
				if x.kind == "unsupported" {
					end.msg += " at " + m.where()
				}
			case blockSig:
				m.nblocked++
				m.g.blockedOn = x.why
				if !m.nextG(x.why) {
					end, again = pathEnd{"violation", "deadlock: " + x.why + " at " + m.where()}, false
				} else {
					again = true
				}
			default:
				if debugEngine {
					panic(r)
				}
				end, again = pathEnd{"unsupported", fmt.Sprintf("engine: %v at %s", r, m.where())}, false
			}
		}
	}()
	m.exec()
	return pathEnd{"ok", ""}, false
}

func (m *Machine) nextG(why string) bool {
	n := len(m.gs)
	live := 0
	for _, g := range m.gs {
		if !g.done {
			live++
		}
	}
	if m.nblocked >= live {
		return false
	}
	for i := 1; i <= n; i++ {
		k := (m.cur + i) % n
		if !m.gs[k].done {
			m.cur = k
			m.g = m.gs[k]
			return true
		}
	}
	return false
}

func (m *Machine) where() string {
	s := ""
	if m.g == nil {
		return s
	}
	n := 0
	for i := len(m.g.frames) - 1; i >= 0 && n < 7; i-- {
		fr := m.g.frames[i]
		pos := token.NoPos
		if fr.pc < len(fr.blk.ins) {
			pos = fr.blk.ins[fr.pc].ssa.Pos()
		}
		s += fr.fn.name
		if pos.IsValid() {
			p := m.P.prog.Fset.Position(pos)
			s += fmt.Sprintf("(%s:%d)", shortPath(p.Filename), p.Line)
		}
		s += " < "
		n++
	}
	return s
}

func (m *Machine) exec() {
	for {
		g := m.g
		if len(g.frames) == 0 {
			g.done = true
			if g.id == 0 {
				return
			}
			m.nblocked = 0
			if !m.nextG("goroutine end") {
				panic(pathEnd{"violation", "deadlock: all goroutines blocked"})
			}
			continue
		}
		fr := g.frames[len(g.frames)-1]
		in := fr.blk.ins[fr.pc]
		m.steps++
		m.totSteps++
		if m.steps > m.maxSteps {
			panic(pathEnd{"violation", "step limit: possible endless loop at " + m.where()})
		}
		m.insDec, m.insPC, m.insTrail, m.insVar, m.insIn, m.insObs = len(m.decs), len(m.pc), len(m.trail), m.nvar, len(m.inputs), len(m.obs)
		switch in.kind {
		case iAlloc:
			v := zero(in.ti)
			fr.regs[in.dst] = Val{p: &v}
			fr.pc++
		case iBinOp:
			fr.regs[in.dst] = m.binop(in.tok, in.ti, in.ti2, fr.get(m, &in.a), fr.get(m, &in.b))
			fr.pc++
		case iUnOp:
			m.unop(fr, in)
		case iLoad:
			v := fr.get(m, &in.a)
			switch p := v.p.(type) {
			case *Val:
				if in.ti.agg() {
					fr.regs[in.dst] = copyVal(in.ti, *p)
				} else {
					fr.regs[in.dst] = *p
				}
			case *SymPtr:
				fr.regs[in.dst] = m.loadSym(p, in.ti)
			case nil:
				m.rtPanic("invalid memory address or nil pointer dereference")
			default:
				m.unsupported("load through %T", v.p)
			}
			fr.pc++
		case iCall, iInvoke:
			fn, args, bind := m.resolveCall(fr, in, in.kind)
			m.callFn(fr, fn, args, bind, in.dst)
		case iBuiltin:
			args := make([]Val, len(in.args))
			for i := range in.args {
				args[i] = fr.get(m, &in.args[i])
			}
			r := m.builtin(fr, in, args)
			if in.dst >= 0 {
				fr.regs[in.dst] = r
			}
			fr.pc++
		case iGo:
			fn, args, bind := m.resolveCall(fr, in, insKind(in.idx))
			for fn.redir != nil {
				fn = fn.redir
			}
			ng := &G{id: len(m.gs)}
			m.gs = append(m.gs, ng)
			if fn.in != nil {
				m.unsupported("go intrinsic %s", fn.name)
			}
			save := m.g
			m.g = ng
			m.pushFrame(fn, args, bind, -1)
			m.g = save
			fr.pc++
		case iDefer:
			if insKind(in.idx) == iBuiltin {
				args := make([]Val, len(in.args))
				for i := range in.args {
					args[i] = fr.get(m, &in.args[i])
				}
				fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{bi: in, args: args})
			} else {
				fn, args, bind := m.resolveCall(fr, in, insKind(in.idx))
				fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{fn: fn, bind: bind, args: args})
			}
			fr.pc++
		case iRunDefers:
			if n := len(fr.defers); n > 0 {
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				m.callDeferred(fr, d, nil)
			} else {
				fr.pc++
			}
		case iPanic:
			v := fr.get(m, &in.a)
			panic(goPanic{v, m.panicText(v)})
		case iReturn:
			var v Val
			switch len(in.args) {
			case 0:
			case 1:
				v = fr.get(m, &in.args[0])
			default:
				a := &Agg{make([]Val, len(in.args))}
				for i := range in.args {
					a.e[i] = fr.get(m, &in.args[i])
				}
				v = Val{p: a}
			}
			m.nblocked = 0
			m.doReturn(fr, v)
		case iIf:
			c := fr.get(m, &in.a)
			if m.decideV(c) {
				m.jump(fr, 0)
			} else {
				m.jump(fr, 1)
			}
		case iJump:
			m.jump(fr, 0)
		case iMove:
			fr.regs[in.dst] = fr.get(m, &in.a)
			fr.pc++
		case iConvert:
			fr.regs[in.dst] = m.convert(in.ti2, in.ti, fr.get(m, &in.a))
			fr.pc++
		case iMakeInterface:
			fr.regs[in.dst] = Val{p: &Ifc{in.ti, copyVal(in.ti, fr.get(m, &in.a))}}
			fr.pc++
		case iMakeClosure:
			b := make([]Val, len(in.args))
			for i := range in.args {
				b[i] = fr.get(m, &in.args[i])
			}
			fr.regs[in.dst] = Val{p: &Closure{in.fn, b}}
			fr.pc++
		case iMakeMap:
			fr.regs[in.dst] = Val{p: &Map{}}
			fr.pc++
		case iMakeSlice:
			n := m.concInt(fr.get(m, &in.a), 64, true)
			c := m.concInt(fr.get(m, &in.b), 64, true)
			if n < 0 || n > 1<<20 {
				m.rtPanic("makeslice: len out of range")
			}
			if c < n || c > 1<<20 {
				m.rtPanic("makeslice: cap out of range")
			}
			s := make([]Val, c)
			if in.ti.agg() {
				for i := range s {
					s[i] = zero(in.ti)
				}
			}
			fr.regs[in.dst] = Val{p: s[:n:c]}
			fr.pc++
		case iMakeChan:
			fr.regs[in.dst] = Val{p: &Chan{cap: m.concInt(fr.get(m, &in.a), 64, true)}}
			fr.pc++
		case iSlice:
			fr.regs[in.dst] = m.slice(fr, in)
			fr.pc++
		case iSliceToArrPtr:
			s, _ := fr.get(m, &in.a).p.([]Val)
			if len(s) < in.ti.n {
				m.rtPanic("cannot convert slice to array pointer")
			}
			v := Val{p: &Agg{s[:in.ti.n:in.ti.n]}}
			fr.regs[in.dst] = Val{p: &v}
			fr.pc++
		case iFieldAddr:
			p, ok := fr.get(m, &in.a).p.(*Val)
			if !ok {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			fr.regs[in.dst] = Val{p: &p.p.(*Agg).e[in.idx]}
			fr.pc++
		case iField:
			fr.regs[in.dst] = fr.get(m, &in.a).p.(*Agg).e[in.idx]
			fr.pc++
		case iIndexAddr:
			m.indexAddr(fr, in)
			fr.pc++
		case iIndex:
			x := fr.get(m, &in.a)
			iv := fr.get(m, &in.b)
			if in.ti.k == KString {
				fr.regs[in.dst] = m.indexStr(x, iv, in.ti2)
			} else {
				e := x.p.(*Agg).e
				i := m.boundsIdx(iv, in.ti2, len(e))
				fr.regs[in.dst] = e[i]
			}
			fr.pc++
		case iLookup:
			m.lookup(fr, in)
			fr.pc++
		case iMapUpdate:
			mp, ok := fr.get(m, &in.a).p.(*Map)
			if !ok {
				panic(goPanic{Val{p: &Ifc{tiOf(types.Typ[types.String]), goStr("assignment to entry in nil map")}}, "assignment to entry in nil map"})
			}
			m.mapSet(mp, in.ti.key, fr.get(m, &in.b), copyVal(in.ti.elem, fr.get(m, &in.c)))
			fr.pc++
		case iRange:
			m.rangeIter(fr, in)
			fr.pc++
		case iNext:
			m.next(fr, in)
			fr.pc++
		case iTypeAssert:
			m.typeAssert(fr, in)
			fr.pc++
		case iExtract:
			fr.regs[in.dst] = fr.get(m, &in.a).p.(*Agg).e[in.idx]
			fr.pc++
		case iSelect:
			m.selectOp(fr, in)
		case iSend:
			m.send(fr.get(m, &in.a), fr.get(m, &in.b))
			m.nblocked = 0
			fr.pc++
		case iStore:
			p, ok := fr.get(m, &in.a).p.(*Val)
			if !ok {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			m.store(in.ti, p, fr.get(m, &in.b))
			fr.pc++
		case iNop:
			fr.pc++
		default:
			m.unsupported("instruction %T", in.ssa)
		}
	}
}

func (m *Machine) panicText(v Val) string {
	ifc, ok := v.p.(*Ifc)
	if !ok {
		return "nil"
	}
	if ifc.ti.k == KString {
		if s, ok := ifc.v.p.(string); ok {
			return s
		}
	}
	return "value of type " + ifc.ti.t.String()
}

// ---- operations ----

func floatVal(f float64) Val { return Val{c: math.Float64bits(f)} }
func fl(v Val) float64       { return math.Float64frombits(v.c) }

func (m *Machine) binop(op token.Token, ti, ti2 *TI, x, y Val) Val {
	switch op {
	case token.EQL:
		return m.eq(ti, x, y)
	case token.NEQ:
		return m.not(m.eq(ti, x, y))
	}
	switch ti.k {
	case KInt:
		return m.intop(op, ti, ti2, x, y)
	case KString:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.not(m.strLess(y, x))
		case token.GEQ:
			return m.not(m.strLess(x, y))
		}
	case KFloat:
		a, b := fl(x), fl(y)
		switch op {
		case token.ADD:
			return floatVal(a + b)
		case token.SUB:
			return floatVal(a - b)
		case token.MUL:
			return floatVal(a * b)
		case token.QUO:
			return floatVal(a / b)
		case token.LSS:
			return boolVal(a < b)
		case token.LEQ:
			return boolVal(a <= b)
		case token.GTR:
			return boolVal(a > b)
		case token.GEQ:
			return boolVal(a >= b)
		}
	case KBool:
		switch op {
		case token.AND:
			return tval(m.tb.And(m.bterm(x), m.bterm(y)))
		case token.OR:
			return tval(m.tb.Or(m.bterm(x), m.bterm(y)))
		}
	}
	m.unsupported("binop %v on %s", op, ti.t)
	return Val{}
}

func (m *Machine) not(v Val) Val {
	if v.t == nil {
		return Val{c: v.c ^ 1}
	}
	return tval(m.tb.Not(v.t))
}

func (m *Machine) intop(op token.Token, ti, ti2 *TI, x, y Val) Val {
	w := ti.w
	msk := maskW(w)
	if x.t == nil && y.t == nil {
		a, b := x.c, y.c
		switch op {
		case token.ADD:
			return Val{c: (a + b) & msk}
		case token.SUB:
			return Val{c: (a - b) & msk}
		case token.MUL:
			return Val{c: (a * b) & msk}
		case token.QUO, token.REM:
			if b == 0 {
				m.rtPanic("integer divide by zero")
			}
			o := OUDiv
			if op == token.REM {
				o = OURem
			}
			if ti.signed {
				o += 2
			}
			r, _ := foldBin(o, w, a, b)
			return Val{c: r}
		case token.AND:
			return Val{c: a & b}
		case token.OR:
			return Val{c: a | b}
		case token.XOR:
			return Val{c: a ^ b}
		case token.AND_NOT:
			return Val{c: a &^ b}
		case token.SHL, token.SHR:
			if ti2.signed && sx(b, ti2.w) < 0 {
				m.rtPanic("negative shift amount")
			}
			o := OShl
			if op == token.SHR {
				o = OLshr
				if ti.signed {
					o = OAshr
				}
			}
			r, _ := foldBin(o, w, a, b)
			return Val{c: r}
		case token.LSS:
			if ti.signed {
				return boolVal(sx(a, w) < sx(b, w))
			}
			return boolVal(a < b)
		case token.LEQ:
			if ti.signed {
				return boolVal(sx(a, w) <= sx(b, w))
			}
			return boolVal(a <= b)
		case token.GTR:
			if ti.signed {
				return boolVal(sx(a, w) > sx(b, w))
			}
			return boolVal(a > b)
		case token.GEQ:
			if ti.signed {
				return boolVal(sx(a, w) >= sx(b, w))
			}
			return boolVal(a >= b)
		}
	}
	tb := m.tb
	if op == token.SHL || op == token.SHR {
		a := m.term(x, w)
		var b *Term
		if y.t == nil {
			if ti2.signed && sx(y.c, ti2.w) < 0 {
				m.rtPanic("negative shift amount")
			}
			if y.c >= uint64(w) {
				if op == token.SHR && ti.signed {
					y.c = uint64(w) - 1
				} else {
					return Val{}
				}
			}
			b = tb.Const(w, y.c)
		} else {
			if ti2.signed && m.decide(tb.Slt(y.t, tb.Const(ti2.w, 0))) {
				m.rtPanic("negative shift amount")
			}
			switch {
			case ti2.w == w:
				b = y.t
			case ti2.w < w:
				b = tb.Zext(y.t, w)
			default:
				big := tb.Ule(tb.Const(ti2.w, uint64(w)), y.t)
				b = tb.Ite(big, tb.Const(w, uint64(w)), tb.Trunc(y.t, w))
			}
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if ti.signed {
				o = OAshr
			}
		}
		return tval(tb.Bin(o, a, b))
	}
	a, b := m.term(x, w), m.term(y, w)
	var r *Term
	switch op {
	case token.ADD:
		r = tb.Bin(OAdd, a, b)
	case token.SUB:
		r = tb.Bin(OSub, a, b)
	case token.MUL:
		r = tb.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.decide(tb.Eq(b, tb.Const(w, 0))) {
			m.rtPanic("integer divide by zero")
		}
		o := OUDiv
		if op == token.REM {
			o = OURem
		}
		if ti.signed {
			o += 2
		}
		r = tb.Bin(o, a, b)
	case token.AND:
		r = tb.Bin(OBAnd, a, b)
	case token.OR:
		r = tb.Bin(OBOr, a, b)
	case token.XOR:
		r = tb.Bin(OBXor, a, b)
	case token.AND_NOT:
		r = tb.Bin(OBAnd, a, tb.Bin(OBXor, b, tb.Const(w, msk)))
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			a, b = b, a
		}
		lt := op == token.LSS || op == token.GTR
		switch {
		case ti.signed && lt:
			r = tb.Slt(a, b)
		case ti.signed:
			r = tb.Sle(a, b)
		case lt:
			r = tb.Ult(a, b)
		default:
			r = tb.Ule(a, b)
		}
	default:
		m.unsupported("int op %v", op)
	}
	return tval(r)
}

func (m *Machine) strEq(x, y Val) Val {
	n := strLen(x)
	if n != strLen(y) {
		return Val{}
	}
	if n == 0 {
		return Val{c: 1}
	}
	if a, ok := x.p.(string); ok {
		if b, ok := y.p.(string); ok {
			return boolVal(a == b)
		}
	}
	r := m.tb.tru
	for i := 0; i < n; i++ {
		e := m.tb.Eq(m.term(strByte(x, i), 8), m.term(strByte(y, i), 8))
		r = m.tb.And(r, e)
		if r == m.tb.fls {
			return Val{}
		}
	}
	return tval(r)
}

func (m *Machine) strLess(x, y Val) Val {
	if a, ok := x.p.(string); ok {
		if b, ok := y.p.(string); ok {
			return boolVal(a < b)
		}
	}
	nx, ny := strLen(x), strLen(y)
	n := min(nx, ny)
	r := m.tb.Bool(nx < ny)
	for i := n - 1; i >= 0; i-- {
		a, b := m.term(strByte(x, i), 8), m.term(strByte(y, i), 8)
		r = m.tb.Or(m.tb.Ult(a, b), m.tb.And(m.tb.Eq(a, b), r))
	}
	return tval(r)
}

func (m *Machine) and(a, b Val) Val {
	if a.t == nil {
		if a.c == 0 {
			return a
		}
		return b
	}
	if b.t == nil {
		if b.c == 0 {
			return b
		}
		return a
	}
	return tval(m.tb.And(a.t, b.t))
}

func samePtr(x, y any) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case *Val:
		b, ok := y.(*Val)
		return ok && a == b
	case *Map:
		b, ok := y.(*Map)
		return ok && a == b
	case *Chan:
		b, ok := y.(*Chan)
		return ok && a == b
	case *Closure, []Val:
		return y != nil && false
	}
	return false
}

func (m *Machine) eq(ti *TI, x, y Val) Val {
	switch ti.k {
	case KInt:
		if x.t == nil && y.t == nil {
			return boolVal(x.c == y.c)
		}
		return tval(m.tb.Eq(m.term(x, ti.w), m.term(y, ti.w)))
	case KBool:
		if x.t == nil && y.t == nil {
			return boolVal(x.c == y.c)
		}
		return tval(m.tb.Eq(m.bterm(x), m.bterm(y)))
	case KFloat:
		return boolVal(fl(x) == fl(y))
	case KString:
		return m.strEq(x, y)
	case KPtr, KChan, KMap, KFunc, KSlice:
		return boolVal(samePtr(x.p, y.p))
	case KStruct:
		r := Val{c: 1}
		a, b := x.p.(*Agg), y.p.(*Agg)
		for i, f := range ti.fields {
			r = m.and(r, m.eq(f, a.e[i], b.e[i]))
		}
		return r
	case KArray:
		r := Val{c: 1}
		a, b := x.p.(*Agg), y.p.(*Agg)
		for i := range a.e {
			r = m.and(r, m.eq(ti.elem, a.e[i], b.e[i]))
		}
		return r
	case KIface:
		a, ok1 := x.p.(*Ifc)
		b, ok2 := y.p.(*Ifc)
		if !ok1 || !ok2 {
			return boolVal(ok1 == ok2)
		}
		if a.ti != b.ti {
			return Val{}
		}
		if a.ti.k == KSlice || a.ti.k == KMap || a.ti.k == KFunc {
			m.rtPanic("comparing uncomparable type " + a.ti.t.String())
		}
		return m.eq(a.ti, a.v, b.v)
	}
	m.unsupported("== on %s", ti.t)
	return Val{}
}

func (m *Machine) unop(fr *Frame, in *Ins) {
	x := fr.get(m, &in.a)
	var r Val
	switch in.tok {
	case token.NOT:
		r = m.not(x)
	case token.SUB:
		if in.ti.k == KFloat {
			r = floatVal(-fl(x))
		} else if x.t == nil {
			r = Val{c: (-x.c) & maskW(in.ti.w)}
		} else {
			r = tval(m.tb.Bin(OSub, m.tb.Const(in.ti.w, 0), x.t))
		}
	case token.XOR:
		if x.t == nil {
			r = Val{c: (^x.c) & maskW(in.ti.w)}
		} else {
			r = tval(m.tb.Bin(OBXor, x.t, m.tb.Const(in.ti.w, maskW(in.ti.w))))
		}
	case token.ARROW:
		v, ok := m.recv(x, in.ti.elem)
		m.nblocked = 0
		if in.ok {
			r = Val{p: &Agg{[]Val{v, boolVal(ok)}}}
		} else {
			r = v
		}
	default:
		m.unsupported("unop %v", in.tok)
	}
	fr.regs[in.dst] = r
	fr.pc++
}

func (m *Machine) recv(x Val, elem *TI) (Val, bool) {
	c, ok := x.p.(*Chan)
	if !ok {
		panic(blockSig{"receive from nil channel"})
	}
	if len(c.buf) > 0 {
		m.saveChan(c)
		v := c.buf[0]
		c.buf = append([]Val(nil), c.buf[1:]...)
		if c.offer != 0 {
			c.taken = true
		}
		return v, true
	}
	if c.closed {
		return zero(elem), false
	}
	panic(blockSig{"receive"})
}

func (m *Machine) send(x, v Val) {
	c, ok := x.p.(*Chan)
	if !ok {
		panic(blockSig{"send on nil channel"})
	}
	if c.cap == 0 && c.offer == m.g.id+1 {
		if !c.taken {
			panic(blockSig{"send"})
		}
		m.saveChan(c)
		c.offer, c.taken = 0, false
		return
	}
	if c.closed {
		panic(goPanic{Val{p: &Ifc{tiOf(types.Typ[types.String]), goStr("send on closed channel")}}, "send on closed channel"})
	}
	if len(c.buf) >= max(c.cap, 1) || c.offer != 0 {
		panic(blockSig{"send"})
	}
	m.saveChan(c)
	c.buf = append(append([]Val(nil), c.buf...), v)
	if c.cap == 0 {
		// offer the value and wait until it is taken
		c.offer, c.taken = m.g.id+1, false
		m.nblocked = -1
		panic(blockSig{"send"})
	}
}

func (m *Machine) selectOp(fr *Frame, in *Ins) {
	sel := in.ssa.(*ssa.Select)
	var ready []int
	for i, st := range sel.States {
		c, ok := fr.get(m, &in.args[2*i]).p.(*Chan)
		if !ok {
			continue
		}
		if st.Dir == types.RecvOnly {
			if len(c.buf) > 0 || c.closed {
				ready = append(ready, i)
			}
		} else if c.closed || len(c.buf) < max(c.cap, 1) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 && in.ok {
		panic(blockSig{"select"})
	}
	a := &Agg{}
	pick := -1
	if len(ready) > 0 {
		pick = ready[m.choose(len(ready))]
	}
	a.e = append(a.e, Val{c: uint64(pick)}, Val{})
	for i, st := range sel.States {
		if st.Dir != types.RecvOnly {
			if i == pick {
				if c, ok := fr.get(m, &in.args[2*i]).p.(*Chan); ok && c.cap == 0 && !c.closed {
					m.unsupported("select that sends on an unbuffered channel")
				}
				m.send(fr.get(m, &in.args[2*i]), fr.get(m, &in.args[2*i+1]))
			}
			continue
		}
		elem := tiOf(st.Chan.Type()).elem
		v := zero(elem)
		if i == pick {
			var ok bool
			v, ok = m.recv(fr.get(m, &in.args[2*i]), elem)
			a.e[1] = boolVal(ok)
		}
		a.e = append(a.e, v)
	}
	m.nblocked = 0
	fr.regs[in.dst] = Val{p: a}
	fr.pc++
}

// boundsIdx returns the concrete index, forking over its values.
func (m *Machine) boundsIdx(iv Val, ti *TI, n int) int {
	if iv.t == nil {
		i := int(iv.c)
		if ti.signed {
			i = int(sx(iv.c, ti.w))
		}
		if i < 0 || i >= n {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return i
	}
	m.checkBounds(iv, ti, n)
	return int(m.concretize(iv.t))
}

func (m *Machine) checkBounds(iv Val, ti *TI, n int) {
	var t *Term
	if ti.w < 64 {
		if ti.signed {
			t = m.tb.Sext(iv.t, 64)
		} else {
			t = m.tb.Zext(iv.t, 64)
		}
	} else {
		t = iv.t
	}
	if !m.decide(m.tb.Ult(t, m.tb.Const(64, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (m *Machine) indexAddr(fr *Frame, in *Ins) {
	x := fr.get(m, &in.a)
	iv := fr.get(m, &in.b)
	var s []Val
	switch p := x.p.(type) {
	case []Val:
		s = p
	case *Val:
		s = p.p.(*Agg).e
	case nil:
		if in.ti.k == KPtr {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
	default:
		m.unsupported("indexAddr on %T", x.p)
	}
	if iv.t != nil && in.loadOnly {
		m.checkBounds(iv, in.ti2, len(s))
		if len(s) <= 1024 {
			fr.regs[in.dst] = Val{p: &SymPtr{s, iv.t}}
			return
		}
	}
	i := m.boundsIdx(iv, in.ti2, len(s))
	fr.regs[in.dst] = Val{p: &s[i]}
}

func (m *Machine) loadSym(p *SymPtr, ti *TI) Val {
	w := ti.w
	idx := p.idx
	n := len(p.s)
	lo := int(min(idx.lo, uint64(n-1)))
	hi := int(min(idx.hi, uint64(n-1)))
	get := func(i int) *Term {
		if ti.k == KBool {
			return m.bterm(p.s[i])
		}
		return m.term(p.s[i], w)
	}
	return tval(m.loadChain(p, lo, hi, get))
}

func (m *Machine) loadChain(p *SymPtr, lo, hi int, get func(int) *Term) *Term {
	tb := m.tb
	idx := p.idx
	// r covers indices > i
	r := get(hi)
	for i := hi - 1; i >= lo; i-- {
		v := get(i)
		if i+1 <= hi && v == get(i+1) && r == v {
			continue
		}
		r = tb.Ite(tb.Ule(idx, tb.Const(idx.w, uint64(i))), v, r)
		// skip the run of equal values below i: "idx <= i" already selects v
		for i-1 >= lo && get(i-1) == v {
			i--
		}
	}
	return r
}

func (m *Machine) indexStr(x, iv Val, ti *TI) Val {
	n := strLen(x)
	if iv.t == nil {
		return strByte(x, m.boundsIdx(iv, ti, n))
	}
	m.checkBounds(iv, ti, n)
	b := strBytes(x)
	p := &SymPtr{b, iv.t}
	return m.loadSym(p, tiOf(types.Typ[types.Uint8]))
}

func (m *Machine) slice(fr *Frame, in *Ins) Val {
	x := fr.get(m, &in.a)
	geti := func(o *Opd, def int) int {
		if o.k == opNone {
			return def
		}
		return m.concInt(fr.get(m, o), 64, true)
	}
	if in.ti.k == KString {
		n := strLen(x)
		lo := geti(&in.b, 0)
		hi := geti(&in.c, n)
		if hi < 0 || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(x, lo, hi)
	}
	var s []Val
	switch p := x.p.(type) {
	case []Val:
		s = p
	case *Val:
		s = p.p.(*Agg).e
	case nil:
		if in.ti.k == KPtr {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
	default:
		m.unsupported("slice of %T", x.p)
	}
	lo := geti(&in.b, 0)
	hi := geti(&in.c, len(s))
	mx := geti(&in.d, cap(s))
	if mx < 0 || mx > cap(s) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cap(s)))
	}
	if hi < 0 || hi > mx {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cap(s)))
	}
	if lo < 0 || lo > hi {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if x.p == nil {
		return Val{}
	}
	return Val{p: s[lo:hi:mx]}
}

// ---- maps ----

func mapKey(ti *TI, k Val) (any, bool) {
	switch ti.k {
	case KInt, KBool:
		if k.t != nil {
			return nil, false
		}
		return k.c, true
	case KString:
		switch s := k.p.(type) {
		case nil:
			return "", true
		case string:
			return s, true
		}
		return nil, false
	}
	return nil, false
}

func (m *Machine) mapFind(mp *Map, kti *TI, k Val) int {
	if mp == nil {
		return -1
	}
	if kti.k == KInt || kti.k == KBool || kti.k == KString {
		if !mp.symK {
			if key, ok := mapKey(kti, k); ok {
				if mp.idx == nil {
					mp.idx = make(map[any]int, len(mp.ents))
					for i := range mp.ents {
						kk, ok := mapKey(kti, mp.ents[i].k)
						if !ok {
							mp.idx = nil
							goto slow
						}
						mp.idx[kk] = i
					}
				}
				if i, ok := mp.idx[key]; ok {
					return i
				}
				return -1
			}
		}
	}
slow:
	// a symbolic key: first decide whether any entry matches at all
	any := m.tb.fls
	for i := range mp.ents {
		any = m.tb.Or(any, m.bterm(m.eq(kti, mp.ents[i].k, k)))
	}
	if !m.decide(any) {
		return -1
	}
	for i := range mp.ents {
		if m.decideV(m.eq(kti, mp.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mp *Map, kti *TI, k, v Val) {
	i := m.mapFind(mp, kti, k)
	m.saveMap(mp)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	mp.ents = append(mp.ents, MapEnt{k, v})
	key, ok := mapKey(kti, k)
	if !ok && (kti.k == KInt || kti.k == KBool || kti.k == KString) {
		mp.symK = true
	}
	if mp.idx != nil && ok {
		mp.idx[key] = len(mp.ents) - 1
	} else {
		mp.idx = nil
	}
}

func (m *Machine) mapDelete(mp *Map, kti *TI, k Val) {
	if mp == nil {
		return
	}
	i := m.mapFind(mp, kti, k)
	if i < 0 {
		return
	}
	m.saveMap(mp)
	ents := make([]MapEnt, 0, len(mp.ents))
	ents = append(append(ents, mp.ents[:i]...), mp.ents[i+1:]...)
	mp.ents = ents
	mp.idx = nil
}

func (m *Machine) lookup(fr *Frame, in *Ins) {
	x := fr.get(m, &in.a)
	if in.ti.k == KString {
		fr.regs[in.dst] = m.indexStr(x, fr.get(m, &in.b), in.ti2)
		return
	}
	mp, _ := x.p.(*Map)
	if v, ok := m.lookupMerged(mp, in.ti, fr.get(m, &in.b)); ok {
		if in.ok {
			v = Val{p: &Agg{[]Val{v, boolVal(true)}}}
		}
		fr.regs[in.dst] = v
		return
	}
	i := m.mapFind(mp, in.ti.key, fr.get(m, &in.b))
	var v Val
	if i >= 0 {
		v = copyVal(in.ti.elem, mp.ents[i].v)
	} else {
		v = zero(in.ti.elem)
	}
	if in.ok {
		v = Val{p: &Agg{[]Val{v, boolVal(i >= 0)}}}
	}
	fr.regs[in.dst] = v
}

// lookupMerged looks up a symbolic key in a map of scalars without deciding
// which of the entries it equals; ok is false when it has to be looked up the
// ordinary way (also when it is in none).
func (m *Machine) lookupMerged(mp *Map, mti *TI, k Val) (v Val, ok bool) {
	if mp == nil || len(mp.ents) < 2 || !mti.elem.scalar() || (mti.key.k != KInt && mti.key.k != KString) {
		return Val{}, false
	}
	if _, conc := mapKey(mti.key, k); conc && !mp.symK {
		return Val{}, false
	}
	any := m.tb.fls
	var hits []int
	var eqs []*Term
	for i := range mp.ents {
		e := m.bterm(m.eq(mti.key, mp.ents[i].k, k))
		if e == m.tb.fls {
			continue
		}
		any = m.tb.Or(any, e)
		hits = append(hits, i)
		eqs = append(eqs, e)
	}
	if len(hits) < 2 || !m.decide(any) {
		return Val{}, false
	}
	r := mp.ents[hits[len(hits)-1]].v
	for i := len(hits) - 2; i >= 0; i-- {
		a := mp.ents[hits[i]].v
		if mti.elem.k == KBool {
			r = tval(m.tb.Ite(eqs[i], m.bterm(a), m.bterm(r)))
		} else {
			r = tval(m.tb.Ite(eqs[i], m.term(a, mti.elem.w), m.term(r, mti.elem.w)))
		}
	}
	return r, true
}

// iterators live in registers; they are immutable values re-created by Next.
type iter struct {
	str  Val
	mp   *Map
	ents []MapEnt
	cell *Val // position, trailed
	kti  *TI
}

func (m *Machine) rangeIter(fr *Frame, in *Ins) {
	x := fr.get(m, &in.a)
	it := &iter{cell: &Val{}}
	if in.ti.k == KString {
		it.str = x
	} else {
		it.kti = in.ti.key
		if mp, ok := x.p.(*Map); ok {
			it.mp = mp
			it.ents = append([]MapEnt(nil), mp.ents...)
		}
	}
	fr.regs[in.dst] = Val{p: it}
}

func (m *Machine) next(fr *Frame, in *Ins) {
	it := fr.get(m, &in.a).p.(*iter)
	pos := int(it.cell.c)
	if in.ok {
		n := strLen(it.str)
		if pos >= n {
			fr.regs[in.dst] = Val{p: &Agg{[]Val{{}, {}, {}}}}
			return
		}
		r, size := m.decodeRune(it.str, pos)
		m.set(it.cell, Val{c: uint64(pos + size)})
		fr.regs[in.dst] = Val{p: &Agg{[]Val{{c: 1}, {c: uint64(pos)}, r}}}
		return
	}
	for pos < len(it.ents) {
		e := it.ents[pos]
		pos++
		// still present?
		i := m.mapFind(it.mp, it.kti, e.k)
		if i < 0 {
			continue
		}
		m.set(it.cell, Val{c: uint64(pos)})
		fr.regs[in.dst] = Val{p: &Agg{[]Val{{c: 1}, e.k, it.mp.ents[i].v}}}
		return
	}
	fr.regs[in.dst] = Val{p: &Agg{[]Val{{}, {}, {}}}}
}

func (m *Machine) typeAssert(fr *Frame, in *Ins) {
	ifc, _ := fr.get(m, &in.a).p.(*Ifc)
	ok := false
	var v Val
	if in.ti.k == KIface {
		if ifc != nil {
			m.P.mu.Lock()
			ok = m.P.implements(ifc.ti, in.ti)
			m.P.mu.Unlock()
			v = fr.get(m, &in.a)
		}
	} else if ifc != nil && ifc.ti == in.ti {
		ok = true
		v = copyVal(in.ti, ifc.v)
	}
	if !ok {
		if !in.ok {
			m.rtPanic("interface conversion")
		}
		v = zero(in.ti)
	}
	if in.ok {
		v = Val{p: &Agg{[]Val{v, boolVal(ok)}}}
	}
	fr.regs[in.dst] = v
}

// ---- UTF-8 ----

func (m *Machine) decodeRune(s Val, pos int) (Val, int) {
	n := strLen(s)
	if pos >= n {
		return Val{c: utf8.RuneError}, 0
	}
	if x, ok := s.p.(string); ok {
		r, size := utf8.DecodeRuneInString(x[pos:])
		return Val{c: uint64(uint32(r))}, size
	}
	return m.decodeBytes(s.p.(*SymStr).b[pos:])
}

func (m *Machine) decodeBytes(b []Val) (Val, int) {
	if len(b) == 0 {
		return Val{c: utf8.RuneError}, 0
	}
	b0 := b[0]
	if b0.t == nil {
		if b0.c < 0x80 {
			return Val{c: b0.c}, 1
		}
		k := min(len(b), 4)
		if allConcrete(b[:k]) {
			r, size := utf8.DecodeRuneInString(concStr(b[:k]))
			return Val{c: uint64(uint32(r))}, size
		}
	} else if b0.t.op == OEnc && b0.t.k&0xff == 0 {
		L := int(b0.t.k >> 8)
		if L <= len(b) {
			ok := true
			for i := 1; i < L; i++ {
				bt := b[i].t
				if bt == nil || bt.op != OEnc || bt.a != b0.t.a || bt.k != uint64(L)<<8|uint64(i) {
					ok = false
				}
			}
			if ok {
				return tval(b0.t.a), L
			}
		}
	}
	tb := m.tb
	t0 := m.term(b0, 8)
	c8 := func(x uint64) *Term { return tb.Const(8, x) }
	if m.decide(tb.Ult(t0, c8(0x80))) {
		return tval(tb.Zext(t0, 32)), 1
	}
	bad := Val{c: utf8.RuneError}
	inR := func(i int, lo, hi uint64) bool {
		if i >= len(b) {
			return false
		}
		t := m.term(b[i], 8)
		return m.decide(tb.And(tb.Ule(c8(lo), t), tb.Ule(t, c8(hi))))
	}
	w := func(t *Term, mask uint64, sh uint64) *Term {
		x := tb.Bin(OBAnd, tb.Zext(t, 32), tb.Const(32, mask))
		return tb.Bin(OShl, x, tb.Const(32, sh))
	}
	or := func(a, b *Term) *Term { return tb.Bin(OBOr, a, b) }
	bt := func(i int) *Term { return m.term(b[i], 8) }
	if inR(0, 0xc2, 0xdf) {
		if !inR(1, 0x80, 0xbf) {
			return bad, 1
		}
		return tval(or(w(t0, 0x1f, 6), w(bt(1), 0x3f, 0))), 2
	}
	if inR(0, 0xe0, 0xef) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.decide(tb.Eq(t0, c8(0xe0))) {
			lo = 0xa0
		} else if m.decide(tb.Eq(t0, c8(0xed))) {
			hi = 0x9f
		}
		if !inR(1, lo, hi) || !inR(2, 0x80, 0xbf) {
			return bad, 1
		}
		return tval(or(w(t0, 0x0f, 12), or(w(bt(1), 0x3f, 6), w(bt(2), 0x3f, 0)))), 3
	}
	if inR(0, 0xf0, 0xf4) {
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.decide(tb.Eq(t0, c8(0xf0))) {
			lo = 0x90
		} else if m.decide(tb.Eq(t0, c8(0xf4))) {
			hi = 0x8f
		}
		if !inR(1, lo, hi) || !inR(2, 0x80, 0xbf) || !inR(3, 0x80, 0xbf) {
			return bad, 1
		}
		return tval(or(w(t0, 0x07, 18), or(w(bt(1), 0x3f, 12), or(w(bt(2), 0x3f, 6), w(bt(3), 0x3f, 0))))), 4
	}
	return bad, 1
}

// encodeRune gives the UTF-8 bytes of r (32-bit).
func (m *Machine) encodeRune(r Val) []Val {
	if r.t == nil {
		var b [4]byte
		n := utf8.EncodeRune(b[:], rune(int32(r.c)))
		res := make([]Val, n)
		for i := 0; i < n; i++ {
			res[i].c = uint64(b[i])
		}
		return res
	}
	tb := m.tb
	t := r.t
	c := func(x uint64) *Term { return tb.Const(32, x) }
	if m.decide(tb.Ult(t, c(0x80))) {
		return m.enc(t, 1)
	}
	if m.decide(tb.Ult(t, c(0x800))) {
		return m.enc(t, 2)
	}
	bad := tb.Or(tb.Ult(c(0x10ffff), t), tb.And(tb.Ule(c(0xd800), t), tb.Ule(t, c(0xdfff))))
	if m.decide(bad) {
		return strBytes(goStr("�"))
	}
	if m.decide(tb.Ult(t, c(0x10000))) {
		return m.enc(t, 3)
	}
	return m.enc(t, 4)
}

func (m *Machine) enc(t *Term, L int) []Val {
	res := make([]Val, L)
	for i := range res {
		res[i] = tval(m.tb.Enc(t, L, i))
	}
	return res
}

// ---- conversions ----

func (m *Machine) convert(from, to *TI, v Val) Val {
	switch {
	case from.k == KInt && to.k == KInt:
		if v.t == nil {
			if from.signed {
				return Val{c: uint64(sx(v.c, from.w)) & maskW(to.w)}
			}
			return Val{c: v.c & maskW(to.w)}
		}
		switch {
		case to.w < from.w:
			return tval(m.tb.Trunc(v.t, to.w))
		case to.w == from.w:
			return v
		case from.signed:
			return tval(m.tb.Sext(v.t, to.w))
		default:
			return tval(m.tb.Zext(v.t, to.w))
		}
	case from.k == KInt && to.k == KFloat:
		x := v.c
		if v.t != nil {
			x = m.concretize(v.t)
		}
		if from.signed {
			return floatVal(float64(sx(x, from.w)))
		}
		return floatVal(float64(x))
	case from.k == KFloat && to.k == KInt:
		if to.signed {
			return Val{c: uint64(int64(fl(v))) & maskW(to.w)}
		}
		return Val{c: uint64(fl(v)) & maskW(to.w)}
	case from.k == KFloat && to.k == KFloat:
		return v
	case from.k == KInt && to.k == KString:
		if from.w != 32 {
			if v.t != nil {
				if from.w < 32 {
					v = tval(m.tb.Zext(v.t, 32))
				} else {
					if m.decide(m.tb.Ult(m.tb.Const(from.w, 0x10ffff), v.t)) {
						return goStr("�")
					}
					v = tval(m.tb.Trunc(v.t, 32))
				}
			} else {
				x := int64(v.c)
				if from.signed {
					x = sx(v.c, from.w)
				}
				if x < 0 || x > 0x10ffff {
					x = 0xfffd
				}
				v = Val{c: uint64(x)}
			}
		}
		return mkStrNoCopy(m.encodeRune(v))
	case from.k == KString && to.k == KSlice:
		if to.elem.w == 8 {
			b := strBytes(v)
			r := make([]Val, len(b), roundCap(len(b), 1))
			copy(r, b)
			return Val{p: r}
		}
		var r []Val
		n := strLen(v)
		for i := 0; i < n; {
			x, sz := m.decodeRune(v, i)
			r = append(r, x)
			i += sz
		}
		if r == nil {
			r = []Val{}
		}
		return Val{p: append(make([]Val, 0, roundCap(len(r), 4)), r...)}
	case from.k == KSlice && to.k == KString:
		s, _ := v.p.([]Val)
		if from.elem.w == 8 {
			return mkStr(s)
		}
		var b []Val
		for _, x := range s {
			b = append(b, m.encodeRune(x)...)
		}
		return mkStrNoCopy(b)
	case from.k == KString && to.k == KString:
		return v
	case from.k == KPtr && to.k == KPtr:
		return v
	case from.k == to.k:
		return v
	}
	m.unsupported("convert %s to %s", from.t, to.t)
	return Val{}
}

// ---- builtins ----

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundCap(n int, size int) int {
	if n == 0 || size == 0 {
		return n
	}
	b := n * size
	for _, c := range sizeClasses {
		if b <= c {
			return c / size
		}
	}
	p := (b + 8191) / 8192 * 8192
	return p / size
}

func growCap(oldCap, newLen, size int) int {
	newcap := newLen
	if newLen <= 2*oldCap {
		if oldCap < 256 {
			newcap = 2 * oldCap
		} else {
			newcap = oldCap
			for newcap < newLen {
				newcap += (newcap + 3*256) >> 2
			}
		}
	}
	return max(roundCap(newcap, size), newLen)
}

func (m *Machine) appendVals(s []Val, add []Val, elem *TI) []Val {
	if len(add) == 0 {
		return s
	}
	n := len(s)
	if n+len(add) <= cap(s) {
		r := s[:n+len(add)]
		for i, v := range add {
			if elem.agg() {
				m.store(elem, &r[n+i], v)
			} else {
				m.set(&r[n+i], v)
			}
		}
		return r
	}
	c := growCap(cap(s), n+len(add), int(elem.size))
	r := make([]Val, c)
	copy(r, s)
	if elem.agg() {
		for i := 0; i < n; i++ {
			r[i] = copyVal(elem, r[i])
		}
		for i, v := range add {
			r[n+i] = copyVal(elem, v)
		}
		for i := n + len(add); i < c; i++ {
			r[i] = zero(elem)
		}
	} else {
		copy(r[n:], add)
	}
	return r[:n+len(add)]
}

func (m *Machine) builtin(fr *Frame, in *Ins, args []Val) Val {
	switch in.bi {
	case "append":
		s, _ := args[0].p.([]Val)
		if len(args) == 1 {
			return args[0]
		}
		var add []Val
		if in.ti2.k == KString {
			add = strBytes(args[1])
		} else {
			add, _ = args[1].p.([]Val)
		}
		if len(add) == 0 {
			return args[0]
		}
		// aliasing: copy the source first
		if len(s)+len(add) <= cap(s) {
			add = append([]Val(nil), add...)
			if in.ti.elem.agg() {
				for i := range add {
					add[i] = copyVal(in.ti.elem, add[i])
				}
			}
		}
		return Val{p: m.appendVals(s, add, in.ti.elem)}
	case "copy":
		d, _ := args[0].p.([]Val)
		var s []Val
		if in.ti2.k == KString {
			s = strBytes(args[1])
		} else {
			s, _ = args[1].p.([]Val)
		}
		n := min(len(d), len(s))
		tmp := append([]Val(nil), s[:n]...)
		if in.ti.elem.agg() {
			for i := range tmp {
				tmp[i] = copyVal(in.ti.elem, tmp[i])
			}
		}
		for i := range tmp {
			m.store(in.ti.elem, &d[i], tmp[i])
		}
		return intVal(n)
	case "len":
		switch in.ti.k {
		case KString:
			return intVal(strLen(args[0]))
		case KSlice:
			s, _ := args[0].p.([]Val)
			return intVal(len(s))
		case KMap:
			if mp, ok := args[0].p.(*Map); ok {
				return intVal(len(mp.ents))
			}
			return Val{}
		case KArray:
			return intVal(in.ti.n)
		case KPtr:
			return intVal(in.ti.elem.n)
		case KChan:
			if c, ok := args[0].p.(*Chan); ok {
				return intVal(len(c.buf))
			}
			return Val{}
		}
	case "cap":
		switch in.ti.k {
		case KSlice:
			s, _ := args[0].p.([]Val)
			return intVal(cap(s))
		case KArray:
			return intVal(in.ti.n)
		case KPtr:
			return intVal(in.ti.elem.n)
		case KChan:
			if c, ok := args[0].p.(*Chan); ok {
				return intVal(c.cap)
			}
			return Val{}
		}
	case "delete":
		mp, _ := args[0].p.(*Map)
		m.mapDelete(mp, in.ti.key, args[1])
		return Val{}
	case "clear":
		switch x := args[0].p.(type) {
		case *Map:
			m.saveMap(x)
			x.ents, x.idx, x.symK = nil, nil, false
		case []Val:
			z := zero(in.ti.elem)
			for i := range x {
				m.store(in.ti.elem, &x[i], z)
			}
		}
		return Val{}
	case "close":
		c, ok := args[0].p.(*Chan)
		if !ok {
			m.rtPanic("close of nil channel")
		}
		if c.closed {
			panic(goPanic{Val{p: &Ifc{tiOf(types.Typ[types.String]), goStr("close of closed channel")}}, "close of closed channel"})
		}
		m.saveChan(c)
		c.closed = true
		return Val{}
	case "print", "println":
		return Val{}
	case "recover":
		if fr.byPanic != nil && !fr.byPanic.recovered {
			fr.byPanic.recovered = true
			return fr.byPanic.v
		}
		return Val{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if in.bi == "max" {
				op = token.GTR
			}
			c := m.binop(op, in.ti, in.ti, a, r)
			if c.t == nil {
				if c.c != 0 {
					r = a
				}
			} else if in.ti.k == KInt {
				r = tval(m.tb.Ite(c.t, m.term(a, in.ti.w), m.term(r, in.ti.w)))
			} else if m.decide(c.t) {
				r = a
			}
		}
		return r
	case "String": // unsafe.String
		n := m.concInt(args[1], 64, true)
		if n == 0 {
			return Val{}
		}
		p := args[0].p.(*Val)
		return mkStr(unsafe.Slice(p, n))
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Val{}
		}
		return Val{p: &append([]Val(nil), b...)[0]}
	case "Slice":
		n := m.concInt(args[1], 64, true)
		p, ok := args[0].p.(*Val)
		if !ok {
			return Val{}
		}
		return Val{p: unsafe.Slice(p, n)}
	case "SliceData":
		s, _ := args[0].p.([]Val)
		if cap(s) == 0 {
			return Val{}
		}
		return Val{p: &s[:1][0]}
	}
	m.unsupported("builtin %s", in.bi)
	return Val{}
}
