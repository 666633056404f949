package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"
	"unicode/utf8"
	"unsafe"
)

type Intrin func(m *Machine, args []Val) Val

var intrinsics map[string]Intrin
var symIntrinsics map[string]Intrin

// globals of packages whose initialiser is not run that may be read as zero
var plainGlobals = map[string]bool{
	"os.Stdin": true, "os.Stdout": true, "os.Stderr": true, // nil; only passed to models
}

func tup(v ...Val) Val { return Val{p: &Agg{v}} }

// ---- rune classes as interval lists, from the toolchain's own tables ----

type ival struct{ lo, hi uint32 }

var predCache sync.Map

func predIntervals(name string, f func(rune) bool) []ival {
	if v, ok := predCache.Load(name); ok {
		return v.([]ival)
	}
	var res []ival
	in := false
	for r := rune(0); r <= 0x110000; r++ {
		b := r <= 0x10ffff && f(r)
		if b && !in {
			res = append(res, ival{uint32(r), uint32(r)})
		} else if b {
			res[len(res)-1].hi = uint32(r)
		}
		in = b
	}
	predCache.Store(name, res)
	return res
}

// member builds "t is in one of the (sorted, disjoint) intervals" for a
// non-negative 32-bit t; negative values are outside.
func (m *Machine) member(t *Term, iv []ival) *Term {
	a := sort.Search(len(iv), func(i int) bool { return uint64(iv[i].hi) >= t.lo })
	b := sort.Search(len(iv), func(i int) bool { return uint64(iv[i].lo) > t.hi })
	if a >= b {
		return m.tb.fls
	}
	return m.memberRec(t, iv[a:b])
}

func (m *Machine) memberRec(t *Term, iv []ival) *Term {
	tb := m.tb
	if len(iv) == 1 {
		lo, hi := tb.Const(32, uint64(iv[0].lo)), tb.Const(32, uint64(iv[0].hi))
		if iv[0].lo == iv[0].hi {
			return tb.Eq(t, lo)
		}
		return tb.And(tb.Ule(lo, t), tb.Ule(t, hi))
	}
	k := len(iv) / 2
	return tb.Ite(tb.Ult(t, tb.Const(32, uint64(iv[k].lo))), m.memberRec(t, iv[:k]), m.memberRec(t, iv[k:]))
}

func predIntrin(name string, f func(rune) bool) Intrin {
	return func(m *Machine, args []Val) Val {
		if args[0].t == nil {
			return boolVal(f(rune(int32(args[0].c))))
		}
		return tval(m.member(args[0].t, predIntervals(name, f)))
	}
}

type drun struct {
	lo, hi uint32
	step   uint32
	d      int32
}

var deltaCache sync.Map

// deltaRuns describes f(r)-r as runs with stride 1 or 2.
func deltaRuns(name string, f func(rune) rune) []drun {
	if v, ok := deltaCache.Load(name); ok {
		return v.([]drun)
	}
	var res []drun
	for r := rune(0); r <= 0x10ffff; r++ {
		if r >= 0xd800 && r <= 0xdfff {
			continue
		}
		d := int32(f(r) - r)
		if d == 0 {
			continue
		}
		if n := len(res); n > 0 && res[n-1].d == d {
			l := &res[n-1]
			gap := uint32(r) - l.hi
			if l.lo == l.hi && gap <= 2 {
				l.step, l.hi = gap, uint32(r)
				continue
			}
			if l.lo != l.hi && gap == l.step {
				l.hi = uint32(r)
				continue
			}
		}
		res = append(res, drun{uint32(r), uint32(r), 1, d})
	}
	deltaCache.Store(name, res)
	return res
}

func (m *Machine) mapRune(name string, f func(rune) rune, v Val) Val {
	if v.t == nil {
		return Val{c: uint64(uint32(f(rune(int32(v.c)))))}
	}
	t := v.t
	tb := m.tb
	r := t
	for _, d := range deltaRuns(name, f) {
		if uint64(d.hi) < t.lo || uint64(d.lo) > t.hi {
			continue
		}
		c := m.memberRec(t, []ival{{d.lo, d.hi}})
		if d.step == 2 {
			par := tb.Eq(tb.Bin(OBAnd, t, tb.Const(32, 1)), tb.Const(32, uint64(d.lo&1)))
			c = tb.And(c, par)
		}
		r = tb.Ite(c, tb.Bin(OAdd, t, tb.Const(32, uint64(uint32(d.d)))), r)
	}
	return tval(r)
}

func foldCanon(r rune) rune {
	if r < 0 {
		return r
	}
	c := r
	for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
		if x < c {
			c = x
		}
	}
	return c
}

func (m *Machine) rangeTable(p *Val) []ival {
	if iv, ok := predCache.Load(p); ok {
		return iv.([]ival)
	}
	a := p.p.(*Agg)
	var iv []ival
	for k := 0; k < 2; k++ {
		s, _ := a.e[k].p.([]Val)
		for _, e := range s {
			x := e.p.(*Agg).e
			lo, hi, st := uint32(x[0].c), uint32(x[1].c), uint32(x[2].c)
			if st <= 1 {
				iv = append(iv, ival{lo, hi})
			} else {
				for c := lo; c <= hi; c += st {
					iv = append(iv, ival{c, c})
				}
			}
		}
	}
	sort.Slice(iv, func(i, j int) bool { return iv[i].lo < iv[j].lo })
	if m.ex == nil || m.initDone {
		predCache.Store(p, iv)
	}
	return iv
}

// ---- strings ----

func (m *Machine) runes(s Val) []Val {
	var r []Val
	n := strLen(s)
	for i := 0; i < n; {
		x, sz := m.decodeRune(s, i)
		r = append(r, x)
		i += sz
	}
	return r
}

func (m *Machine) eqTerm(a, b Val, w uint8) *Term {
	return m.tb.Eq(m.term(a, w), m.term(b, w))
}

// matchAt: s[i:i+len(sub)] == sub
func (m *Machine) matchAt(s, sub Val, i int) *Term {
	n := strLen(sub)
	r := m.tb.tru
	for j := 0; j < n; j++ {
		r = m.tb.And(r, m.eqTerm(strByte(s, i+j), strByte(sub, j), 8))
		if r == m.tb.fls {
			break
		}
	}
	return r
}

func (m *Machine) contains(s, sub Val) Val {
	if a, ok := s.p.(string); ok {
		if b, ok := sub.p.(string); ok {
			return boolVal(strings.Contains(a, b))
		}
	}
	ns, nb := strLen(s), strLen(sub)
	if nb == 0 {
		return Val{c: 1}
	}
	r := m.tb.fls
	for i := 0; i+nb <= ns; i++ {
		r = m.tb.Or(r, m.matchAt(s, sub, i))
	}
	return tval(r)
}

func (m *Machine) index(s, sub Val) int {
	if a, ok := s.p.(string); ok {
		if b, ok := sub.p.(string); ok {
			return strings.Index(a, b)
		}
	}
	ns, nb := strLen(s), strLen(sub)
	if nb == 0 {
		return 0
	}
	if !m.decideV(m.contains(s, sub)) {
		return -1
	}
	for i := 0; i+nb <= ns; i++ {
		if m.decide(m.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

func (m *Machine) lastIndex(s, sub Val) int {
	ns, nb := strLen(s), strLen(sub)
	for i := ns - nb; i >= 0; i-- {
		if m.decide(m.matchAt(s, sub, i)) {
			return i
		}
	}
	return -1
}

func (m *Machine) equalFold(a, b Val) Val {
	ra, rb := m.runes(a), m.runes(b)
	if len(ra) != len(rb) {
		return Val{}
	}
	r := m.tb.tru
	for i := range ra {
		x := m.mapRune("foldCanon", foldCanon, ra[i])
		y := m.mapRune("foldCanon", foldCanon, rb[i])
		r = m.tb.And(r, m.eqTerm(x, y, 32))
	}
	return tval(r)
}

func (m *Machine) mapString(s Val, name string, f func(rune) rune) Val {
	var b []Val
	for _, r := range m.runes(s) {
		b = append(b, m.encodeRune(m.mapRune(name, f, r))...)
	}
	return mkStrNoCopy(b)
}

func sliceBytes(v Val) []Val {
	s, _ := v.p.([]Val)
	return s
}

// leaf finds the first scalar cell of an aggregate (state word of a mutex etc.)
func leaf(p *Val) *Val {
	a, ok := p.p.(*Agg)
	if !ok {
		return p
	}
	for i := range a.e {
		if sub, ok := a.e[i].p.(*Agg); ok && len(sub.e) == 0 {
			continue
		}
		return leaf(&a.e[i])
	}
	return nil
}

// ---- formatting ----

func (m *Machine) fmtInt(v Val, ti *TI, verb byte) Val {
	if v.t == nil {
		var x int64 = int64(v.c)
		if ti.signed {
			x = sx(v.c, ti.w)
			switch verb {
			case 'X':
				return goStr(strings.ToUpper(strconv.FormatInt(x, 16)))
			case 'x':
				return goStr(strconv.FormatInt(x, 16))
			}
			return goStr(strconv.FormatInt(x, 10))
		}
		switch verb {
		case 'X':
			return goStr(strings.ToUpper(strconv.FormatUint(v.c, 16)))
		case 'x':
			return goStr(strconv.FormatUint(v.c, 16))
		}
		return goStr(strconv.FormatUint(v.c, 10))
	}
	tb := m.tb
	t := v.t
	w := t.w
	neg := false
	if ti.signed && t.slo < 0 {
		if m.decide(tb.Slt(t, tb.Const(w, 0))) {
			neg = true
			t = tb.Bin(OSub, tb.Const(w, 0), t)
		}
	}
	base := uint64(10)
	if verb != 'd' {
		base = 16
	}
	var digs []*Term
	// number of digits
	n := 1
	for lim := base; lim <= maskW(w); lim *= base {
		if m.decide(tb.Ult(t, tb.Const(w, lim))) {
			break
		}
		n++
		if lim > maskW(w)/base {
			break
		}
	}
	div := uint64(1)
	for i := 0; i < n; i++ {
		var d *Term
		if base == 16 {
			d = tb.Bin(OBAnd, tb.Bin(OLshr, t, tb.Const(w, uint64(4*i))), tb.Const(w, 15))
		} else {
			d = t
			if i > 0 {
				d = tb.Bin(OUDiv, t, tb.Const(w, div))
			}
			d = tb.Bin(OURem, d, tb.Const(w, 10))
			div *= 10
		}
		digs = append(digs, d)
	}
	var out []Val
	if neg {
		out = append(out, Val{c: '-'})
	}
	for i := n - 1; i >= 0; i-- {
		d := tb.Trunc(digs[i], 8)
		c := tb.Bin(OAdd, d, tb.Const(8, '0'))
		if base == 16 {
			a := uint64('A' - 10)
			if verb == 'x' {
				a = 'a' - 10
			}
			c = tb.Ite(tb.Ult(d, tb.Const(8, 10)), c, tb.Bin(OAdd, d, tb.Const(8, a)))
		}
		out = append(out, tval(c))
	}
	return mkStrNoCopy(out)
}

func (m *Machine) fmt1(verb byte, v Val) Val {
	ifc, ok := v.p.(*Ifc)
	if !ok {
		return goStr("<nil>")
	}
	switch ifc.ti.k {
	case KInt:
		switch verb {
		case 'd', 'v':
			return m.fmtInt(ifc.v, ifc.ti, 'd')
		case 'X', 'x':
			return m.fmtInt(ifc.v, ifc.ti, verb)
		case 'c':
			return m.convert(ifc.ti, tiOf(types.Typ[types.String]), ifc.v)
		}
	case KString:
		switch verb {
		case 's', 'v', 'w':
			return ifc.v
		case 'q':
			if s, ok := ifc.v.p.(string); ok {
				return goStr(strconv.Quote(s))
			}
		case 'X', 'x':
			var out []Val
			for _, b := range strBytes(ifc.v) {
				x := m.term(b, 8)
				for _, sh := range []uint64{4, 0} {
					d := m.tb.Bin(OBAnd, m.tb.Bin(OLshr, x, m.tb.Const(8, sh)), m.tb.Const(8, 15))
					a := uint64('A' - 10)
					if verb == 'x' {
						a = 'a' - 10
					}
					out = append(out, tval(m.tb.Ite(m.tb.Ult(d, m.tb.Const(8, 10)), m.tb.Bin(OAdd, d, m.tb.Const(8, '0')), m.tb.Bin(OAdd, d, m.tb.Const(8, a)))))
				}
			}
			return mkStrNoCopy(out)
		}
	case KBool:
		if m.decideV(ifc.v) {
			return goStr("true")
		}
		return goStr("false")
	case KSlice:
		if ifc.ti.elem.w == 8 && (verb == 's') {
			return mkStr(sliceBytes(ifc.v))
		}
	case KPtr:
		return goStr("0xc000000000")
	}
	m.unsupported("format %%%c of %s", verb, ifc.ti.t)
	return Val{}
}

func concreteStr(m *Machine, v Val) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	}
	m.unsupported("symbolic string where a concrete one is needed")
	return ""
}

func init() {
	nop := func(m *Machine, args []Val) Val { return Val{} }
	id0 := func(m *Machine, args []Val) Val { return args[0] }
	decode := func(m *Machine, s Val) Val {
		r, n := m.decodeRune(s, 0)
		return tup(r, intVal(n))
	}
	atomicLoad := func(m *Machine, args []Val) Val { return *leaf(args[0].p.(*Val)) }
	atomicStore := func(m *Machine, args []Val) Val {
		m.set(leaf(args[0].p.(*Val)), args[1])
		return Val{}
	}
	atomicCas := func(m *Machine, args []Val) Val {
		c := leaf(args[0].p.(*Val))
		if c.t != nil || args[1].t != nil {
			m.unsupported("symbolic CAS")
		}
		if c.c == args[1].c && c.p == args[1].p {
			m.set(c, args[2])
			return Val{c: 1}
		}
		return Val{}
	}
	atomicAdd := func(w uint8) Intrin {
		return func(m *Machine, args []Val) Val {
			c := leaf(args[0].p.(*Val))
			v := Val{c: (c.c + args[1].c) & maskW(w)}
			m.set(c, v)
			return v
		}
	}
	atomicSwap := func(m *Machine, args []Val) Val {
		c := leaf(args[0].p.(*Val))
		old := *c
		m.set(c, args[1])
		return old
	}
	// a lock held by writers counts rwWriter, one held by readers their number
	const rwWriter = 1 << 20
	rwLock := func(add, most uint64) Intrin {
		return func(m *Machine, a []Val) Val {
			if a[0].p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			c := leaf(a[0].p.(*Val))
			if c.c > most {
				panic(blockSig{"sync.RWMutex"})
			}
			m.set(c, Val{c: c.c + add})
			m.nblocked = 0
			return Val{}
		}
	}
	rwUnlock := func(sub uint64) Intrin {
		return func(m *Machine, a []Val) Val {
			c := leaf(a[0].p.(*Val))
			if c.c < sub || sub == 1 && c.c >= rwWriter {
				panic(pathEnd{"violation", "fatal error: sync: unlock of unlocked RWMutex"})
			}
			m.set(c, Val{c: c.c - sub})
			m.nblocked = 0
			return Val{}
		}
	}
	wgAdd := func(m *Machine, a []Val) Val {
		if a[0].p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		if a[1].t != nil {
			m.unsupported("symbolic WaitGroup.Add")
		}
		c := leaf(a[0].p.(*Val))
		n := int64(c.c) + int64(a[1].c)
		if n < 0 {
			m.rtPanic("sync: negative WaitGroup counter")
		}
		m.set(c, Val{c: uint64(n)})
		m.nblocked = 0
		return Val{}
	}
	// the pointer is the last field of atomic.Pointer
	ptrCell := func(p *Val) *Val {
		e := p.p.(*Agg).e
		return &e[len(e)-1]
	}
	ptrLoad := func(m *Machine, a []Val) Val { return *ptrCell(a[0].p.(*Val)) }
	ptrStore := func(m *Machine, a []Val) Val {
		m.set(ptrCell(a[0].p.(*Val)), a[1])
		return Val{}
	}
	intrinsics = map[string]Intrin{
		"unicode/utf8.DecodeRuneInString": func(m *Machine, a []Val) Val { return decode(m, a[0]) },
		"unicode/utf8.DecodeRune": func(m *Machine, a []Val) Val {
			r, n := m.decodeBytes(sliceBytes(a[0]))
			return tup(r, intVal(n))
		},
		"unicode/utf8.RuneCountInString": func(m *Machine, a []Val) Val { return intVal(len(m.runes(a[0]))) },
		"unicode/utf8.RuneCount":         func(m *Machine, a []Val) Val { return intVal(len(m.runes(mkStr(sliceBytes(a[0]))))) },
		"unicode/utf8.EncodeRune": func(m *Machine, a []Val) Val {
			b := m.encodeRune(a[1])
			d := sliceBytes(a[0])
			if len(d) < len(b) {
				m.rtPanic("index out of range (EncodeRune)")
			}
			for i := range b {
				m.set(&d[i], b[i])
			}
			return intVal(len(b))
		},
		"unicode/utf8.AppendRune": func(m *Machine, a []Val) Val {
			return Val{p: m.appendVals(sliceBytes(a[0]), m.encodeRune(a[1]), tiOf(types.Typ[types.Uint8]))}
		},
		"unicode/utf8.RuneLen": func(m *Machine, a []Val) Val {
			if a[0].t == nil {
				return intVal(utf8.RuneLen(rune(int32(a[0].c))))
			}
			bad := m.tb.Or(m.tb.Ult(m.tb.Const(32, 0x10ffff), a[0].t), m.member(a[0].t, []ival{{0xd800, 0xdfff}}))
			if m.decide(bad) {
				return intVal(-1)
			}
			return intVal(len(m.encodeRune(a[0])))
		},
		"unicode/utf8.ValidRune": func(m *Machine, a []Val) Val {
			if a[0].t == nil {
				return boolVal(utf8.ValidRune(rune(int32(a[0].c))))
			}
			return tval(m.member(a[0].t, []ival{{0, 0xd7ff}, {0xe000, 0x10ffff}}))
		},
		"unicode/utf8.FullRune": func(m *Machine, a []Val) Val {
			b := sliceBytes(a[0])
			if allConcrete(b) {
				return boolVal(utf8.FullRuneInString(concStr(b)))
			}
			return m.fullRune(b)
		},
		"unicode/utf8.FullRuneInString": func(m *Machine, a []Val) Val { return m.fullRune(strBytes(a[0])) },
		"unicode/utf8.ValidString": func(m *Machine, a []Val) Val {
			n := strLen(a[0])
			for i := 0; i < n; {
				r, sz := m.decodeRune(a[0], i)
				if sz == 1 && r.t == nil && r.c == utf8.RuneError {
					return Val{}
				}
				i += sz
			}
			return Val{c: 1}
		},
		"strconv.Itoa": func(m *Machine, a []Val) Val { return m.fmtInt(a[0], tiOf(types.Typ[types.Int]), 'd') },
		"strconv.FormatInt": func(m *Machine, a []Val) Val {
			v := byte('d')
			if a[1].c == 16 {
				v = 'x'
			} else if a[1].c != 10 {
				m.unsupported("FormatInt base")
			}
			return m.fmtInt(a[0], tiOf(types.Typ[types.Int64]), v)
		},
		"strconv.FormatUint": func(m *Machine, a []Val) Val {
			v := byte('d')
			if a[1].c == 16 {
				v = 'x'
			} else if a[1].c != 10 {
				m.unsupported("FormatUint base")
			}
			return m.fmtInt(a[0], tiOf(types.Typ[types.Uint64]), v)
		},
		"unicode.IsSpace":   predIntrin("IsSpace", unicode.IsSpace),
		"unicode.IsControl": predIntrin("IsControl", unicode.IsControl),
		"unicode.IsPrint":   predIntrin("IsPrint", unicode.IsPrint),
		"unicode.IsGraphic": predIntrin("IsGraphic", unicode.IsGraphic),
		"unicode.IsLetter":  predIntrin("IsLetter", unicode.IsLetter),
		"unicode.IsDigit":   predIntrin("IsDigit", unicode.IsDigit),
		"unicode.IsNumber":  predIntrin("IsNumber", unicode.IsNumber),
		"unicode.IsUpper":   predIntrin("IsUpper", unicode.IsUpper),
		"unicode.IsLower":   predIntrin("IsLower", unicode.IsLower),
		"unicode.IsPunct":   predIntrin("IsPunct", unicode.IsPunct),
		"unicode.IsMark":    predIntrin("IsMark", unicode.IsMark),
		"unicode.IsSymbol":  predIntrin("IsSymbol", unicode.IsSymbol),
		"unicode.Is": func(m *Machine, a []Val) Val {
			if a[0].p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			return tval(m.member(m.term(a[1], 32), m.rangeTable(a[0].p.(*Val))))
		},
		"unicode.In": func(m *Machine, a []Val) Val {
			r := m.tb.fls
			for _, t := range sliceBytes(a[1]) {
				r = m.tb.Or(r, m.member(m.term(a[0], 32), m.rangeTable(t.p.(*Val))))
			}
			return tval(r)
		},
		"unicode.ToUpper":    func(m *Machine, a []Val) Val { return m.mapRune("ToUpper", unicode.ToUpper, a[0]) },
		"unicode.ToLower":    func(m *Machine, a []Val) Val { return m.mapRune("ToLower", unicode.ToLower, a[0]) },
		"unicode.SimpleFold": func(m *Machine, a []Val) Val { return m.mapRune("SimpleFold", unicode.SimpleFold, a[0]) },
		"strings.Contains":   func(m *Machine, a []Val) Val { return m.contains(a[0], a[1]) },
		"strings.Index":      func(m *Machine, a []Val) Val { return intVal(m.index(a[0], a[1])) },
		"strings.LastIndex":  func(m *Machine, a []Val) Val { return intVal(m.lastIndex(a[0], a[1])) },
		"bytes.Contains":     func(m *Machine, a []Val) Val { return m.contains(mkStr(sliceBytes(a[0])), mkStr(sliceBytes(a[1]))) },
		"bytes.Index": func(m *Machine, a []Val) Val {
			return intVal(m.index(mkStr(sliceBytes(a[0])), mkStr(sliceBytes(a[1]))))
		},
		"bytes.LastIndex": func(m *Machine, a []Val) Val {
			return intVal(m.lastIndex(mkStr(sliceBytes(a[0])), mkStr(sliceBytes(a[1]))))
		},
		"internal/bytealg.IndexString": func(m *Machine, a []Val) Val {
			return intVal(m.index(a[0], a[1]))
		},
		"strings.ContainsRune": func(m *Machine, a []Val) Val {
			r := m.tb.fls
			for _, x := range m.runes(a[0]) {
				r = m.tb.Or(r, m.eqTerm(x, a[1], 32))
			}
			return tval(r)
		},
		"strings.IndexRune": func(m *Machine, a []Val) Val {
			n := strLen(a[0])
			for i := 0; i < n; {
				x, sz := m.decodeRune(a[0], i)
				if m.decide(m.eqTerm(x, a[1], 32)) {
					return intVal(i)
				}
				i += sz
			}
			return intVal(-1)
		},
		"strings.ContainsAny": func(m *Machine, a []Val) Val {
			r := m.tb.fls
			cs := m.runes(a[1])
			for _, x := range m.runes(a[0]) {
				for _, c := range cs {
					r = m.tb.Or(r, m.eqTerm(x, c, 32))
				}
			}
			return tval(r)
		},
		"strings.IndexAny": func(m *Machine, a []Val) Val {
			cs := m.runes(a[1])
			n := strLen(a[0])
			for i := 0; i < n; {
				x, sz := m.decodeRune(a[0], i)
				r := m.tb.fls
				for _, c := range cs {
					r = m.tb.Or(r, m.eqTerm(x, c, 32))
				}
				if m.decide(r) {
					return intVal(i)
				}
				i += sz
			}
			return intVal(-1)
		},
		"strings.IndexByte": func(m *Machine, a []Val) Val {
			for i := 0; i < strLen(a[0]); i++ {
				if m.decide(m.eqTerm(strByte(a[0], i), a[1], 8)) {
					return intVal(i)
				}
			}
			return intVal(-1)
		},
		"strings.EqualFold": func(m *Machine, a []Val) Val { return m.equalFold(a[0], a[1]) },
		"strings.ToUpper":   func(m *Machine, a []Val) Val { return m.mapString(a[0], "ToUpper", unicode.ToUpper) },
		"strings.ToLower":   func(m *Machine, a []Val) Val { return m.mapString(a[0], "ToLower", unicode.ToLower) },
		"strings.Count": func(m *Machine, a []Val) Val {
			s, sub := a[0], a[1]
			if strLen(sub) == 0 {
				return intVal(len(m.runes(s)) + 1)
			}
			n := 0
			for {
				i := m.index(s, sub)
				if i < 0 {
					return intVal(n)
				}
				n++
				s = strSlice(s, i+strLen(sub), strLen(s))
			}
		},
		"internal/bytealg.IndexByteString": func(m *Machine, a []Val) Val {
			for i := 0; i < strLen(a[0]); i++ {
				if m.decide(m.eqTerm(strByte(a[0], i), a[1], 8)) {
					return intVal(i)
				}
			}
			return intVal(-1)
		},
		"internal/bytealg.IndexByte": func(m *Machine, a []Val) Val {
			for i, b := range sliceBytes(a[0]) {
				if m.decide(m.eqTerm(b, a[1], 8)) {
					return intVal(i)
				}
			}
			return intVal(-1)
		},
		"internal/bytealg.CountString": func(m *Machine, a []Val) Val {
			n := 0
			for i := 0; i < strLen(a[0]); i++ {
				if m.decide(m.eqTerm(strByte(a[0], i), a[1], 8)) {
					n++
				}
			}
			return intVal(n)
		},
		"internal/bytealg.MakeNoZero": func(m *Machine, a []Val) Val {
			n := m.concInt(a[0], 64, true)
			return Val{p: make([]Val, n, roundCap(n, 1))}
		},
		"internal/bytealg.Equal": func(m *Machine, a []Val) Val {
			return m.strEq(mkStr(sliceBytes(a[0])), mkStr(sliceBytes(a[1])))
		},
		"bytes.Equal": func(m *Machine, a []Val) Val {
			return m.strEq(mkStr(sliceBytes(a[0])), mkStr(sliceBytes(a[1])))
		},
		"internal/stringslite.Clone": id0,
		"strings.Clone":              id0,
		"internal/abi.NoEscape":      id0,
		"internal/abi.Escape":        id0,
		"internal/race.Acquire":      nop, "internal/race.Release": nop, "internal/race.Enable": nop, "internal/race.Disable": nop,
		"internal/race.ReadRange": nop, "internal/race.WriteRange": nop,
		"runtime.KeepAlive": nop, "runtime.Gosched": nop, "runtime.GC": nop, "runtime.SetFinalizer": nop,
		"regexp.MustCompile":          nop,
		"internal/reflectlite.TypeOf": nop,
		"os.Getenv":                   func(m *Machine, a []Val) Val { return goStr(m.env[concreteStr(m, a[0])]) },
		"os.LookupEnv": func(m *Machine, a []Val) Val {
			v, ok := m.env[concreteStr(m, a[0])]
			return tup(goStr(v), boolVal(ok))
		},
		"(*sync.Mutex).Lock": func(m *Machine, a []Val) Val {
			if a[0].p == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			c := leaf(a[0].p.(*Val))
			if c.c != 0 {
				panic(blockSig{"sync.Mutex.Lock"})
			}
			m.set(c, Val{c: 1})
			m.nblocked = 0
			return Val{}
		},
		"(*sync.Mutex).TryLock": func(m *Machine, a []Val) Val {
			c := leaf(a[0].p.(*Val))
			if c.c != 0 {
				return Val{}
			}
			m.set(c, Val{c: 1})
			return Val{c: 1}
		},
		"(*sync.Mutex).Unlock": func(m *Machine, a []Val) Val {
			c := leaf(a[0].p.(*Val))
			if c.c == 0 {
				panic(pathEnd{"violation", "fatal error: sync: unlock of unlocked mutex"})
			}
			m.set(c, Val{})
			m.nblocked = 0
			return Val{}
		},
		"(*sync.RWMutex).Lock":    rwLock(rwWriter, 0),
		"(*sync.RWMutex).RLock":   rwLock(1, rwWriter-1),
		"(*sync.RWMutex).Unlock":  rwUnlock(rwWriter),
		"(*sync.RWMutex).RUnlock": rwUnlock(1),
		"(*sync.WaitGroup).Add":   wgAdd,
		"(*sync.WaitGroup).Done": func(m *Machine, a []Val) Val {
			return wgAdd(m, []Val{a[0], {c: ^uint64(0)}})
		},
		"(*sync.WaitGroup).Wait": func(m *Machine, a []Val) Val {
			if leaf(a[0].p.(*Val)).c != 0 {
				panic(blockSig{"sync.WaitGroup.Wait"})
			}
			m.nblocked = 0
			return Val{}
		},
		"(*sync/atomic.Value).Load":      atomicLoad,
		"(*sync/atomic.Value).Store":     atomicStore,
		"(*sync/atomic.Pointer[T]).Load": ptrLoad, "(*sync/atomic.Pointer[T]).Store": ptrStore,
		"(*sync/atomic.Bool).Swap": atomicSwap, "(*sync/atomic.Int32).Swap": atomicSwap, "(*sync/atomic.Int64).Swap": atomicSwap,
		"sync/atomic.LoadInt64": atomicLoad, "sync/atomic.LoadUint64": atomicLoad,
		"sync/atomic.StoreInt32": atomicStore, "sync/atomic.StoreInt64": atomicStore, "sync/atomic.StoreUint64": atomicStore,
		"sync/atomic.CompareAndSwapInt64": atomicCas, "sync/atomic.CompareAndSwapUint64": atomicCas,
		"sync/atomic.AddInt64": atomicAdd(64), "sync/atomic.AddUint32": atomicAdd(32), "sync/atomic.AddUint64": atomicAdd(64),
		"slices.overlaps": func(m *Machine, a []Val) Val {
			x, y := sliceBytes(a[0]), sliceBytes(a[1])
			if len(x) == 0 || len(y) == 0 {
				return Val{}
			}
			at := func(v *Val) uintptr { return uintptr(unsafe.Pointer(v)) }
			return boolVal(at(&x[0]) <= at(&y[len(y)-1]) && at(&y[0]) <= at(&x[len(x)-1]))
		},
		"maps.clone": func(m *Machine, a []Val) Val {
			ifc, ok := a[0].p.(*Ifc)
			if !ok {
				return a[0]
			}
			mp, _ := ifc.v.p.(*Map)
			if mp == nil {
				return a[0]
			}
			c := &Map{ents: append([]MapEnt(nil), mp.ents...), symK: mp.symK}
			for i := range c.ents {
				c.ents[i].k = copyVal(ifc.ti.key, c.ents[i].k)
				c.ents[i].v = copyVal(ifc.ti.elem, c.ents[i].v)
			}
			return Val{p: &Ifc{ti: ifc.ti, v: Val{p: c}}}
		},
		"(*sync/atomic.Bool).Load":  func(m *Machine, a []Val) Val { return *leaf(a[0].p.(*Val)) },
		"(*sync/atomic.Bool).Store": atomicStore,
		"(*sync/atomic.Int32).Load": atomicLoad, "(*sync/atomic.Int32).Store": atomicStore,
		"(*sync/atomic.Int64).Load": atomicLoad, "(*sync/atomic.Int64).Store": atomicStore,
		"(*sync/atomic.Uint32).Load": atomicLoad, "(*sync/atomic.Uint32).Store": atomicStore,
		"(*sync/atomic.Uint64).Load": atomicLoad, "(*sync/atomic.Uint64).Store": atomicStore,
		"(*sync/atomic.Int32).Add": atomicAdd(32), "(*sync/atomic.Int64).Add": atomicAdd(64),
		"(*sync/atomic.Uint32).Add": atomicAdd(32), "(*sync/atomic.Uint64).Add": atomicAdd(64),
		"(*sync/atomic.Int32).CompareAndSwap": atomicCas, "(*sync/atomic.Uint32).CompareAndSwap": atomicCas,
		"(*sync/atomic.Int64).CompareAndSwap": atomicCas, "(*sync/atomic.Uint64).CompareAndSwap": atomicCas,
		"(*sync/atomic.Bool).CompareAndSwap": atomicCas,
		"sync/atomic.LoadInt32":              atomicLoad, "sync/atomic.LoadUint32": atomicLoad, "sync/atomic.StoreUint32": atomicStore,
		"sync/atomic.CompareAndSwapInt32": atomicCas, "sync/atomic.CompareAndSwapUint32": atomicCas, "sync/atomic.AddInt32": atomicAdd(32),
		// binary search of an interval table in go-runewidth: same meaning,
		// as one membership term
		"github.com/mattn/go-runewidth.inTable": func(m *Machine, a []Val) Val {
			s := sliceBytes(a[1])
			if len(s) == 0 {
				return Val{}
			}
			var iv []ival
			key := &s[0]
			if v, ok := predCache.Load(key); ok {
				iv = v.([]ival)
			} else {
				for _, e := range s {
					x := e.p.(*Agg).e
					iv = append(iv, ival{uint32(x[0].c), uint32(x[1].c)})
				}
				predCache.Store(key, iv)
			}
			return tval(m.member(m.term(a[0], 32), iv))
		},
	}

	symIntrinsics = map[string]Intrin{
		"symInt": func(m *Machine, a []Val) Val {
			lo, hi := int64(a[1].c), int64(a[2].c)
			if lo > hi {
				panic(pathEnd{"assume", ""})
			}
			if lo == hi {
				m.inputs = append(m.inputs, Input{Name: concreteStr(m, a[0]), Kind: "int", c: lo})
				return Val{c: uint64(lo)}
			}
			t := m.newVar(concreteStr(m, a[0]), 64, lo, hi)
			m.inputs = append(m.inputs, Input{Name: concreteStr(m, a[0]), Kind: "int", t: t, w: 64, signed: true})
			return tval(t)
		},
		"symRune": func(m *Machine, a []Val) Val {
			lo, hi := sx(a[1].c, 32), sx(a[2].c, 32)
			if lo == hi {
				m.inputs = append(m.inputs, Input{Name: concreteStr(m, a[0]), Kind: "rune", c: lo})
				return Val{c: uint64(lo) & maskW(32)}
			}
			t := m.newVar(concreteStr(m, a[0]), 32, lo, hi)
			m.inputs = append(m.inputs, Input{Name: concreteStr(m, a[0]), Kind: "rune", t: t, w: 32, signed: true})
			return tval(t)
		},
		"symByte": func(m *Machine, a []Val) Val {
			t := m.newVar(concreteStr(m, a[0]), 8, int64(a[1].c), int64(a[2].c))
			m.inputs = append(m.inputs, Input{Name: concreteStr(m, a[0]), Kind: "byte", t: t, w: 8})
			return tval(t)
		},
		"symBool": func(m *Machine, a []Val) Val {
			t := m.newVar(concreteStr(m, a[0]), 0, 0, 1)
			m.inputs = append(m.inputs, Input{Name: concreteStr(m, a[0]), Kind: "bool", t: t, w: 1})
			return tval(t)
		},
		"symChoose": func(m *Machine, a []Val) Val {
			n := m.concInt(a[1], 64, true)
			if n <= 0 {
				panic(pathEnd{"assume", ""})
			}
			k := 0
			if n > 1 {
				k = m.chooseVar(m.newVar(concreteStr(m, a[0]), 16, 0, int64(n-1)), n)
			}
			m.inputs = append(m.inputs, Input{Name: concreteStr(m, a[0]), Kind: "choose", c: int64(k)})
			return intVal(k)
		},
		"symConcrete": func(m *Machine, a []Val) Val { return Val{c: uint64(m.concInt(a[0], 64, true))} },
		"symAssume": func(m *Machine, a []Val) Val {
			m.assume(m.bterm(a[0]))
			return Val{}
		},
		"symAssert": func(m *Machine, a []Val) Val {
			if m.ex != nil {
				m.ex.nAssert.Add(1)
			}
			c := m.bterm(a[0])
			if c.isConst() {
				if c.k == 0 {
					panic(pathEnd{"violation", concreteStr(m, a[1])})
				}
				if m.ex != nil {
					m.ex.nFolded.Add(1)
				}
				return Val{}
			}
			// the solver decides: can the assertion fail here?
			if !m.decide(c) {
				panic(pathEnd{"violation", concreteStr(m, a[1])})
			}
			return Val{}
		},
		"symFail": func(m *Machine, a []Val) Val {
			panic(pathEnd{"violation", concreteStr(m, a[0])})
		},
		"symReach": func(m *Machine, a []Val) Val {
			if m.reach == nil {
				m.reach = map[string]bool{}
			}
			m.reach[concreteStr(m, a[0])] = true
			return Val{}
		},
		"symTier":     func(m *Machine, a []Val) Val { return intVal(m.tier) },
		"symSymbolic": func(m *Machine, a []Val) Val { return Val{c: 1} },
		"symParam": func(m *Machine, a []Val) Val {
			if v, ok := m.params[concreteStr(m, a[0])]; ok {
				return intVal(v)
			}
			return a[1]
		},
		"symObserveStr": func(m *Machine, a []Val) Val {
			m.obs = append(m.obs, obsEnt{label: concreteStr(m, a[0]), v: a[1], kind: KString})
			return Val{}
		},
		"symObserveInt": func(m *Machine, a []Val) Val {
			m.obs = append(m.obs, obsEnt{label: concreteStr(m, a[0]), v: a[1], kind: KInt, w: 64, signed: true})
			return Val{}
		},
		// the length of the slice in the interface, and two elements exchanged
		"symLen": func(m *Machine, a []Val) Val {
			ifc, ok := a[0].p.(*Ifc)
			if !ok || ifc.ti.k != KSlice {
				m.unsupported("not a slice")
			}
			return intVal(len(sliceBytes(ifc.v)))
		},
		"symSwap": func(m *Machine, a []Val) Val {
			ifc := a[0].p.(*Ifc)
			s := sliceBytes(ifc.v)
			i, j := int(a[1].c), int(a[2].c)
			x, y := copyVal(ifc.ti.elem, s[i]), copyVal(ifc.ti.elem, s[j])
			m.store(ifc.ti.elem, &s[i], y)
			m.store(ifc.ti.elem, &s[j], x)
			return Val{}
		},
		// errors.As for one error of the chain
		"symAs": func(m *Machine, a []Val) Val {
			e, ok1 := a[0].p.(*Ifc)
			to, ok2 := a[1].p.(*Ifc)
			if !ok1 || !ok2 || to.ti.k != KPtr {
				m.unsupported("errors.As")
			}
			el := to.ti.elem
			if el.k == KIface {
				m.P.mu.Lock()
				ok := m.P.implements(e.ti, el)
				m.P.mu.Unlock()
				if ok {
					m.store(el, to.v.p.(*Val), a[0])
				}
				return boolVal(ok)
			}
			if e.ti != el {
				return Val{}
			}
			m.store(el, to.v.p.(*Val), copyVal(el, e.v))
			return Val{c: 1}
		},
		"symFmtSharp": func(m *Machine, a []Val) Val {
			switch a[0].c {
			case 'x':
				return strConcat(goStr("0x"), a[1])
			case 'X':
				return strConcat(goStr("0X"), a[1])
			}
			m.unsupported("format flag #")
			return Val{}
		},
		"symFmt1": func(m *Machine, a []Val) Val { return m.fmt1(byte(a[0].c), a[1]) },
		"symYield": func(m *Machine, a []Val) Val {
			m.yield()
			return Val{}
		},
		"symLog": func(m *Machine, a []Val) Val {
			if debugLog {
				fmt.Println("LOG", m.showStr(a[0]))
			}
			return Val{}
		},
		"symIntEq": func(m *Machine, a []Val) Val { return Val{} },
	}
}

func (m *Machine) showStr(v Val) string {
	b := strBytes(v)
	x := make([]byte, len(b))
	for i := range b {
		x[i] = byte(b[i].c)
		if b[i].t != nil {
			x[i] = byte(m.tb.eval(b[i].t, m.model))
		}
	}
	return strconv.Quote(string(x))
}

func (m *Machine) fullRune(b []Val) Val {
	if allConcrete(b) {
		return boolVal(utf8.FullRuneInString(concStr(b)))
	}
	n := len(b)
	if n == 0 {
		return Val{}
	}
	tb := m.tb
	t0 := m.term(b[0], 8)
	c8 := func(x uint64) *Term { return tb.Const(8, x) }
	need := 1
	if m.decide(tb.Ule(c8(0xc2), t0)) && m.decide(tb.Ule(t0, c8(0xf4))) {
		need = 2
		if m.decide(tb.Ule(c8(0xe0), t0)) {
			need = 3
			if m.decide(tb.Ule(c8(0xf0), t0)) {
				need = 4
			}
		}
	}
	if n >= need {
		return Val{c: 1}
	}
	// incomplete: full only if an invalid continuation already shows an error
	if n > 1 {
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.decide(tb.Eq(t0, c8(0xe0))) {
			lo = 0xa0
		} else if m.decide(tb.Eq(t0, c8(0xed))) {
			hi = 0x9f
		} else if m.decide(tb.Eq(t0, c8(0xf0))) {
			lo = 0x90
		} else if m.decide(tb.Eq(t0, c8(0xf4))) {
			hi = 0x8f
		}
		t := m.term(b[1], 8)
		if !m.decide(tb.And(tb.Ule(c8(lo), t), tb.Ule(t, c8(hi)))) {
			return Val{c: 1}
		}
	}
	if n > 2 {
		t := m.term(b[2], 8)
		if !m.decide(tb.And(tb.Ule(c8(0x80), t), tb.Ule(t, c8(0xbf)))) {
			return Val{c: 1}
		}
	}
	return Val{}
}

// yield lets another goroutine run (all schedules are explored).
// yield lets the other goroutines run until they are blocked.
func (m *Machine) yield() {
	m.nblocked = 0
	for i := 1; i < len(m.gs); i++ {
		k := (m.cur + i) % len(m.gs)
		if !m.gs[k].done {
			m.cur, m.g = k, m.gs[k]
			return
		}
	}
}
