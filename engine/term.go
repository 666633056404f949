package main

// Hash-consed bit-vector / boolean terms with local simplification.
// w == 0 means Bool; otherwise a bit-vector of w bits (8, 16, 32, 64 or, for
// intermediate results, any width up to 64).

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OEnc // byte k&0xff of the UTF-8 encoding, of length k>>8, of rune a (32 bit)
)

const maxVarWords = 6

type vset [maxVarWords]uint64

func (v *vset) or(o *vset) {
	for i := range v {
		v[i] |= o[i]
	}
}
func (v *vset) intersects(o *vset) bool {
	for i := range v {
		if v[i]&o[i] != 0 {
			return true
		}
	}
	return false
}
func (v *vset) empty() bool { return *v == vset{} }

type Term struct {
	op       Op
	w        uint8
	a, b, c  *Term
	k        uint64
	id       int32
	vs       vset
	lo, hi   uint64 // unsigned range
	slo, shi int64  // signed range
	big      int32  // rough size
	nz       uint64 // bits that may be set
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type VarInfo struct {
	name   string
	w      uint8
	lo, hi int64 // signed interpretation of the domain (values always fit)
	t      *Term
}

type varKey struct {
	name   string
	w      uint8
	lo, hi int64
	seq    int
}

type TB struct {
	tab      map[tkey]*Term
	n        int32
	vars     []*VarInfo
	varTab   map[varKey]*Term
	tru, fls *Term

	evGen []int32
	evVal []uint64
	gen   int32
}

func newTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, varTab: map[varKey]*Term{}}
	tb.tru = tb.mk(OConst, 0, nil, nil, nil, 1)
	tb.fls = tb.mk(OConst, 0, nil, nil, nil, 0)
	return tb
}

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 || w == 0 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func smin(w uint8) int64 { return sx(uint64(1)<<(w-1), w) }
func smax(w uint8) int64 { return int64(maskW(w) >> 1) }

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tb *TB) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := tb.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: tb.n, big: 1}
	tb.n++
	for _, x := range [...]*Term{a, b, c} {
		if x != nil {
			t.vs.or(&x.vs)
			if t.big < 1<<28 {
				t.big += x.big
			}
		}
	}
	tb.ranges(t)
	t.nz = t.nzMask()
	tb.tab[key] = t
	tb.evGen = append(tb.evGen, 0)
	tb.evVal = append(tb.evVal, 0)
	return t
}

// nzMask over-approximates the set of bits that may be one.
func (t *Term) nzMask() uint64 {
	m := maskW(t.w)
	if t.op != OConst && t.hi < m {
		m = uint64(1)<<bits.Len64(t.hi) - 1
		if t.hi == 0 {
			m = 0
		}
	}
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return m & t.a.nz
	case OTrunc:
		return m & t.a.nz
	case OBAnd:
		return m & t.a.nz & t.b.nz
	case OBOr, OBXor:
		return m & (t.a.nz | t.b.nz)
	case OIte:
		return m & (t.b.nz | t.c.nz)
	case OShl:
		if t.b.isConst() && t.b.k < 64 {
			return m & (t.a.nz << t.b.k)
		}
	case OLshr:
		if t.b.isConst() && t.b.k < 64 {
			return m & (t.a.nz >> t.b.k)
		}
	}
	return m
}

func addOvf(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0)
}

func (tb *TB) ranges(t *Term) {
	w := t.w
	if w == 0 {
		t.lo, t.hi = 0, 1
		return
	}
	m := maskW(w)
	t.lo, t.hi = 0, m
	t.slo, t.shi = smin(w), smax(w)
	a, b := t.a, t.b
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
		t.slo, t.shi = sx(t.k, w), sx(t.k, w)
		return
	case OVar:
		return // set by caller
	case OIte:
		b, c := t.b, t.c
		t.lo, t.hi = min(b.lo, c.lo), max(b.hi, c.hi)
		t.slo, t.shi = min(b.slo, c.slo), max(b.shi, c.shi)
		return
	case OZext:
		t.lo, t.hi = a.lo, a.hi
	case OSext:
		t.slo, t.shi = a.slo, a.shi
	case OTrunc:
		if a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	case OAdd:
		if s := a.hi + b.hi; s >= a.hi && s <= m {
			t.lo, t.hi = a.lo+b.lo, s
		}
		l, o1 := addOvf(a.slo, b.slo)
		h, o2 := addOvf(a.shi, b.shi)
		if !o1 && !o2 && l >= smin(w) && h <= smax(w) {
			t.slo, t.shi = l, h
		}
	case OSub:
		if a.lo >= b.hi {
			t.lo, t.hi = a.lo-b.hi, a.hi-b.lo
		}
		if b.shi != smin(w) && b.slo != smin(w) {
			l, o1 := addOvf(a.slo, -b.shi)
			h, o2 := addOvf(a.shi, -b.slo)
			if !o1 && !o2 && l >= smin(w) && h <= smax(w) {
				t.slo, t.shi = l, h
			}
		}
	case OMul:
		if hi, lo := bits.Mul64(a.hi, b.hi); hi == 0 && lo <= m {
			t.lo, t.hi = a.lo*b.lo, lo
		}
	case OUDiv:
		if b.lo > 0 {
			t.lo, t.hi = a.lo/b.hi, a.hi/b.lo
		}
	case OURem:
		if b.lo > 0 {
			t.hi = min(b.hi-1, a.hi)
		}
	case OBAnd:
		t.hi = min(a.hi, b.hi)
	case OBOr, OBXor:
		n := bits.Len64(a.hi | b.hi)
		if n < 64 {
			t.hi = min(m, (uint64(1)<<n)-1)
		}
		if t.op == OBOr {
			t.lo = max(a.lo, b.lo)
		}
	case OLshr:
		if b.op == OConst {
			if b.k >= uint64(w) {
				t.hi = 0
			} else {
				t.lo, t.hi = a.lo>>b.k, a.hi>>b.k
			}
		} else {
			t.hi = a.hi
		}
	case OShl:
		if b.op == OConst && b.k < 64 && bits.Len64(a.hi)+int(b.k) <= int(w) {
			t.lo, t.hi = a.lo<<b.k, a.hi<<b.k
		}
	case OEnc:
		L, i := t.k>>8, t.k&0xff
		switch {
		case L == 1:
			t.lo, t.hi = 0, 0x7f
			if a.lo <= 0x7f {
				t.lo = a.lo
			}
			if a.hi < 0x7f {
				t.hi = a.hi
			}
		case i > 0:
			t.lo, t.hi = 0x80, 0xbf
		case L == 2:
			t.lo, t.hi = 0xc2, 0xdf
		case L == 3:
			t.lo, t.hi = 0xe0, 0xef
		default:
			t.lo, t.hi = 0xf0, 0xf4
		}
	}
	tb.tighten(t)
}

// tighten propagates between the signed and the unsigned range.
func (tb *TB) tighten(t *Term) {
	w := t.w
	half := uint64(smax(w))
	if t.hi <= half {
		t.slo, t.shi = max(t.slo, int64(t.lo)), min(t.shi, int64(t.hi))
	}
	if t.slo >= 0 {
		t.lo, t.hi = max(t.lo, uint64(t.slo)), min(t.hi, uint64(t.shi))
	}
}

func (tb *TB) Const(w uint8, v uint64) *Term {
	return tb.mk(OConst, w, nil, nil, nil, v&maskW(w))
}
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.tru
	}
	return tb.fls
}

// Var returns the variable with the given name and domain (signed bounds);
// seq makes it distinct within a path.
func (tb *TB) Var(name string, seq int, w uint8, lo, hi int64) *Term {
	key := varKey{name, w, lo, hi, seq}
	if t, ok := tb.varTab[key]; ok {
		return t
	}
	id := len(tb.vars)
	t := tb.mk(OVar, w, nil, nil, nil, uint64(id))
	if id < 64*maxVarWords {
		t.vs[id/64] |= 1 << (id % 64)
	} else {
		// share bits: only makes slicing coarser
		h := id % (64 * maxVarWords)
		t.vs[h/64] |= 1 << (h % 64)
	}
	if w > 0 {
		t.slo, t.shi = max(lo, smin(w)), min(hi, smax(w))
		if lo >= 0 {
			t.lo, t.hi = uint64(lo), uint64(hi)&maskW(w)
			if hi > smax(w) { // unsigned domain beyond the signed range
				t.slo, t.shi = smin(w), smax(w)
			}
		}
	}
	vi := &VarInfo{name: fmt.Sprintf("v%d_%s", id, sanitize(name)), w: w, lo: lo, hi: hi, t: t}
	tb.vars = append(tb.vars, vi)
	tb.varTab[key] = t
	return t
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func (t *Term) isConst() bool { return t.op == OConst }

func (tb *TB) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return tb.Bool(a.k == 0)
	case ONot:
		return a.a
	case OUlt:
		return tb.mk(OUle, 0, a.b, a.a, nil, 0)
	case OUle:
		return tb.mk(OUlt, 0, a.b, a.a, nil, 0)
	case OSlt:
		return tb.mk(OSle, 0, a.b, a.a, nil, 0)
	case OSle:
		return tb.mk(OSlt, 0, a.b, a.a, nil, 0)
	}
	return tb.mk(ONot, 0, a, nil, nil, 0)
}

func (tb *TB) And(a, b *Term) *Term {
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OAnd, 0, a, b, nil, 0)
}

func (tb *TB) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tb.Not(a) == b {
		return tb.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk(OOr, 0, a, b, nil, 0)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.k != 0 {
				return tb.Or(c, b)
			}
			return tb.And(tb.Not(c), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return tb.Or(tb.Not(c), a)
			}
			return tb.And(c, a)
		}
		return tb.Or(tb.And(c, a), tb.And(tb.Not(c), b))
	}
	if c.op == ONot {
		return tb.Ite(c.a, b, a)
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return tb.mk(OIte, a.w, c, a, b, 0)
}

const cmpDepth = 40

func (tb *TB) Eq(a, b *Term) *Term { return tb.eq(a, b, cmpDepth) }

func (tb *TB) eq(a, b *Term, depth int) *Term {
	if a == b {
		return tb.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tb.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return tb.Not(a)
		}
		return tb.Or(tb.And(a, b), tb.And(tb.Not(a), tb.Not(b)))
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.hi < b.lo || b.hi < a.lo || a.shi < b.slo || b.shi < a.slo {
		return tb.fls
	}
	if b.isConst() {
		switch a.op {
		case OZext:
			if b.k > maskW(a.a.w) {
				return tb.fls
			}
			return tb.eq(a.a, tb.Const(a.a.w, b.k), depth)
		case OSext:
			if uint64(sx(b.k&maskW(a.a.w), a.a.w))&maskW(a.w) != b.k {
				return tb.fls
			}
			return tb.eq(a.a, tb.Const(a.a.w, b.k), depth)
		case OAdd:
			if a.b.isConst() {
				return tb.eq(a.a, tb.Const(a.w, b.k-a.b.k), depth)
			}
		case OIte:
			if depth > 0 {
				x, y := tb.eq(a.b, b, depth-1), tb.eq(a.c, b, depth-1)
				if x.isConst() || y.isConst() {
					return tb.Ite(a.a, x, y)
				}
			}
		case OEnc:
			if a.k == 1<<8 {
				return tb.eq(a.a, tb.Const(32, b.k), depth)
			}
		case OTrunc:
			if a.a.hi <= maskW(a.w) {
				return tb.eq(a.a, tb.Const(a.a.w, b.k), depth)
			}
		}
	} else {
		if a.op == b.op && a.a != nil && b.a != nil && (a.op == OZext || a.op == OSext) && a.a.w == b.a.w {
			return tb.eq(a.a, b.a, depth)
		}
		if a.op == OAdd && b.op == OAdd && a.b == b.b {
			return tb.eq(a.a, b.a, depth)
		}
		if a.op == OEnc && b.op == OEnc && a.k == 1<<8 && b.k == 1<<8 {
			return tb.eq(a.a, b.a, depth)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tb.mk(OEq, 0, a, b, nil, 0)
}

func (tb *TB) Ult(a, b *Term) *Term { return tb.cmp(OUlt, a, b, cmpDepth) }
func (tb *TB) Ule(a, b *Term) *Term { return tb.cmp(OUle, a, b, cmpDepth) }
func (tb *TB) Slt(a, b *Term) *Term { return tb.cmp(OSlt, a, b, cmpDepth) }
func (tb *TB) Sle(a, b *Term) *Term { return tb.cmp(OSle, a, b, cmpDepth) }

func (tb *TB) cmp(op Op, a, b *Term, depth int) *Term {
	if a.w != b.w || a.w == 0 {
		panic(fmt.Sprintf("cmp width %d %d", a.w, b.w))
	}
	if a == b {
		return tb.Bool(op == OUle || op == OSle)
	}
	switch op {
	case OUlt:
		if a.hi < b.lo {
			return tb.tru
		}
		if a.lo >= b.hi {
			return tb.fls
		}
	case OUle:
		if a.hi <= b.lo {
			return tb.tru
		}
		if a.lo > b.hi {
			return tb.fls
		}
	case OSlt:
		if a.shi < b.slo {
			return tb.tru
		}
		if a.slo >= b.shi {
			return tb.fls
		}
	case OSle:
		if a.shi <= b.slo {
			return tb.tru
		}
		if a.slo > b.shi {
			return tb.fls
		}
	}
	// normalise signed comparison of non-negative values to unsigned
	if (op == OSlt || op == OSle) && a.slo >= 0 && b.slo >= 0 {
		if op == OSlt {
			return tb.cmp(OUlt, a, b, depth)
		}
		return tb.cmp(OUle, a, b, depth)
	}
	unsigned := op == OUlt || op == OUle
	// push through extensions
	if a.op == b.op && a.op == OZext && a.a.w == b.a.w {
		u := OUlt
		if op == OUle || op == OSle {
			u = OUle
		}
		return tb.cmp(u, a.a, b.a, depth)
	}
	if a.op == b.op && a.op == OSext && a.a.w == b.a.w && !unsigned {
		return tb.cmp(op, a.a, b.a, depth)
	}
	ext := func(x, k *Term) (*Term, *Term, bool) {
		if !k.isConst() {
			return nil, nil, false
		}
		if x.op == OZext && k.k <= maskW(x.a.w) && unsigned {
			return x.a, tb.Const(x.a.w, k.k), true
		}
		if x.op == OSext {
			v := sx(k.k, k.w)
			if v >= smin(x.a.w) && v <= smax(x.a.w) && (!unsigned || x.slo >= 0 && v >= 0) {
				return x.a, tb.Const(x.a.w, uint64(v)), true
			}
		}
		return nil, nil, false
	}
	if x, k, ok := ext(a, b); ok {
		return tb.cmp(op, x, k, depth)
	}
	if x, k, ok := ext(b, a); ok {
		return tb.cmp(op, k, x, depth)
	}
	if depth > 0 {
		if b.isConst() && a.op == OIte {
			x, y := tb.cmp(op, a.b, b, depth-1), tb.cmp(op, a.c, b, depth-1)
			if x.isConst() || y.isConst() {
				return tb.Ite(a.a, x, y)
			}
		}
		if a.isConst() && b.op == OIte {
			x, y := tb.cmp(op, a, b.b, depth-1), tb.cmp(op, a, b.c, depth-1)
			if x.isConst() || y.isConst() {
				return tb.Ite(b.a, x, y)
			}
		}
	}
	return tb.mk(op, 0, a, b, nil, 0)
}

func (tb *TB) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.k)
	}
	if a.op == OZext {
		a = a.a
	}
	return tb.mk(OZext, w, a, nil, nil, 0)
}

func (tb *TB) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, uint64(sx(a.k, a.w)))
	}
	if a.slo >= 0 {
		return tb.Zext(a, w)
	}
	if a.op == OSext {
		a = a.a
	}
	return tb.mk(OSext, w, a, nil, nil, 0)
}

func (tb *TB) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tb.Const(w, a.k)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tb.Trunc(a.a, w)
		}
		if a.op == OZext {
			return tb.Zext(a.a, w)
		}
		return tb.Sext(a.a, w)
	case OTrunc:
		return tb.Trunc(a.a, w)
	case OBAnd:
		if a.b.isConst() && a.b.k&maskW(w) == maskW(w) {
			return tb.Trunc(a.a, w)
		}
	case OIte:
		if a.b.isConst() || a.c.isConst() {
			return tb.Ite(a.a, tb.Trunc(a.b, w), tb.Trunc(a.c, w))
		}
	}
	return tb.mk(OTrunc, w, a, nil, nil, 0)
}

func (tb *TB) Enc(r *Term, L, i int) *Term {
	return tb.mk(OEnc, 8, r, nil, nil, uint64(L)<<8|uint64(i))
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := maskW(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1, true
			}
			return m, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

// Bin builds a binary bit-vector operation (operands of equal width).
func (tb *TB) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w || a.w == 0 {
		panic(fmt.Sprintf("bin %d width %d %d", op, a.w, b.w))
	}
	w := a.w
	if a.isConst() && b.isConst() {
		v, _ := foldBin(op, w, a.k, b.k)
		return tb.Const(w, v)
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.isConst() {
				return tb.Bin(OAdd, a.a, tb.Const(w, a.b.k+b.k))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return tb.Ite(a.a, tb.Bin(OAdd, a.b, b), tb.Bin(OAdd, a.c, b))
			}
		} else if a.op == OAdd && a.b.isConst() {
			return tb.Bin(OAdd, tb.Bin(OAdd, a.a, b), a.b)
		} else if b.op == OAdd && b.b.isConst() {
			return tb.Bin(OAdd, tb.Bin(OAdd, a, b.a), b.b)
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return tb.Const(w, 0)
		}
		if b.isConst() {
			return tb.Bin(OAdd, a, tb.Const(w, -b.k))
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if a.op == OAdd && a.b.isConst() {
			return tb.Bin(OAdd, tb.Bin(OSub, a.a, b), a.b)
		}
		if b.op == OAdd && b.b.isConst() {
			return tb.Bin(OAdd, tb.Bin(OSub, a, b.a), tb.Const(w, -b.b.k))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.k == 0 {
				return b
			}
			if b.k == maskW(w) {
				return a
			}
			if a.nz&^b.k == 0 {
				return a
			}
			if a.nz&b.k == 0 {
				return tb.Const(w, 0)
			}
			if a.op == OBOr {
				return tb.Bin(OBOr, tb.Bin(OBAnd, a.a, b), tb.Bin(OBAnd, a.b, b))
			}
			if a.op == OBAnd && a.b.isConst() {
				return tb.Bin(OBAnd, a.a, tb.Const(w, a.b.k&b.k))
			}
			if a.op == OIte && a.b.isConst() && a.c.isConst() {
				return tb.Ite(a.a, tb.Bin(OBAnd, a.b, b), tb.Bin(OBAnd, a.c, b))
			}
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.k == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return tb.Const(w, 0)
		}
		if b.isConst() && a.op == OIte && a.b.isConst() && a.c.isConst() {
			return tb.Ite(a.a, tb.Bin(op, a.b, b), tb.Bin(op, a.c, b))
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.k == 0 {
			return a
		}
		if op == OAshr && a.slo >= 0 {
			return tb.Bin(OLshr, a, b)
		}
		if op == OLshr && b.isConst() {
			if b.k >= uint64(w) || a.nz>>b.k == 0 {
				return tb.Const(w, 0)
			}
			switch {
			case a.op == OBOr:
				return tb.Bin(OBOr, tb.Bin(OLshr, a.a, b), tb.Bin(OLshr, a.b, b))
			case a.op == OLshr && a.b.isConst():
				return tb.Bin(OLshr, a.a, tb.Const(w, a.b.k+b.k))
			case a.op == OShl && a.b.isConst() && a.b.k < 64 && (a.a.nz<<a.b.k)&maskW(w)>>a.b.k == a.a.nz:
				if a.b.k >= b.k {
					return tb.Bin(OShl, a.a, tb.Const(w, a.b.k-b.k))
				}
				return tb.Bin(OLshr, a.a, tb.Const(w, b.k-a.b.k))
			}
		}
		if op == OShl && b.isConst() && a.op == OShl && a.b.isConst() && a.b.k+b.k < uint64(w) {
			return tb.Bin(OShl, a.a, tb.Const(w, a.b.k+b.k))
		}
	case OUDiv, OURem:
		// divide in the smallest sufficient width
		if h := max(a.hi, b.hi); b.isConst() && b.k > 1 && h < 1<<16 && w > 16 {
			nw := uint8(16)
			if h < 256 {
				nw = 8
			}
			return tb.Zext(tb.Bin(op, tb.Trunc(a, nw), tb.Trunc(b, nw)), w)
		}
	}
	switch op {
	case OUDiv:
		if b.isConst() && b.k == 1 {
			return a
		}
		if b.isConst() && b.k > 0 && a.hi < b.k {
			return tb.Const(w, 0)
		}
	case OURem:
		if b.isConst() && b.k > 0 && a.hi < b.k {
			return a
		}
	case OSDiv, OSRem:
		if a.slo >= 0 && b.slo >= 0 {
			if op == OSDiv {
				return tb.Bin(OUDiv, a, b)
			}
			return tb.Bin(OURem, a, b)
		}
	}
	return tb.mk(op, w, a, b, nil, 0)
}

// ---- evaluation under a model ----

func (tb *TB) newModelGen() { tb.gen++ }

func encByte(r uint64, L, i int) uint64 {
	switch L {
	case 1:
		return r & 0xff
	case 2:
		if i == 0 {
			return (0xc0 | r>>6) & 0xff
		}
	case 3:
		if i == 0 {
			return (0xe0 | r>>12) & 0xff
		}
		if i == 1 {
			return 0x80 | (r>>6)&0x3f
		}
	case 4:
		if i == 0 {
			return (0xf0 | r>>18) & 0xff
		}
		if i == 1 {
			return 0x80 | (r>>12)&0x3f
		}
		if i == 2 {
			return 0x80 | (r>>6)&0x3f
		}
	}
	return 0x80 | r&0x3f
}

// eval evaluates t under m (indexed by variable id). Results are memoised
// until newModelGen is called.
func (tb *TB) eval(t *Term, m *Model) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m.get(tb, int(t.k))
	}
	if tb.evGen[t.id] == tb.gen {
		return tb.evVal[t.id]
	}
	var r uint64
	switch t.op {
	case ONot:
		r = tb.eval(t.a, m) ^ 1
	case OAnd:
		r = tb.eval(t.a, m)
		if r != 0 {
			r = tb.eval(t.b, m)
		}
	case OOr:
		r = tb.eval(t.a, m)
		if r == 0 {
			r = tb.eval(t.b, m)
		}
	case OIte:
		if tb.eval(t.a, m) != 0 {
			r = tb.eval(t.b, m)
		} else {
			r = tb.eval(t.c, m)
		}
	case OEq, OUlt, OUle, OSlt, OSle:
		x, y := tb.eval(t.a, m), tb.eval(t.b, m)
		var b bool
		switch t.op {
		case OEq:
			b = x == y
		case OUlt:
			b = x < y
		case OUle:
			b = x <= y
		case OSlt:
			b = sx(x, t.a.w) < sx(y, t.a.w)
		case OSle:
			b = sx(x, t.a.w) <= sx(y, t.a.w)
		}
		if b {
			r = 1
		}
	case OZext:
		r = tb.eval(t.a, m)
	case OSext:
		r = uint64(sx(tb.eval(t.a, m), t.a.w)) & maskW(t.w)
	case OTrunc:
		r = tb.eval(t.a, m) & maskW(t.w)
	case OEnc:
		r = encByte(tb.eval(t.a, m), int(t.k>>8), int(t.k&0xff))
	default:
		r, _ = foldBin(t.op, t.w, tb.eval(t.a, m), tb.eval(t.b, m))
	}
	tb.evGen[t.id] = tb.gen
	tb.evVal[t.id] = r
	return r
}

// ---- SMT-LIB emission ----

var opNames = map[Op]string{
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
}

func bvConst(w uint8, k uint64) string {
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref is how an already emitted term is referred to.
func (tb *TB) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return bvConst(t.w, t.k)
	case OVar:
		return tb.vars[t.k].name
	}
	return fmt.Sprintf("t%d", t.id)
}

// body is the SMT expression of a non-leaf term over refs of its children.
func (tb *TB) body(t *Term) string {
	switch t.op {
	case ONot:
		return "(not " + tb.ref(t.a) + ")"
	case OAnd:
		return "(and " + tb.ref(t.a) + " " + tb.ref(t.b) + ")"
	case OOr:
		return "(or " + tb.ref(t.a) + " " + tb.ref(t.b) + ")"
	case OEq:
		return "(= " + tb.ref(t.a) + " " + tb.ref(t.b) + ")"
	case OIte:
		return "(ite " + tb.ref(t.a) + " " + tb.ref(t.b) + " " + tb.ref(t.c) + ")"
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, tb.ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, tb.ref(t.a))
	case OTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, tb.ref(t.a))
	case OEnc:
		r := tb.ref(t.a)
		L, i := int(t.k>>8), int(t.k&0xff)
		sh := 6 * (L - 1 - i)
		e := r
		if sh > 0 {
			e = fmt.Sprintf("(bvlshr %s %s)", r, bvConst(32, uint64(sh)))
		}
		if i > 0 {
			e = fmt.Sprintf("(bvor #x00000080 (bvand %s #x0000003f))", e)
		} else if L > 1 {
			lead := []uint64{0, 0, 0xc0, 0xe0, 0xf0}[L]
			e = fmt.Sprintf("(bvor %s %s)", bvConst(32, lead), e)
		}
		return fmt.Sprintf("((_ extract 7 0) %s)", e)
	}
	return "(" + opNames[t.op] + " " + tb.ref(t.a) + " " + tb.ref(t.b) + ")"
}

func (tb *TB) String(t *Term) string {
	switch t.op {
	case OConst, OVar:
		return tb.ref(t)
	}
	if t.big > 200 {
		return fmt.Sprintf("<term %d>", t.id)
	}
	s := tb.body(t)
	return s
}
