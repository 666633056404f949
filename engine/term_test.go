package main

import (
	"math/rand"
	"testing"
)

// TestSimplifier compares the simplifying builder with direct evaluation.
func TestSimplifier(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for iter := 0; iter < 60000; iter++ {
		tb := newTB()
		type pair struct {
			t *Term
			v uint64
		}
		w := []uint8{8, 16, 32, 64}[rnd.Intn(4)]
		md := &Model{}
		var bv []pair
		var bl []pair
		for i := 0; i < 3; i++ {
			var lo, hi int64
			switch rnd.Intn(3) {
			case 0:
				lo, hi = 0, int64(rnd.Intn(200)%int(min(uint64(120), maskW(w)>>1)))
			case 1:
				lo, hi = smin(w), smax(w)
			case 2:
				lo, hi = -5, 7
			}
			v := tb.Var("x", i, w, lo, hi)
			x := lo + int64(rnd.Uint64()%(uint64(hi-lo)+1|1))
			if hi-lo+1 == 0 {
				x = int64(rnd.Uint64())
			}
			if x > hi {
				x = hi
			}
			var idx int
			for j, vi := range tb.vars {
				if vi.t == v {
					idx = j
				}
			}
			md.put(idx, uint64(x)&maskW(w))
			bv = append(bv, pair{v, uint64(x) & maskW(w)})
		}
		for i := 0; i < 3; i++ {
			k := []uint64{0, 1, 2, 3, 8, 15, 255, 256, 127, 128, rnd.Uint64()}[rnd.Intn(11)] & maskW(w)
			bv = append(bv, pair{tb.Const(w, k), k})
		}
		bl = append(bl, pair{tb.tru, 1}, pair{tb.fls, 0})
		for i := 0; i < 25; i++ {
			a, b := bv[rnd.Intn(len(bv))], bv[rnd.Intn(len(bv))]
			p, q := bl[rnd.Intn(len(bl))], bl[rnd.Intn(len(bl))]
			bo := func(x bool) uint64 {
				if x {
					return 1
				}
				return 0
			}
			switch rnd.Intn(10) {
			case 0, 1, 2, 3:
				ops := []Op{OAdd, OSub, OMul, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr, OUDiv, OURem, OSDiv, OSRem}
				op := ops[rnd.Intn(len(ops))]
				if op == OUDiv || op == OURem || op == OSDiv || op == OSRem {
					if b.v == 0 {
						continue
					}
				}
				r, _ := foldBin(op, w, a.v, b.v)
				bv = append(bv, pair{tb.Bin(op, a.t, b.t), r & maskW(w)})
			case 4:
				nw := []uint8{8, 16, 32}[rnd.Intn(3)]
				if nw < w {
					tr := tb.Trunc(a.t, nw)
					if rnd.Intn(2) == 0 {
						bv = append(bv, pair{tb.Zext(tr, w), a.v & maskW(nw)})
					} else {
						bv = append(bv, pair{tb.Sext(tr, w), uint64(sx(a.v&maskW(nw), nw)) & maskW(w)})
					}
				}
			case 5:
				r := b.v
				if p.v != 0 {
					r = a.v
				}
				bv = append(bv, pair{tb.Ite(p.t, a.t, b.t), r})
			case 6:
				bl = append(bl, pair{tb.Eq(a.t, b.t), bo(a.v == b.v)})
			case 7:
				bl = append(bl, pair{tb.Ult(a.t, b.t), bo(a.v < b.v)}, pair{tb.Ule(a.t, b.t), bo(a.v <= b.v)})
			case 8:
				bl = append(bl, pair{tb.Slt(a.t, b.t), bo(sx(a.v, w) < sx(b.v, w))}, pair{tb.Sle(a.t, b.t), bo(sx(a.v, w) <= sx(b.v, w))})
			case 9:
				bl = append(bl, pair{tb.And(p.t, q.t), p.v & q.v}, pair{tb.Or(p.t, q.t), p.v | q.v}, pair{tb.Not(p.t), 1 ^ p.v}, pair{tb.Eq(p.t, q.t), 1 ^ p.v ^ q.v},
					pair{tb.Ite(p.t, q.t, tb.Not(p.t)), p.v&q.v | (1^p.v)&(1^p.v)})
			}
		}
		tb.newModelGen()
		for _, l := range [][]pair{bv, bl} {
			for _, x := range l {
				if g := tb.eval(x.t, md); g != x.v {
					t.Fatalf("iter %d w %d: %s = %d, want %d", iter, w, tb.String(x.t), g, x.v)
				}
				if x.t.w > 0 && (x.v < x.t.lo || x.v > x.t.hi || sx(x.v, w) < x.t.slo || sx(x.v, w) > x.t.shi || x.v&^x.t.nz != 0) {
					t.Fatalf("range of %s: %d not in %d..%d / %d..%d nz %x", tb.String(x.t), x.v, x.t.lo, x.t.hi, x.t.slo, x.t.shi, x.t.nz)
				}
			}
		}
	}
}
