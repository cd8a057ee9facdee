package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Term is a node of the symbolic expression DAG. Sorts: 0 = Bool, 1..64 = BV(w), FP32, FP64.
type Sort int16

const (
	SBool Sort = 0
	SFP32 Sort = 1032
	SFP64 Sort = 1064
)

func (s Sort) isFP() bool { return s >= 1000 }
func (s Sort) smt() string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SFP32:
		return "(_ FloatingPoint 8 24)"
	case s == SFP64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq // BV/Bool/FP structural (=)
	OIte
	OBvAdd
	OBvSub
	OBvMul
	OBvUdiv
	OBvUrem
	OBvSdiv
	OBvSrem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OBvNeg
	OBvShl
	OBvLshr
	OBvAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat  // a = high, b = low
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OFpOfBv // reinterpret bits
	OFpToBv // reinterpret to bits (z3 fp.to_ieee_bv)
	OFpAdd
	OFpSub
	OFpMul
	OFpDiv
	OFpNeg
	OFpAbs
	OFpLt
	OFpLe
	OFpEq
	OFpIsNaN
	OFpFromS // signed bv -> fp
	OFpFromU
	OFpToS // fp -> signed bv of width sort (RTZ) (only meaningful in range)
	OFpToU
	OFpToFp
	OFpRti // round to integral, val = mode (0 RNE,1 RTP(ceil),2 RTN(floor),3 RTZ)
	OFpSqrt
)

type Term struct {
	op      Op
	sort    Sort
	id      uint32
	a, b, c *Term
	val     uint64
	name    string
	emitted uint32 // solver epoch
	evEpoch uint32
	evVal   uint64
	size    int32
}

type tkey struct {
	op      Op
	sort    Sort
	a, b, c uint64
	val     uint64
}

type TermPool struct {
	tab    map[tkey]*Term
	nextID uint32
	small  [65][]*Term
	vars   map[string]*Term
	varSeq []*Term
	True   *Term
	False  *Term
	evGen  uint32
	bnd    map[*Term]ival // bounds implied by the current path condition
	model  map[*Term]uint64
}

func NewPool() *TermPool {
	p := &TermPool{tab: map[tkey]*Term{}, vars: map[string]*Term{}, nextID: 1}
	p.True = &Term{op: OConst, sort: SBool, val: 1, id: p.nid()}
	p.False = &Term{op: OConst, sort: SBool, val: 0, id: p.nid()}
	for _, w := range []int{1, 8, 16, 32, 64} {
		p.small[w] = make([]*Term, 513)
	}
	return p
}

func (p *TermPool) nid() uint32 { p.nextID++; return p.nextID }

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (p *TermPool) BV(w int, v uint64) *Term {
	v &= mask(Sort(w))
	if v <= 512 && w <= 64 && p.small[w] != nil {
		t := p.small[w][v]
		if t == nil {
			t = &Term{op: OConst, sort: Sort(w), val: v, id: p.nid(), size: 1}
			p.small[w][v] = t
		}
		return t
	}
	return &Term{op: OConst, sort: Sort(w), val: v, size: 1}
}
func (p *TermPool) FP(s Sort, bitsv uint64) *Term {
	return &Term{op: OConst, sort: s, val: bitsv, size: 1}
}
func (p *TermPool) F64(f float64) *Term { return p.FP(SFP64, math.Float64bits(f)) }

func (p *TermPool) Bool(b bool) *Term {
	if b {
		return p.True
	}
	return p.False
}

func (p *TermPool) Var(name string, s Sort) *Term {
	name = name + ":" + strconv.Itoa(int(s))
	if t, ok := p.vars[name]; ok {
		return t
	}
	t := &Term{op: OVar, sort: s, name: name, id: p.nid(), size: 1}
	p.vars[name] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) w() int        { return int(t.sort) }

func argKey(t *Term) uint64 {
	if t == nil {
		return 0
	}
	if t.op == OConst {
		// constants are keyed by value; mix the sort in the high bits through id space
		return (t.val*0x9E3779B97F4A7C15 ^ uint64(t.sort)<<1) | 1<<63
	}
	return uint64(t.id)
}

func (p *TermPool) mk(op Op, s Sort, a, b, c *Term, val uint64) *Term {
	k := tkey{op, s, argKey(a), argKey(b), argKey(c), val}
	if t, ok := p.tab[k]; ok {
		if sameArg(t.a, a) && sameArg(t.b, b) && sameArg(t.c, c) {
			return t
		}
		t2 := &Term{op: op, sort: s, a: a, b: b, c: c, val: val, id: p.nid()}
		return t2
	}
	t := &Term{op: op, sort: s, a: a, b: b, c: c, val: val, id: p.nid()}
	t.size = 1
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.size += x.size
			if t.size > 1<<28 || t.size < 0 {
				t.size = 1 << 28
			}
		}
	}
	p.tab[k] = t
	return t
}

func sameArg(x, y *Term) bool {
	if x == y {
		return true
	}
	if x == nil || y == nil {
		return false
	}
	return x.op == OConst && y.op == OConst && x.val == y.val && x.sort == y.sort
}

func same(x, y *Term) bool { return sameArg(x, y) }

// ---- booleans

func (p *TermPool) Not(a *Term) *Term {
	if a.op == OConst {
		return p.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return p.mk(ONot, SBool, a, nil, nil, 0)
}

func (p *TermPool) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.val == 0 {
			return p.False
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return p.False
		}
		return a
	}
	if a == b {
		return a
	}
	if p.Not(a) == b {
		return p.False
	}
	return p.mk(OAnd, SBool, a, b, nil, 0)
}

func (p *TermPool) Or(a, b *Term) *Term {
	if a.op == OConst {
		if a.val != 0 {
			return p.True
		}
		return b
	}
	if b.op == OConst {
		if b.val != 0 {
			return p.True
		}
		return a
	}
	if a == b {
		return a
	}
	if p.Not(a) == b {
		return p.True
	}
	return p.mk(OOr, SBool, a, b, nil, 0)
}

func (p *TermPool) Ite(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.sort == SBool {
		if a.op == OConst && b.op == OConst {
			if a.val != 0 {
				return c
			}
			return p.Not(c)
		}
		if a.op == OConst {
			if a.val != 0 {
				return p.Or(c, b)
			}
			return p.And(p.Not(c), b)
		}
		if b.op == OConst {
			if b.val != 0 {
				return p.Or(p.Not(c), a)
			}
			return p.And(c, a)
		}
	}
	if c.op == ONot {
		return p.mk(OIte, a.sort, c.a, b, a, 0)
	}
	return p.mk(OIte, a.sort, c, a, b, 0)
}

func (p *TermPool) Eq(a, b *Term) *Term {
	if same(a, b) {
		return p.True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		return p.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.sort != SBool && !a.sort.isFP() {
		if x, y := p.rng(a, 6), p.rng(b, 6); x.hi < y.lo || y.hi < x.lo {
			return p.False
		}
	}
	if a.sort == SBool {
		if b.op == OConst {
			if b.val != 0 {
				return a
			}
			return p.Not(a)
		}
	}
	if b.op == OConst && a.sort > 0 && !a.sort.isFP() {
		switch a.op {
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				e1, e2 := a.b.val == b.val, a.c.val == b.val
				switch {
				case e1 && e2:
					return p.True
				case e1:
					return a.a
				case e2:
					return p.Not(a.a)
				default:
					return p.False
				}
			}
			if a.b.op == OConst || a.c.op == OConst {
				return p.Ite(a.a, p.Eq(a.b, b), p.Eq(a.c, b))
			}
		case OZext:
			if b.val&^mask(a.a.sort) != 0 {
				return p.False
			}
			return p.Eq(a.a, p.BV(a.a.w(), b.val))
		case OConcat:
			lw := a.b.w()
			return p.And(p.Eq(a.a, p.BV(a.a.w(), b.val>>uint(lw))), p.Eq(a.b, p.BV(lw, b.val)))
		case OBvAdd:
			if a.b.op == OConst {
				return p.Eq(a.a, p.BV(a.w(), b.val-a.b.val))
			}
		case OBvXor:
			if a.b.op == OConst {
				return p.Eq(a.a, p.BV(a.w(), b.val^a.b.val))
			}
		}
	}
	if a.op == OConcat && b.op == OConcat && a.a.sort == b.a.sort {
		return p.And(p.Eq(a.a, b.a), p.Eq(a.b, b.b))
	}
	if a.op == OZext && b.op == OZext && a.a.sort == b.a.sort {
		return p.Eq(a.a, b.a)
	}
	if a.op != OConst && b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return p.mk(OEq, SBool, a, b, nil, 0)
}

// ---- bit-vector pieces normalisation

type piece struct {
	t *Term // nil = zero bits
	w int
}

// lowPieces decomposes t into pieces from the LSB up.
func (p *TermPool) pieces(t *Term, out []piece, depth int) []piece {
	switch t.op {
	case OConst:
		if t.val == 0 {
			return append(out, piece{nil, t.w()})
		}
	case OZext:
		if depth < 40 {
			out = p.pieces(t.a, out, depth+1)
			return append(out, piece{nil, t.w() - t.a.w()})
		}
	case OConcat:
		if depth < 40 {
			out = p.pieces(t.b, out, depth+1)
			return p.pieces(t.a, out, depth+1)
		}
	}
	return append(out, piece{t, t.w()})
}

func (p *TermPool) fromPieces(ps []piece) *Term {
	// merge adjacent
	var m []piece
	for _, q := range ps {
		if q.w == 0 {
			continue
		}
		if len(m) > 0 {
			l := &m[len(m)-1]
			if l.t == nil && q.t == nil {
				l.w += q.w
				continue
			}
			if l.t != nil && q.t != nil {
				if l.t.op == OConst && q.t.op == OConst && l.w+q.w <= 64 {
					l.t = p.BV(l.w+q.w, l.t.val|q.t.val<<uint(l.w))
					l.w += q.w
					continue
				}
				if lb, lh, ll, ok := asExtract(l.t); ok {
					if qb, qh, ql, ok2 := asExtract(q.t); ok2 && lb == qb && ql == lh+1 {
						l.t = p.Extract(lb, qh, ll)
						l.w += q.w
						continue
					}
				}
			}
		}
		m = append(m, q)
	}
	var acc *Term
	for i, q := range m {
		t := q.t
		if t == nil {
			if i == len(m)-1 && acc != nil {
				return p.rawZext(acc, acc.w()+q.w)
			}
			t = p.BV(q.w, 0)
		}
		if acc == nil {
			acc = t
		} else {
			acc = p.rawConcat(t, acc)
		}
	}
	return acc
}

func asExtract(t *Term) (base *Term, hi, lo int, ok bool) {
	if t.op == OExtract {
		return t.a, int(t.val >> 8), int(t.val & 0xff), true
	}
	if t.op == OVar || t.op == OBvAdd || t.op == OBvSub || t.op == OBvMul || t.op == OFpToBv || t.op == OIte {
		return t, t.w() - 1, 0, true
	}
	return nil, 0, 0, false
}

func (p *TermPool) rawZext(a *Term, w int) *Term {
	if a.w() == w {
		return a
	}
	if a.op == OConst {
		return p.BV(w, a.val)
	}
	if a.op == OZext {
		return p.rawZext(a.a, w)
	}
	return p.mk(OZext, Sort(w), a, nil, nil, 0)
}
func (p *TermPool) rawConcat(hi, lo *Term) *Term {
	w := hi.w() + lo.w()
	if hi.op == OConst && lo.op == OConst && w <= 64 {
		return p.BV(w, hi.val<<uint(lo.w())|lo.val)
	}
	if hi.op == OConst && hi.val == 0 {
		return p.rawZext(lo, w)
	}
	return p.mk(OConcat, Sort(w), hi, lo, nil, 0)
}

func (p *TermPool) Zext(a *Term, w int) *Term {
	if a.w() == w {
		return a
	}
	return p.rawZext(a, w)
}

func (p *TermPool) Sext(a *Term, w int) *Term {
	if a.w() == w {
		return a
	}
	if a.op == OConst {
		return p.BV(w, uint64(sx(a.val, a.w())))
	}
	if a.op == OZext && a.a.w() < a.w() {
		return p.rawZext(a.a, w)
	}
	if a.op == OSext {
		return p.Sext(a.a, w)
	}
	if p.rng(a, 8).lo >= 0 {
		return p.rawZext(a, w)
	}
	return p.mk(OSext, Sort(w), a, nil, nil, 0)
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func (p *TermPool) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.w()-1 {
		return a
	}
	w := hi - lo + 1
	switch a.op {
	case OConst:
		return p.BV(w, a.val>>uint(lo))
	case OExtract:
		l0 := int(a.val & 0xff)
		return p.Extract(a.a, hi+l0, lo+l0)
	case OZext:
		iw := a.a.w()
		if hi < iw {
			return p.Extract(a.a, hi, lo)
		}
		if lo >= iw {
			return p.BV(w, 0)
		}
		return p.rawZext(p.Extract(a.a, iw-1, lo), w)
	case OSext:
		iw := a.a.w()
		if hi < iw {
			return p.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return p.Sext(a.a, w)
		}
	case OConcat:
		lw := a.b.w()
		if hi < lw {
			return p.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return p.Extract(a.a, hi-lw, lo-lw)
		}
		return p.fromPieces(append(p.pieces(p.Extract(a.b, lw-1, lo), nil, 0), p.pieces(p.Extract(a.a, hi-lw, 0), nil, 0)...))
	case OBvAnd, OBvOr, OBvXor:
		if a.b.op == OConst || (a.size < 40) {
			x, y := p.Extract(a.a, hi, lo), p.Extract(a.b, hi, lo)
			switch a.op {
			case OBvAnd:
				return p.BvAnd(x, y)
			case OBvOr:
				return p.BvOr(x, y)
			default:
				return p.BvXor(x, y)
			}
		}
	case OBvAdd, OBvSub, OBvMul:
		if lo == 0 && a.b.op == OConst {
			x, y := p.Extract(a.a, hi, 0), p.Extract(a.b, hi, 0)
			switch a.op {
			case OBvAdd:
				return p.BvAdd(x, y)
			case OBvSub:
				return p.BvSub(x, y)
			default:
				return p.BvMul(x, y)
			}
		}
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return p.Ite(a.a, p.Extract(a.b, hi, lo), p.Extract(a.c, hi, lo))
		}
	}
	return p.mk(OExtract, Sort(w), a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (p *TermPool) Concat(hi, lo *Term) *Term {
	ps := p.pieces(lo, nil, 0)
	ps = p.pieces(hi, ps, 0)
	return p.fromPieces(ps)
}

// disjoint merge for or/add/xor
func (p *TermPool) tryMerge(a, b *Term) *Term {
	if (a.op != OZext && a.op != OConcat && a.op != OConst) || (b.op != OZext && b.op != OConcat && b.op != OConst) {
		return nil
	}
	if a.op == OConst && b.op == OConst {
		return nil
	}
	pa := p.pieces(a, nil, 0)
	pb := p.pieces(b, nil, 0)
	// split at common boundaries
	var out []piece
	i, j, oi, oj := 0, 0, 0, 0
	for i < len(pa) && j < len(pb) {
		ra, rb := pa[i].w-oi, pb[j].w-oj
		n := ra
		if rb < n {
			n = rb
		}
		if n == 0 {
			if ra == 0 {
				i++
				oi = 0
			}
			if rb == 0 {
				j++
				oj = 0
			}
			continue
		}
		ta, tb := pa[i].t, pb[j].t
		cut := func(t *Term, o int) *Term { return p.Extract(t, o+n-1, o) }
		switch {
		case ta == nil && tb == nil:
			out = append(out, piece{nil, n})
		case ta == nil:
			out = append(out, piece{cut(tb, oj), n})
		case tb == nil:
			out = append(out, piece{cut(ta, oi), n})
		default:
			x, y := cut(ta, oi), cut(tb, oj)
			if x.op == OConst && x.val == 0 {
				out = append(out, piece{y, n})
			} else if y.op == OConst && y.val == 0 {
				out = append(out, piece{x, n})
			} else {
				return nil
			}
		}
		oi += n
		oj += n
		if oi == pa[i].w {
			i++
			oi = 0
		}
		if oj == pb[j].w {
			j++
			oj = 0
		}
	}
	return p.fromPieces(out)
}

func (p *TermPool) BvAdd(a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		return p.BV(w, a.val+b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if a.op == OBvAdd && a.b.op == OConst {
			return p.BvAdd(a.a, p.BV(w, a.b.val+b.val))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return p.Ite(a.a, p.BvAdd(a.b, b), p.BvAdd(a.c, b))
		}
		return p.mk(OBvAdd, a.sort, a, b, nil, 0)
	}
	if m := p.tryMerge(a, b); m != nil {
		return m
	}
	if a.op == OBvAdd && a.b.op == OConst {
		return p.BvAdd(p.BvAdd(a.a, b), a.b)
	}
	if b.op == OBvAdd && b.b.op == OConst {
		return p.BvAdd(p.BvAdd(a, b.a), b.b)
	}
	if b.op == OBvNeg {
		return p.BvSub(a, b.a)
	}
	if a.op == OBvSub && same(a.b, b) {
		return a.a
	}
	if b.op == OBvSub && same(b.b, a) {
		return b.a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OBvAdd, a.sort, a, b, nil, 0)
}

func (p *TermPool) BvSub(a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		return p.BV(w, a.val-b.val)
	}
	if same(a, b) {
		return p.BV(w, 0)
	}
	if b.op == OConst {
		return p.BvAdd(a, p.BV(w, -b.val))
	}
	if a.op == OConst && a.val == 0 {
		return p.mk(OBvNeg, a.sort, b, nil, nil, 0)
	}
	if a.op == OBvAdd {
		if same(a.a, b) {
			return a.b
		}
		if same(a.b, b) {
			return a.a
		}
	}
	if a.op == OBvAdd && a.b.op == OConst && b.op == OBvAdd && b.b.op == OConst {
		return p.BvAdd(p.BvSub(a.a, b.a), p.BV(w, a.b.val-b.b.val))
	}
	if a.op == OBvAdd && a.b.op == OConst {
		return p.BvAdd(p.BvSub(a.a, b), a.b)
	}
	if b.op == OBvAdd && b.b.op == OConst {
		return p.BvAdd(p.BvSub(a, b.a), p.BV(w, -b.b.val))
	}
	return p.mk(OBvSub, a.sort, a, b, nil, 0)
}

func (p *TermPool) BvNeg(a *Term) *Term { return p.BvSub(p.BV(a.w(), 0), a) }

func (p *TermPool) BvMul(a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		return p.BV(w, a.val*b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
		if bits.OnesCount64(b.val) == 1 {
			return p.BvShl(a, p.BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OBvMul && a.b.op == OConst {
			return p.BvMul(a.a, p.BV(w, a.b.val*b.val))
		}
	}
	return p.mk(OBvMul, a.sort, a, b, nil, 0)
}

func (p *TermPool) BvUdiv(a, b *Term) *Term {
	w := a.w()
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return p.BV(w, a.val/b.val)
		}
		if b.val == 1 {
			return a
		}
		if bits.OnesCount64(b.val) == 1 {
			return p.BvLshr(a, p.BV(w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OZext {
			iw := a.a.w()
			if b.val > mask(a.a.sort) {
				return p.BV(w, 0)
			}
			return p.Zext(p.BvUdiv(a.a, p.BV(iw, b.val)), w)
		}
	}
	if q, _, ok := p.divSplit(a, b); ok {
		return q
	}
	return p.mk(OBvUdiv, a.sort, a, b, nil, 0)
}
func (p *TermPool) BvUrem(a, b *Term) *Term {
	w := a.w()
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return p.BV(w, a.val%b.val)
		}
		if bits.OnesCount64(b.val) == 1 {
			return p.BvAnd(a, p.BV(w, b.val-1))
		}
		if a.op == OZext {
			iw := a.a.w()
			if b.val > mask(a.a.sort) {
				return a
			}
			return p.Zext(p.BvUrem(a.a, p.BV(iw, b.val)), w)
		}
	}
	if _, r, ok := p.divSplit(a, b); ok {
		return r
	}
	return p.mk(OBvUrem, a.sort, a, b, nil, 0)
}
func (p *TermPool) nonNeg(a *Term) bool {
	if a.op == OConst {
		return sx(a.val, a.w()) >= 0
	}
	if a.op == OZext {
		return true
	}
	if a.op == OBvUrem && a.b.op == OConst && sx(a.b.val, a.w()) > 0 {
		return true
	}
	if a.op == OBvAnd && a.b.op == OConst && sx(a.b.val, a.w()) >= 0 {
		return true
	}
	if a.op == OIte {
		return p.nonNeg(a.b) && p.nonNeg(a.c)
	}
	if a.op == OBvLshr && a.b.op == OConst && a.b.val > 0 {
		return true
	}
	return false
}
func (p *TermPool) BvSdiv(a, b *Term) *Term {
	w := a.w()
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			x, y := sx(a.val, w), sx(b.val, w)
			if y == -1 {
				return p.BV(w, uint64(-x))
			}
			return p.BV(w, uint64(x/y))
		}
		if b.val == 1 {
			return a
		}
		if p.nonNeg(a) && p.nonNeg(b) {
			return p.BvUdiv(a, b)
		}
	}
	if q, _, ok := p.divSplit(a, b); ok {
		return q
	}
	return p.mk(OBvSdiv, a.sort, a, b, nil, 0)
}
func (p *TermPool) BvSrem(a, b *Term) *Term {
	w := a.w()
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			x, y := sx(a.val, w), sx(b.val, w)
			if y == -1 {
				return p.BV(w, 0)
			}
			return p.BV(w, uint64(x%y))
		}
		if p.nonNeg(a) && p.nonNeg(b) {
			return p.BvUrem(a, b)
		}
	}
	if _, r, ok := p.divSplit(a, b); ok {
		return r
	}
	return p.mk(OBvSrem, a.sort, a, b, nil, 0)
}

func (p *TermPool) BvAnd(a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		return p.BV(w, a.val&b.val)
	}
	if same(a, b) {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.sort) {
			return a
		}
		// contiguous mask
		tz := bits.TrailingZeros64(b.val)
		run := b.val >> uint(tz)
		if tz == 0 && run&(run+1) == 0 && sx(b.val, w) > 0 {
			if r := p.rng(a, 8); r.lo >= 0 && r.hi <= sx(b.val, w) {
				return a
			}
		}
		if run&(run+1) == 0 {
			n := bits.Len64(run)
			mid := p.Extract(a, tz+n-1, tz)
			return p.fromPieces(append(append([]piece{{nil, tz}}, p.pieces(mid, nil, 0)...), piece{nil, w - tz - n}))
		}
		if a.op == OZext || a.op == OConcat {
			// piecewise
			ps := p.pieces(a, nil, 0)
			off := 0
			var out []piece
			for _, q := range ps {
				if q.t != nil {
					m := p.BvAnd(q.t, p.BV(q.w, b.val>>uint(off)))
					out = p.pieces(m, out, 0)
				} else {
					out = append(out, q)
				}
				off += q.w
			}
			return p.fromPieces(out)
		}
		if a.op == OBvAnd && a.b.op == OConst {
			return p.BvAnd(a.a, p.BV(w, a.b.val&b.val))
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return p.Ite(a.a, p.BvAnd(a.b, b), p.BvAnd(a.c, b))
		}
		return p.mk(OBvAnd, a.sort, a, b, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OBvAnd, a.sort, a, b, nil, 0)
}
func (p *TermPool) BvOr(a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		return p.BV(w, a.val|b.val)
	}
	if same(a, b) {
		return a
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.sort) {
			return b
		}
		// piecewise split for constants
		return p.orConst(a, b.val)
	}
	if m := p.tryMerge(a, b); m != nil {
		return m
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OBvOr, a.sort, a, b, nil, 0)
}
func (p *TermPool) orConst(a *Term, v uint64) *Term {
	ps := p.pieces(a, nil, 0)
	off := 0
	var out []piece
	for _, q := range ps {
		cv := (v >> uint(off)) & mask(Sort(q.w))
		off += q.w
		if q.t == nil {
			if cv == 0 {
				out = append(out, q)
			} else {
				out = append(out, piece{p.BV(q.w, cv), q.w})
			}
			continue
		}
		if cv == 0 {
			out = append(out, q)
			continue
		}
		if q.t.op == OConst {
			out = append(out, piece{p.BV(q.w, cv|q.t.val), q.w})
			continue
		}
		// split the piece bitwise by runs
		i := 0
		for i < q.w {
			bit := cv >> uint(i) & 1
			j := i
			for j < q.w && cv>>uint(j)&1 == bit {
				j++
			}
			if bit == 1 {
				out = append(out, piece{p.BV(j-i, ^uint64(0)), j - i})
			} else {
				out = append(out, piece{p.Extract(q.t, j-1, i), j - i})
			}
			i = j
		}
	}
	return p.fromPieces(out)
}
func (p *TermPool) BvXor(a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		return p.BV(w, a.val^b.val)
	}
	if same(a, b) {
		return p.BV(w, 0)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if a.op == OBvXor && a.b.op == OConst {
			return p.BvXor(a.a, p.BV(w, a.b.val^b.val))
		}
		return p.mk(OBvXor, a.sort, a, b, nil, 0)
	}
	if a.op == OBvXor {
		if same(a.b, b) {
			return a.a
		}
		if same(a.a, b) {
			return a.b
		}
	}
	if b.op == OBvXor {
		if same(b.b, a) {
			return b.a
		}
		if same(b.a, a) {
			return b.b
		}
	}
	if m := p.tryMerge(a, b); m != nil {
		return m
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.mk(OBvXor, a.sort, a, b, nil, 0)
}
func (p *TermPool) BvNot(a *Term) *Term {
	if a.op == OConst {
		return p.BV(a.w(), ^a.val)
	}
	if a.op == OBvNot {
		return a.a
	}
	return p.mk(OBvNot, a.sort, a, nil, nil, 0)
}

// shifts: b same width as a; semantics SMT-LIB (>= w gives 0 / sign)
func (p *TermPool) BvShl(a, b *Term) *Term {
	w := a.w()
	if b.op == OConst {
		if b.val >= uint64(w) {
			return p.BV(w, 0)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OConst {
			return p.BV(w, a.val<<b.val)
		}
		n := int(b.val)
		lo := p.Extract(a, w-1-n, 0)
		return p.fromPieces(append([]piece{{nil, n}}, p.pieces(lo, nil, 0)...))
	}
	return p.mk(OBvShl, a.sort, a, b, nil, 0)
}
func (p *TermPool) BvLshr(a, b *Term) *Term {
	w := a.w()
	if b.op == OConst {
		if b.val >= uint64(w) {
			return p.BV(w, 0)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OConst {
			return p.BV(w, a.val>>b.val)
		}
		return p.Zext(p.Extract(a, w-1, int(b.val)), w)
	}
	return p.mk(OBvLshr, a.sort, a, b, nil, 0)
}
func (p *TermPool) BvAshr(a, b *Term) *Term {
	w := a.w()
	if b.op == OConst {
		n := b.val
		if n >= uint64(w) {
			n = uint64(w - 1)
		}
		if n == 0 {
			return a
		}
		if a.op == OConst {
			return p.BV(w, uint64(sx(a.val, w)>>n))
		}
		return p.Sext(p.Extract(a, w-1, int(n)), w)
	}
	return p.mk(OBvAshr, a.sort, a, b, nil, 0)
}

// bounds: unsigned upper bound of a term (cheap)
func (p *TermPool) umax(a *Term) uint64 {
	switch a.op {
	case OConst:
		return a.val
	case OZext:
		return p.umax(a.a)
	case OBvUrem:
		if a.b.op == OConst && a.b.val > 0 {
			return a.b.val - 1
		}
	case OBvAnd:
		if a.b.op == OConst {
			return a.b.val
		}
	case OIte:
		x, y := p.umax(a.b), p.umax(a.c)
		if x > y {
			return x
		}
		return y
	case OBvUdiv:
		if a.b.op == OConst && a.b.val > 0 {
			return p.umax(a.a) / a.b.val
		}
	}
	return mask(a.sort)
}

func (p *TermPool) Ult(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return p.Bool(a.val < b.val)
	}
	if same(a, b) {
		return p.False
	}
	if b.op == OConst {
		if b.val == 0 {
			return p.False
		}
		if p.umax(a) < b.val {
			return p.True
		}
		if a.op == OZext && b.val <= mask(a.a.sort) {
			return p.Ult(a.a, p.BV(a.a.w(), b.val))
		}
	}
	if a.op == OConst {
		if a.val >= p.umax(b) {
			return p.False
		}
		if b.op == OZext {
			return p.Ult(p.BV(b.a.w(), a.val), b.a)
		}
	}
	if a.op == OZext && b.op == OZext && a.a.sort == b.a.sort {
		return p.Ult(a.a, b.a)
	}
	if x, y := p.rng(a, 8), p.rng(b, 8); x.lo >= 0 && y.lo >= 0 {
		if x.hi < y.lo {
			return p.True
		}
		if x.lo >= y.hi {
			return p.False
		}
	}
	return p.mk(OUlt, SBool, a, b, nil, 0)
}
func (p *TermPool) Ule(a, b *Term) *Term { return p.Not(p.Ult(b, a)) }
func (p *TermPool) Slt(a, b *Term) *Term {
	w := a.w()
	if a.op == OConst && b.op == OConst {
		return p.Bool(sx(a.val, w) < sx(b.val, w))
	}
	if same(a, b) {
		return p.False
	}
	if p.nonNeg(a) && p.nonNeg(b) {
		return p.Ult(a, b)
	}
	if b.op == OConst && sx(b.val, w) <= 0 && p.nonNeg(a) {
		return p.False
	}
	if a.op == OConst && sx(a.val, w) < 0 && p.nonNeg(b) {
		return p.True
	}
	if a.op == OSext && b.op == OConst {
		iw := a.a.w()
		v := sx(b.val, w)
		lo, hi := -(int64(1) << uint(iw-1)), int64(1)<<uint(iw-1)-1
		if v > hi {
			return p.True
		}
		if v <= lo {
			return p.False
		}
		return p.Slt(a.a, p.BV(iw, uint64(v)))
	}
	if b.op == OSext && a.op == OConst {
		iw := b.a.w()
		v := sx(a.val, w)
		lo, hi := -(int64(1) << uint(iw-1)), int64(1)<<uint(iw-1)-1
		if v >= hi {
			return p.False
		}
		if v < lo {
			return p.True
		}
		return p.Slt(p.BV(iw, uint64(v)), b.a)
	}
	if a.op == OSext && b.op == OSext && a.a.sort == b.a.sort {
		return p.Slt(a.a, b.a)
	}
	if b.op == OConst && sx(b.val, w) == -(int64(1)<<uint(w-1)) {
		return p.False
	}
	if x, y := p.rng(a, 8), p.rng(b, 8); x.hi < y.lo {
		return p.True
	} else if x.lo >= y.hi {
		return p.False
	}
	return p.mk(OSlt, SBool, a, b, nil, 0)
}
func (p *TermPool) Sle(a, b *Term) *Term { return p.Not(p.Slt(b, a)) }

// ---- floats
func (p *TermPool) FpOfBv(a *Term, s Sort) *Term {
	if a.op == OConst {
		return p.FP(s, a.val)
	}
	if a.op == OFpToBv {
		return a.a
	}
	return p.mk(OFpOfBv, s, a, nil, nil, 0)
}
func (p *TermPool) FpToBv(a *Term) *Term {
	w := 64
	if a.sort == SFP32 {
		w = 32
	}
	if a.op == OConst {
		return p.BV(w, a.val)
	}
	if a.op == OFpOfBv {
		return a.a
	}
	if a.op == OIte {
		return p.Ite(a.a, p.FpToBv(a.b), p.FpToBv(a.c))
	}
	if a.op == OFpNeg {
		return p.BvXor(p.FpToBv(a.a), p.BV(w, 1<<uint(w-1)))
	}
	if a.op == OFpAbs {
		return p.BvAnd(p.FpToBv(a.a), p.BV(w, mask(Sort(w-1))))
	}
	return p.mk(OFpToBv, Sort(w), a, nil, nil, 0)
}
func fval(t Sort, v uint64) float64 {
	if t == SFP32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(t Sort, f float64) uint64 {
	if t == SFP32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func fpBin(op Op, s Sort, x, y uint64) uint64 {
	if s == SFP32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFpAdd:
			r = a + b
		case OFpSub:
			r = a - b
		case OFpMul:
			r = a * b
		case OFpDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFpAdd:
		r = a + b
	case OFpSub:
		r = a - b
	case OFpMul:
		r = a * b
	case OFpDiv:
		r = a / b
	}
	return math.Float64bits(r)
}
func (p *TermPool) FpBin(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return p.FP(a.sort, fpBin(op, a.sort, a.val, b.val))
	}
	return p.mk(op, a.sort, a, b, nil, 0)
}
func (p *TermPool) FpNeg(a *Term) *Term {
	if a.op == OConst {
		w := uint(63)
		if a.sort == SFP32 {
			w = 31
		}
		return p.FP(a.sort, a.val^(1<<w))
	}
	return p.mk(OFpNeg, a.sort, a, nil, nil, 0)
}
func (p *TermPool) FpAbs(a *Term) *Term {
	if a.op == OConst {
		w := uint(63)
		if a.sort == SFP32 {
			w = 31
		}
		return p.FP(a.sort, a.val&^(1<<w))
	}
	return p.mk(OFpAbs, a.sort, a, nil, nil, 0)
}
func (p *TermPool) FpCmp(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		x, y := fval(a.sort, a.val), fval(b.sort, b.val)
		switch op {
		case OFpLt:
			return p.Bool(x < y)
		case OFpLe:
			return p.Bool(x <= y)
		case OFpEq:
			return p.Bool(x == y)
		}
	}
	if op == OFpEq && a == b {
		return p.Not(p.FpIsNaN(a))
	}
	if t := p.fpMono(op, a, b); t != nil {
		return t
	}
	return p.mk(op, SBool, a, b, nil, 0)
}
func (p *TermPool) FpIsNaN(a *Term) *Term {
	if a.op == OConst {
		f := fval(a.sort, a.val)
		return p.Bool(f != f)
	}
	return p.mk(OFpIsNaN, SBool, a, nil, nil, 0)
}
func (p *TermPool) FpFromInt(a *Term, signed bool, s Sort) *Term {
	if a.op == OConst {
		if signed {
			v := sx(a.val, a.w())
			if s == SFP32 {
				return p.FP(s, uint64(math.Float32bits(float32(v))))
			}
			return p.F64(float64(v))
		}
		if s == SFP32 {
			return p.FP(s, uint64(math.Float32bits(float32(a.val))))
		}
		return p.F64(float64(a.val))
	}
	op := OFpFromU
	if signed {
		op = OFpFromS
	}
	return p.mk(op, s, a, nil, nil, 0)
}
func (p *TermPool) FpToFp(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.op == OConst {
		return p.FP(s, fbits(s, fval(a.sort, a.val)))
	}
	return p.mk(OFpToFp, s, a, nil, nil, 0)
}

// FpToInt converts to int64 with amd64 semantics (out of range/NaN -> min int64).
func (p *TermPool) FpToI64(a *Term) *Term {
	if a.sort == SFP32 {
		a = p.FpToFp(a, SFP64)
	}
	if a.op == OConst {
		f := math.Float64frombits(a.val)
		if f >= -9223372036854775808.0 && f < 9223372036854775808.0 {
			return p.BV(64, uint64(int64(f)))
		}
		return p.BV(64, 1<<63)
	}
	in := p.And(p.FpCmp(OFpLe, p.F64(-9223372036854775808.0), a), p.FpCmp(OFpLt, a, p.F64(9223372036854775808.0)))
	return p.Ite(in, p.mk(OFpToS, 64, a, nil, nil, 0), p.BV(64, 1<<63))
}
func (p *TermPool) FpRti(a *Term, mode uint64) *Term {
	if a.op == OConst {
		f := fval(a.sort, a.val)
		switch mode {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Ceil(f)
		case 2:
			f = math.Floor(f)
		case 3:
			f = math.Trunc(f)
		}
		return p.FP(a.sort, fbits(a.sort, f))
	}
	return p.mk(OFpRti, a.sort, a, nil, nil, mode)
}

// ---- evaluation under a model

// Eval evaluates t under m (missing variables = 0). Memoised per generation.
func (p *TermPool) NewEval(m map[*Term]uint64) {
	p.evGen++
	p.model = m
}
func (p *TermPool) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evEpoch == p.evGen {
		return t.evVal
	}
	var v uint64
	ev := p.Eval
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	w := t.w()
	switch t.op {
	case OVar:
		v = p.model[t]
	case ONot:
		v = 1 - ev(t.a)
	case OAnd:
		v = ev(t.a)
		if v != 0 {
			v = ev(t.b)
		}
	case OOr:
		v = ev(t.a)
		if v == 0 {
			v = ev(t.b)
		}
	case OEq:
		v = b2u(ev(t.a) == ev(t.b))
		if t.a.sort.isFP() {
			x, y := fval(t.a.sort, ev(t.a)), fval(t.a.sort, ev(t.b))
			if x != x && y != y {
				v = 1
			}
		}
	case OIte:
		if ev(t.a) != 0 {
			v = ev(t.b)
		} else {
			v = ev(t.c)
		}
	case OBvAdd:
		v = ev(t.a) + ev(t.b)
	case OBvSub:
		v = ev(t.a) - ev(t.b)
	case OBvMul:
		v = ev(t.a) * ev(t.b)
	case OBvUdiv:
		x, y := ev(t.a), ev(t.b)
		if y == 0 {
			v = mask(t.sort)
		} else {
			v = x / y
		}
	case OBvUrem:
		x, y := ev(t.a), ev(t.b)
		if y == 0 {
			v = x
		} else {
			v = x % y
		}
	case OBvSdiv:
		x, y := sx(ev(t.a), w), sx(ev(t.b), w)
		if y == 0 {
			if x < 0 {
				v = 1
			} else {
				v = mask(t.sort)
			}
		} else if y == -1 {
			v = uint64(-x)
		} else {
			v = uint64(x / y)
		}
	case OBvSrem:
		x, y := sx(ev(t.a), w), sx(ev(t.b), w)
		if y == 0 {
			v = uint64(x)
		} else if y == -1 {
			v = 0
		} else {
			v = uint64(x % y)
		}
	case OBvAnd:
		v = ev(t.a) & ev(t.b)
	case OBvOr:
		v = ev(t.a) | ev(t.b)
	case OBvXor:
		v = ev(t.a) ^ ev(t.b)
	case OBvNot:
		v = ^ev(t.a)
	case OBvNeg:
		v = -ev(t.a)
	case OBvShl:
		n := ev(t.b)
		if n < uint64(w) {
			v = ev(t.a) << n
		}
	case OBvLshr:
		n := ev(t.b)
		if n < uint64(w) {
			v = ev(t.a) >> n
		}
	case OBvAshr:
		n := ev(t.b)
		if n >= uint64(w) {
			n = uint64(w - 1)
		}
		v = uint64(sx(ev(t.a), w) >> n)
	case OUlt:
		v = b2u(ev(t.a) < ev(t.b))
	case OUle:
		v = b2u(ev(t.a) <= ev(t.b))
	case OSlt:
		v = b2u(sx(ev(t.a), t.a.w()) < sx(ev(t.b), t.b.w()))
	case OSle:
		v = b2u(sx(ev(t.a), t.a.w()) <= sx(ev(t.b), t.b.w()))
	case OConcat:
		v = ev(t.a)<<uint(t.b.w()) | ev(t.b)
	case OExtract:
		v = ev(t.a) >> (t.val & 0xff)
	case OZext:
		v = ev(t.a)
	case OSext:
		v = uint64(sx(ev(t.a), t.a.w()))
	case OFpOfBv:
		v = ev(t.a)
	case OFpToBv:
		v = ev(t.a)
	case OFpAdd, OFpSub, OFpMul, OFpDiv:
		v = fpBin(t.op, t.sort, ev(t.a), ev(t.b))
	case OFpNeg:
		v = p.FpNeg(p.FP(t.sort, ev(t.a))).val
	case OFpAbs:
		v = p.FpAbs(p.FP(t.sort, ev(t.a))).val
	case OFpLt:
		v = b2u(fval(t.a.sort, ev(t.a)) < fval(t.b.sort, ev(t.b)))
	case OFpLe:
		v = b2u(fval(t.a.sort, ev(t.a)) <= fval(t.b.sort, ev(t.b)))
	case OFpEq:
		v = b2u(fval(t.a.sort, ev(t.a)) == fval(t.b.sort, ev(t.b)))
	case OFpIsNaN:
		f := fval(t.a.sort, ev(t.a))
		v = b2u(f != f)
	case OFpFromS:
		v = p.FpFromInt(p.BV(t.a.w(), ev(t.a)), true, t.sort).val
	case OFpFromU:
		v = p.FpFromInt(p.BV(t.a.w(), ev(t.a)), false, t.sort).val
	case OFpToS:
		f := fval(t.a.sort, ev(t.a))
		v = uint64(int64(f))
	case OFpToFp:
		v = fbits(t.sort, fval(t.a.sort, ev(t.a)))
	case OFpRti:
		v = p.FpRti(p.FP(t.sort, ev(t.a)), t.val).val
	case OFpSqrt:
		v = fbits(t.sort, math.Sqrt(fval(t.sort, ev(t.a))))
	default:
		panic("eval op")
	}
	if t.sort > 0 && !t.sort.isFP() {
		v &= mask(t.sort)
	}
	t.evEpoch = p.evGen
	t.evVal = v
	return v
}

// ---- SMT-LIB emission

func smtConst(t *Term) string {
	switch {
	case t.sort == SBool:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case t.sort == SFP32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
	case t.sort == SFP64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	}
	w := t.w()
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, t.val)
	}
	s := strconv.FormatUint(t.val, 2)
	return "#b" + strings.Repeat("0", w-len(s)) + s
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OBvAdd: "bvadd", OBvSub: "bvsub", OBvMul: "bvmul",
	OBvUdiv: "bvudiv", OBvUrem: "bvurem", OBvSdiv: "bvsdiv", OBvSrem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor",
	OBvXor: "bvxor", OBvNot: "bvnot", OBvNeg: "bvneg", OBvShl: "bvshl", OBvLshr: "bvlshr", OBvAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFpAdd: "fp.add RNE", OFpSub: "fp.sub RNE", OFpMul: "fp.mul RNE", OFpDiv: "fp.div RNE", OFpNeg: "fp.neg", OFpAbs: "fp.abs",
	OFpLt: "fp.lt", OFpLe: "fp.leq", OFpEq: "fp.eq", OFpIsNaN: "fp.isNaN", OFpSqrt: "fp.sqrt RNE",
	OFpToBv: "fp.to_ieee_bv",
}

func fpDims(s Sort) string {
	if s == SFP32 {
		return "8 24"
	}
	return "11 53"
}

func opHead(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("(_ extract %d %d)", t.val>>8, t.val&0xff)
	case OZext:
		return fmt.Sprintf("(_ zero_extend %d)", t.w()-t.a.w())
	case OSext:
		return fmt.Sprintf("(_ sign_extend %d)", t.w()-t.a.w())
	case OFpOfBv:
		return fmt.Sprintf("(_ to_fp %s)", fpDims(t.sort))
	case OFpFromS:
		return fmt.Sprintf("(_ to_fp %s) RNE", fpDims(t.sort))
	case OFpFromU:
		return fmt.Sprintf("(_ to_fp_unsigned %s) RNE", fpDims(t.sort))
	case OFpToFp:
		return fmt.Sprintf("(_ to_fp %s) RNE", fpDims(t.sort))
	case OFpToS:
		return fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.w())
	case OFpRti:
		return "fp.roundToIntegral " + []string{"RNE", "RTP", "RTN", "RTZ"}[t.val]
	}
	return opNames[t.op]
}

type ival struct{ lo, hi int64 }

func full(w int) ival {
	if w >= 64 {
		return ival{math.MinInt64, math.MaxInt64}
	}
	return ival{-(int64(1) << uint(w-1)), int64(1)<<uint(w-1) - 1}
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a == math.MinInt64 || b == math.MinInt64 {
		return 0, false
	}
	c := a * b
	return c, c/b == a
}

// rng is an interval for the signed value of t that holds on the current path.
func (p *TermPool) rng(t *Term, depth int) ival {
	if t.op == OConst {
		v := sx(t.val, t.w())
		return ival{v, v}
	}
	f := full(t.w())
	r := p.rng0(t, depth, f)
	if r.lo < f.lo || r.hi > f.hi {
		r = f
	}
	if b, ok := p.bnd[t]; ok {
		if b.lo > r.lo {
			r.lo = b.lo
		}
		if b.hi < r.hi {
			r.hi = b.hi
		}
	}
	if r.lo > r.hi {
		return f
	}
	return r
}

func (p *TermPool) rng0(t *Term, depth int, f ival) ival {
	if depth == 0 {
		return f
	}
	depth--
	switch t.op {
	case OZext:
		r := p.rng(t.a, depth)
		if r.lo >= 0 {
			return r
		}
		if t.a.w() < 63 {
			return ival{0, int64(mask(t.a.sort))}
		}
	case OSext:
		return p.rng(t.a, depth)
	case OBvAdd:
		x, y := p.rng(t.a, depth), p.rng(t.b, depth)
		lo, ok1 := addOv(x.lo, y.lo)
		hi, ok2 := addOv(x.hi, y.hi)
		if ok1 && ok2 {
			return ival{lo, hi}
		}
	case OBvSub:
		x, y := p.rng(t.a, depth), p.rng(t.b, depth)
		if y.lo != math.MinInt64 {
			lo, ok1 := addOv(x.lo, -y.hi)
			hi, ok2 := addOv(x.hi, -y.lo)
			if ok1 && ok2 {
				return ival{lo, hi}
			}
		}
	case OBvMul:
		x, y := p.rng(t.a, depth), p.rng(t.b, depth)
		if x.lo >= 0 && y.lo >= 0 {
			lo, ok1 := mulOv(x.lo, y.lo)
			hi, ok2 := mulOv(x.hi, y.hi)
			if ok1 && ok2 {
				return ival{lo, hi}
			}
		} else if t.b.op == OConst && y.lo > 0 {
			lo, ok1 := mulOv(x.lo, y.lo)
			hi, ok2 := mulOv(x.hi, y.lo)
			if ok1 && ok2 {
				return ival{lo, hi}
			}
		}
	case OBvShl:
		if t.b.op == OConst && t.b.val < 62 {
			x := p.rng(t.a, depth)
			k := int64(1) << t.b.val
			lo, ok1 := mulOv(x.lo, k)
			hi, ok2 := mulOv(x.hi, k)
			if ok1 && ok2 {
				return ival{lo, hi}
			}
		}
	case OBvUdiv, OBvSdiv:
		x := p.rng(t.a, depth)
		if t.b.op == OConst && x.lo >= 0 {
			if k := sx(t.b.val, t.w()); k > 0 {
				return ival{x.lo / k, x.hi / k}
			}
		}
	case OBvUrem, OBvSrem:
		x := p.rng(t.a, depth)
		if t.b.op == OConst {
			if k := sx(t.b.val, t.w()); k > 0 {
				if x.lo >= 0 {
					h := k - 1
					if x.hi < h {
						h = x.hi
					}
					return ival{0, h}
				}
				if t.op == OBvUrem {
					return ival{0, k - 1}
				}
				return ival{-(k - 1), k - 1}
			}
		}
	case OBvAnd:
		if t.b.op == OConst {
			if k := sx(t.b.val, t.w()); k >= 0 {
				return ival{0, k}
			}
		}
	case OBvLshr:
		if t.b.op == OConst && t.b.val > 0 && t.b.val < uint64(t.w()) {
			x := p.rng(t.a, depth)
			if x.lo >= 0 {
				return ival{x.lo >> t.b.val, x.hi >> t.b.val}
			}
			return ival{0, int64(mask(t.sort) >> t.b.val)}
		}
	case OIte:
		x, y := p.rng(t.b, depth), p.rng(t.c, depth)
		if y.lo < x.lo {
			x.lo = y.lo
		}
		if y.hi > x.hi {
			x.hi = y.hi
		}
		return x
	case OExtract:
		if b, _, lo, ok := asExtract(t); ok && lo == 0 {
			x := p.rng(b, depth)
			if x.lo >= f.lo && x.hi <= f.hi {
				return x
			}
		}
	}
	return f
}

// mulConst splits t into z*c with the exact product on this path (no wraparound).
func (p *TermPool) mulConst(t *Term) (z *Term, c int64, ok bool) {
	switch {
	case t.op == OBvMul && t.b.op == OConst:
		z, c = t.a, sx(t.b.val, t.w())
	case t.op == OBvShl && t.b.op == OConst && t.b.val < 62:
		z, c = t.a, int64(1)<<t.b.val
	default:
		return nil, 0, false
	}
	if c <= 0 {
		return nil, 0, false
	}
	r := p.rng(z, 8)
	if r.lo < 0 {
		return nil, 0, false
	}
	h, k := mulOv(r.hi, c)
	if !k || h > full(t.w()).hi {
		return nil, 0, false
	}
	return z, c, true
}

// divSplit evaluates a / b and a % b for a non-negative a = z*c + y with b dividing c, using the path's intervals.
func (p *TermPool) divSplit(a, b *Term) (q, r *Term, ok bool) {
	if b.op != OConst {
		return
	}
	w := a.w()
	k := sx(b.val, w)
	if k <= 0 {
		return
	}
	ra := p.rng(a, 8)
	if ra.lo < 0 {
		return
	}
	if ra.hi < k {
		return p.BV(w, 0), a, true
	}
	if z, c, ok := p.mulConst(a); ok && c%k == 0 {
		return p.BvMul(z, p.BV(w, uint64(c/k))), p.BV(w, 0), true
	}
	if a.op == OBvAdd {
		for i := 0; i < 2; i++ {
			m, y := a.a, a.b
			if i == 1 {
				m, y = y, m
			}
			z, c, ok := p.mulConst(m)
			if !ok || c%k != 0 {
				continue
			}
			ry, rm := p.rng(y, 8), p.rng(m, 8)
			if ry.lo < 0 {
				continue
			}
			if h, ok := addOv(ry.hi, rm.hi); !ok || h > full(w).hi {
				continue
			}
			return p.BvAdd(p.BvMul(z, p.BV(w, uint64(c/k))), p.BvSdiv(y, b)), p.BvSrem(y, b), true
		}
	}
	return
}

// learn records the interval implied by an assumed atom.
func (p *TermPool) learn(c *Term) {
	neg := false
	if c.op == ONot {
		neg = true
		c = c.a
	}
	if c.op == OEq && !neg && c.a.sort != SBool && !c.a.sort.isFP() {
		x, k := c.a, c.b
		if x.op == OConst {
			x, k = k, x
		}
		if k.op == OConst && x.op != OConst {
			v := sx(k.val, k.w())
			p.setBnd(x, ival{v, v})
		}
		return
	}
	if c.op != OSlt && c.op != OUlt {
		return
	}
	a, b := c.a, c.b
	if b.op == OConst {
		v := sx(b.val, b.w())
		if c.op == OUlt {
			if v <= 0 {
				return
			}
			if !neg { // 0 <= a < v
				p.setBnd(a, ival{0, v - 1})
			} else if r := p.rng(a, 8); r.lo >= 0 {
				p.setBnd(a, ival{v, r.hi})
			}
			return
		}
		f := full(a.w())
		if !neg {
			p.setBnd(a, ival{f.lo, v - 1})
		} else {
			p.setBnd(a, ival{v, f.hi})
		}
	} else if a.op == OConst {
		v := sx(a.val, a.w())
		if c.op == OUlt {
			if v < 0 {
				return
			}
			if neg { // b <= v
				p.setBnd(b, ival{0, v})
			} else if r := p.rng(b, 8); r.lo >= 0 {
				p.setBnd(b, ival{v + 1, r.hi})
			}
			return
		}
		f := full(b.w())
		if !neg { // v < b
			if v < math.MaxInt64 {
				p.setBnd(b, ival{v + 1, f.hi})
			}
		} else {
			p.setBnd(b, ival{f.lo, v})
		}
	}
}

func (p *TermPool) setBnd(t *Term, n ival) {
	if p.bnd == nil {
		p.bnd = map[*Term]ival{}
	}
	if o, ok := p.bnd[t]; ok {
		if o.lo > n.lo {
			n.lo = o.lo
		}
		if o.hi < n.hi {
			n.hi = o.hi
		}
	}
	if n.lo <= n.hi {
		p.bnd[t] = n
	}
	// t = x + k or zext(x): the bound carries over
	if t.op == OZext && n.lo >= 0 && n.hi <= full(t.a.w()).hi {
		p.setBnd(t.a, ival{n.lo, n.hi})
	}
	if t.op == OSext {
		p.setBnd(t.a, n)
	}
}
