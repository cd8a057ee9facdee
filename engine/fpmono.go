package main

import "math"

// Comparisons of a constant with a monotone floating point function of one integer (conversion, then multiplication,
// division, addition with constants) or number are rewritten to a comparison of it with a threshold, found by bisection
// with native arithmetic.

type fpChain struct {
	base   *Term // the integer or number
	signed bool
	ops    []*Term // applied to the conversion, innermost first
}

func finiteConst(t *Term) (float64, bool) {
	if t.op != OConst {
		return 0, false
	}
	f := fval(t.sort, t.val)
	return f, !math.IsNaN(f) && !math.IsInf(f, 0)
}

func fpChainOf(t *Term) (*fpChain, bool) {
	var ops []*Term
	for {
		switch t.op {
		case OFpFromU, OFpFromS:
			c := &fpChain{base: t.a, signed: t.op == OFpFromS}
			for i := len(ops) - 1; i >= 0; i-- {
				c.ops = append(c.ops, ops[i])
			}
			c.ops = append([]*Term{t}, c.ops...)
			return c, true
		case OFpNeg:
			ops = append(ops, t)
			t = t.a
		case OFpToFp, OFpRti:
			ops = append(ops, t)
			t = t.a
		case OFpAdd, OFpSub, OFpMul, OFpDiv:
			x, y := t.a, t.b
			if c, ok := finiteConst(y); ok {
				if (t.op == OFpMul || t.op == OFpDiv) && c == 0 {
					return nil, false
				}
				ops = append(ops, t)
				t = x
				continue
			}
			if c, ok := finiteConst(x); ok && t.op != OFpDiv {
				if t.op == OFpMul && c == 0 {
					return nil, false
				}
				ops = append(ops, t)
				t = y
				continue
			}
			return nil, false
		case OVar, OFpOfBv:
			if len(ops) == 0 {
				return nil, false
			}
			c := &fpChain{base: t}
			for i := len(ops) - 1; i >= 0; i-- {
				c.ops = append(c.ops, ops[i])
			}
			return c, true
		default:
			return nil, false
		}
	}
}

// eval applies the chain to the integer with these bits.
func (c *fpChain) eval(p *TermPool, x uint64) float64 {
	var v *Term
	ops := c.ops
	if c.base.sort == SFP64 || c.base.sort == SFP32 {
		v = p.FP(c.base.sort, x)
	} else {
		v = p.FpFromInt(p.BV(c.base.w(), x), c.signed, ops[0].sort)
		ops = ops[1:]
	}
	for _, o := range ops {
		switch o.op {
		case OFpNeg:
			v = p.FpNeg(v)
		case OFpToFp:
			v = p.FpToFp(v, o.sort)
		case OFpRti:
			v = p.FpRti(v, o.val)
		default:
			if o.b.op == OConst {
				v = p.FpBin(o.op, v, o.b)
			} else {
				v = p.FpBin(o.op, o.a, v)
			}
		}
	}
	return fval(v.sort, v.val)
}

// where is the condition that pred holds of the chain's value; pred is monotone and false for NaN.
func (c *fpChain) where(p *TermPool, pred func(float64) bool) *Term {
	w := c.base.w()
	fp := c.base.sort == SFP64 || c.base.sort == SFP32
	if c.base.sort == SFP64 {
		w = 64
	} else if fp {
		w = 32
	}
	bits := func(i uint64) uint64 { // the i-th number from the least
		switch {
		case fp:
			if i >= 1<<uint(w-1) {
				return i &^ (1 << uint(w-1))
			}
			return ^i & mask(Sort(w))
		case c.signed:
			return i ^ (1 << uint(w-1))
		}
		return i
	}
	holds := func(i uint64) bool { return pred(c.eval(p, bits(i))) }
	lo, hi := uint64(0), mask(Sort(w))
	if fp { // from -Inf to +Inf
		inf := fbits(c.base.sort, math.Inf(1))
		lo, hi = ^(inf | 1<<uint(w-1)) & mask(Sort(w)), inf|1<<uint(w-1)
	}
	first := holds(lo)
	if holds(hi) == first {
		if fp && first {
			return p.Not(p.FpIsNaN(c.base))
		}
		return p.Bool(first)
	}
	for hi-lo > 1 {
		m := lo + (hi-lo)/2
		if holds(m) == first {
			lo = m
		} else {
			hi = m
		}
	}
	if fp {
		if first {
			return p.mk(OFpLe, SBool, c.base, p.FP(c.base.sort, bits(lo)), nil, 0)
		}
		return p.mk(OFpLe, SBool, p.FP(c.base.sort, bits(hi)), c.base, nil, 0)
	}
	var lt *Term
	if c.signed {
		lt = p.Slt(c.base, p.BV(w, bits(hi)))
	} else {
		lt = p.Ult(c.base, p.BV(w, bits(hi)))
	}
	if first {
		return lt
	}
	return p.Not(lt)
}

// fpMono is a op b as comparison of integers, if it is one of a chain and a constant.
func (p *TermPool) fpMono(op Op, a, b *Term) *Term {
	if b.op == OConst {
		k := fval(b.sort, b.val)
		if k != k {
			return p.False
		}
		if a.op == OFpAbs {
			if _, ok := fpChainOf(a.a); !ok {
				return nil
			}
			nb := p.FpNeg(b)
			switch op {
			case OFpLt, OFpLe:
				return p.And(p.FpCmp(op, a.a, b), p.FpCmp(op, nb, a.a))
			case OFpEq:
				if k < 0 {
					return p.False
				}
				return p.Or(p.FpCmp(op, a.a, b), p.FpCmp(op, a.a, nb))
			}
			return nil
		}
		c, ok := fpChainOf(a)
		if !ok {
			return nil
		}
		switch op {
		case OFpLt:
			return c.where(p, func(v float64) bool { return v < k })
		case OFpLe:
			return c.where(p, func(v float64) bool { return v <= k })
		case OFpEq:
			return p.And(c.where(p, func(v float64) bool { return v <= k }), c.where(p, func(v float64) bool { return v >= k }))
		}
		return nil
	}
	if a.op == OConst {
		k := fval(a.sort, a.val)
		if k != k {
			return p.False
		}
		switch op {
		case OFpEq:
			return p.fpMono(op, b, a)
		case OFpLt, OFpLe:
			if b.op == OFpAbs {
				if _, ok := fpChainOf(b.a); !ok {
					return nil
				}
				na := p.FpNeg(a)
				return p.Or(p.FpCmp(op, a, b.a), p.FpCmp(op, b.a, na))
			}
			c, ok := fpChainOf(b)
			if !ok {
				return nil
			}
			if op == OFpLt {
				return c.where(p, func(v float64) bool { return k < v })
			}
			return c.where(p, func(v float64) bool { return k <= v })
		}
	}
	return nil
}
