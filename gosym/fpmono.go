package main

import "math"

// Comparisons of a monotone function of one value with a constant, replaced by a comparison of the value
// itself with the exact threshold (found by bisection over the floats or the integers, with the very
// arithmetic that the function stands for).

var fpOrdInf = int64(math.Float64bits(math.Inf(1)))

// fpOfOrd enumerates the floats without NaN in order; both zeros are number 0.
func fpOfOrd(n int64) float64 {
	if n >= 0 {
		return math.Float64frombits(uint64(n))
	}
	return math.Float64frombits(1<<63 | uint64(-n))
}

// fpMono returns the argument x of t = g(x) and g, if g is monotone on the non-NaN floats.
func fpMono(t *Term) (x *Term, g func(float64) float64, down bool) {
	fin := func(t *Term) (float64, bool) {
		if !t.isConst() {
			return 0, false
		}
		f := math.Float64frombits(t.val)
		return f, !math.IsNaN(f) && !math.IsInf(f, 0)
	}
	switch t.op {
	case OpFpMul:
		for _, s := range [][2]*Term{{t.a, t.b}, {t.b, t.a}} {
			if k, ok := fin(s[0]); ok && k != 0 {
				return s[1], func(v float64) float64 { return v * k }, k < 0
			}
		}
	case OpFpDiv:
		if k, ok := fin(t.b); ok && k != 0 {
			return t.a, func(v float64) float64 { return v / k }, k < 0
		}
	case OpFpAdd:
		for _, s := range [][2]*Term{{t.a, t.b}, {t.b, t.a}} {
			if k, ok := fin(s[0]); ok {
				return s[1], func(v float64) float64 { return v + k }, false
			}
		}
	case OpFpSub:
		if k, ok := fin(t.b); ok {
			return t.a, func(v float64) float64 { return v - k }, false
		}
		if k, ok := fin(t.a); ok {
			return t.b, func(v float64) float64 { return k - v }, true
		}
	case OpFpNeg:
		return t.a, func(v float64) float64 { return -v }, true
	case OpFpRti:
		switch t.val {
		case 0:
			return t.a, math.Floor, false
		case 1:
			return t.a, math.Ceil, false
		case 2:
			return t.a, math.Trunc, false
		case 3:
			return t.a, math.Round, false
		case 4:
			return t.a, math.RoundToEven, false
		}
	}
	return nil, nil, false
}

// fpThreshold rewrites (a op b) with one constant side; nil if it does not apply.
func (c *TermCtx) fpThreshold(op Op, a, b *Term) *Term {
	left := b.isConst() // g(x) op k, otherwise k op g(x)
	t, kt := a, b
	if !left {
		t, kt = b, a
	}
	if t.isConst() || !kt.isConst() {
		return nil
	}
	k := math.Float64frombits(kt.val)
	if math.IsNaN(k) {
		return c.tFalse
	}
	if op == OpFpEq {
		switch t.op {
		case OpFpMul, OpFpDiv, OpFpAdd, OpFpSub, OpFpNeg, OpFpRti, OpSbvToFp, OpUbvToFp:
		default:
			return nil
		}
		x := c.fpThreshold(OpFpLe, t, kt)
		if x == nil {
			return nil
		}
		return c.And(x, c.fpThreshold(OpFpLe, kt, t))
	}
	cmp := func(v float64) bool {
		l, r := v, k
		if !left {
			l, r = k, v
		}
		if op == OpFpLt {
			return l < r
		}
		return l <= r
	}
	if t.op == OpSbvToFp || t.op == OpUbvToFp {
		w := t.a.w
		if w > 64 {
			return nil
		}
		if t.op == OpUbvToFp {
			lo, hi := uint64(0), mask(w)
			p := func(n uint64) bool { return cmp(float64(n)) }
			if p(lo) == p(hi) {
				return c.Bool(p(lo))
			}
			for lo+1 < hi { // p(lo) != p(hi)
				if m := lo + (hi-lo)/2; p(m) == p(lo) {
					lo = m
				} else {
					hi = m
				}
			}
			r := c.Cmp(OpBvUle, t.a, c.Const(w, lo))
			if !left {
				r = c.Not(r)
			}
			return r
		}
		lo, hi := int64(-1)<<uint(w-1), int64(mask(w)>>1)
		p := func(n int64) bool { return cmp(float64(n)) }
		if p(lo) == p(hi) {
			return c.Bool(p(lo))
		}
		for lo+1 < hi || lo < 0 && hi > 0 && hi-lo < 0 {
			if m := (lo & hi) + (lo^hi)>>1; p(m) == p(lo) {
				lo = m
			} else {
				hi = m
			}
		}
		r := c.Cmp(OpBvSle, t.a, c.Const(w, uint64(lo)&mask(w)))
		if !left {
			r = c.Not(r)
		}
		return r
	}
	x, g, down := fpMono(t)
	if x == nil {
		return nil
	}
	p := func(n int64) bool { return cmp(g(fpOfOrd(n))) }
	lo, hi := -fpOrdInf, fpOrdInf
	if p(lo) == p(hi) {
		if !p(lo) {
			return c.tFalse
		}
		return c.Not(c.FpUn(OpFpIsNaN, x, 0))
	}
	for lo+1 < hi || lo < 0 && hi-lo < 0 {
		if m := (lo & hi) + (lo^hi)>>1; p(m) == p(lo) {
			lo = m
		} else {
			hi = m
		}
	}
	if left != down { // true below
		return c.FpCmp(OpFpLe, x, c.FP(fpOfOrd(lo)))
	}
	return c.FpCmp(OpFpLe, c.FP(fpOfOrd(hi)), x)
}

// truncCmp rewrites a comparison of a converted float with a constant; nil if it does not apply.
// The conversion is guarded by its range, so only values that fit matter.
func (c *TermCtx) truncCmp(op Op, a, b *Term) *Term {
	left := b.isConst()
	t, kt := a, b
	if !left {
		t, kt = b, a
	}
	if t.isConst() || !kt.isConst() || t.w > 64 {
		return nil
	}
	if t.op == OpIte && t.sz < 4096 && convLeaf(t) {
		if left {
			return c.Ite(t.a, c.Cmp(op, t.b, kt), c.Cmp(op, t.c, kt))
		}
		return c.Ite(t.a, c.Cmp(op, kt, t.b), c.Cmp(op, kt, t.c))
	}
	if t.op != OpFpToSbv || op != OpBvSlt && op != OpBvSle {
		return nil
	}
	k := sext64(kt.val, t.w)
	if k > 1<<52 || k < -1<<52 {
		return nil
	}
	// trunc(x) < m
	less := func(m int64) *Term {
		if m > 0 {
			return c.FpCmp(OpFpLt, t.a, c.FP(float64(m)))
		}
		return c.FpCmp(OpFpLe, t.a, c.FP(float64(m-1)))
	}
	switch {
	case left && op == OpBvSlt:
		return less(k)
	case left:
		return less(k + 1)
	case op == OpBvSlt: // k < t
		return c.Not(less(k + 1))
	}
	return c.Not(less(k))
}

func convLeaf(t *Term) bool {
	for t.op == OpIte {
		switch {
		case t.b.isConst():
			t = t.c
		case t.c.isConst():
			t = t.b
		default:
			return false
		}
	}
	return t.op == OpFpToSbv
}
