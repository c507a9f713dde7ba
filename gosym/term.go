package main

// Hash-consed SMT terms: booleans, bit-vectors (1..128 bits) and binary64 floats,
// with local simplification, evaluation under a model and SMT-LIB printing.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpIte
	OpEq
	OpBvAdd
	OpBvSub
	OpBvMul
	OpBvUdiv
	OpBvSdiv
	OpBvUrem
	OpBvSrem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvNot
	OpBvNeg
	OpBvShl
	OpBvLshr
	OpBvAshr
	OpBvUlt
	OpBvUle
	OpBvSlt
	OpBvSle
	OpConcat
	OpExtract // val = lo, w = width
	OpZext
	OpSext
	OpFpOfBits // bv64 -> fp
	OpFpAdd
	OpFpSub
	OpFpMul
	OpFpDiv
	OpFpNeg
	OpFpAbs
	OpFpLt
	OpFpLe
	OpFpEq
	OpFpIsNaN
	OpFpRti   // val: 0 RTN (floor) 1 RTP (ceil) 2 RTZ (trunc)
	OpFpToSbv // RTZ, w
	OpFpToUbv // RTZ, w
	OpSbvToFp // RNE
	OpUbvToFp
	OpFpSqrt
)

const (
	SortBool = 0
	SortFP   = -64
)

type Term struct {
	op      Op
	w       int32 // >0 bit-vector width, 0 bool, -64 fp
	id      int32
	val     uint64 // constant (w<=64), extract lo, rounding kind
	a, b, c *Term
	name    string
	// evaluation memo
	evGen uint64
	evVal uint64
	evBig *big.Int
	// printing
	defined uint32 // solver generation in which this node was defined
	sz      int32
	// unsigned range memo
	ranged bool
	lo, hi uint64
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

type termKey struct {
	op      Op
	w       int32
	val     uint64
	a, b, c int32
}

type TermCtx struct {
	tab    map[termKey]*Term
	vars   map[string]*Term
	varLst []*Term
	nextID int32
	tTrue  *Term
	tFalse *Term
	gen    uint64
	abs    map[*Term]*Term
	ari    map[*Term]bool
	fps    map[*Term]bool
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, vars: map[string]*Term{}, nextID: 1}
	c.tTrue = c.Const(0, 1)
	c.tFalse = c.Const(0, 0)
	return c
}

func mask(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (c *TermCtx) mk(op Op, w int32, val uint64, a, b, d *Term) *Term {
	k := termKey{op: op, w: w, val: val}
	var sz int32 = 1
	if a != nil {
		k.a = a.id
		sz += a.sz
	}
	if b != nil {
		k.b = b.id
		sz += b.sz
	}
	if d != nil {
		k.c = d.id
		sz += d.sz
	}
	if sz < 0 || sz > 1<<28 {
		sz = 1 << 28
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, a: a, b: b, c: d, id: c.nextID, sz: sz}
	c.nextID++
	c.tab[k] = t
	return t
}

func (c *TermCtx) Const(w int32, v uint64) *Term {
	if w > 0 {
		v &= mask(w)
	}
	return c.mk(OpConst, w, v, nil, nil, nil)
}

func (c *TermCtx) FP(f float64) *Term {
	return c.mk(OpConst, SortFP, math.Float64bits(f), nil, nil, nil)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

// Var returns the variable with the given name; it must always be used with the same sort.
func (c *TermCtx) Var(name string, w int32) *Term {
	if t, ok := c.vars[name]; ok {
		if t.w != w {
			// same name, another width (different paths declare differently): mangle
			return c.Var(fmt.Sprintf("%s~%d", name, w), w)
		}
		return t
	}
	t := &Term{op: OpVar, w: w, name: name, id: c.nextID, sz: 1}
	c.nextID++
	c.vars[name] = t
	c.varLst = append(c.varLst, t)
	return t
}

func sext64(v uint64, w int32) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// ---- constructors with simplification ----

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	return c.mk(OpNot, 0, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.tFalse
	}
	return c.mk(OpAnd, 0, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return c.tTrue
	}
	return c.mk(OpOr, 0, 0, a, b, nil)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return cond
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(cond)
		}
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.a, b, a)
	}
	return c.mk(OpIte, a.w, 0, cond, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b && a.w != SortFP {
		return c.tTrue
	}
	if a.isConst() && b.isConst() && a.w <= 64 && a.w >= 0 {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 && b.isConst() {
		if b.val == 1 {
			return a
		}
		return c.Not(a)
	}
	if b.isConst() && a.w > 0 && a.w <= 64 {
		switch a.op {
		case OpFpToSbv:
			if k := sext64(b.val, a.w); k < 1<<52 && k > -1<<52 {
				return c.And(c.Cmp(OpBvSle, b, a), c.Cmp(OpBvSle, a, b))
			}
		case OpZext:
			iw := a.a.w
			if iw < 64 && b.val>>uint(iw) != 0 {
				return c.tFalse
			}
			return c.Eq(a.a, c.Const(iw, b.val))
		case OpSext:
			iw := a.a.w
			if uint64(sext64(b.val&mask(iw), iw))&mask(a.w) != b.val {
				return c.tFalse
			}
			return c.Eq(a.a, c.Const(iw, b.val))
		case OpBvAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
			}
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				if a.b.val == b.val {
					if a.c.val == b.val {
						return c.tTrue
					}
					return a.a
				}
				if a.c.val == b.val {
					return c.Not(a.a)
				}
				return c.tFalse
			}
			if a.b.isConst() {
				if a.b.val != b.val {
					return c.And(c.Not(a.a), c.Eq(a.c, b))
				}
				return c.Or(a.a, c.Eq(a.c, b))
			}
			if a.c.isConst() {
				if a.c.val != b.val {
					return c.And(a.a, c.Eq(a.b, b))
				}
				return c.Or(c.Not(a.a), c.Eq(a.b, b))
			}
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b, nil)
}

func foldBin(op Op, w int32, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpBvAdd:
		return (x + y) & m, true
	case OpBvSub:
		return (x - y) & m, true
	case OpBvMul:
		return (x * y) & m, true
	case OpBvUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpBvUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpBvSdiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpBvSrem:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBvAnd:
		return x & y, true
	case OpBvOr:
		return x | y, true
	case OpBvXor:
		return x ^ y, true
	case OpBvShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpBvLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpBvAshr:
		s := sext64(x, w)
		if y >= uint64(w) {
			y = 63
		}
		return uint64(s>>y) & m, true
	}
	return 0, false
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d in op %d", a.w, b.w, op))
	}
	if w <= 64 {
		if a.isConst() && b.isConst() {
			if v, ok := foldBin(op, w, a.val, b.val); ok {
				return c.Const(w, v)
			}
		}
		switch op {
		case OpBvAdd:
			if a.isConst() {
				a, b = b, a
			}
			if b.isConst() {
				if b.val == 0 {
					return a
				}
				if a.op == OpBvAdd && a.b.isConst() {
					return c.Bin(OpBvAdd, a.a, c.Const(w, a.b.val+b.val))
				}
				if a.op == OpIte && a.b.isConst() && a.c.isConst() {
					return c.Ite(a.a, c.Const(w, a.b.val+b.val), c.Const(w, a.c.val+b.val))
				}
			} else {
				// (x+k)+y -> (x+y)+k
				if a.op == OpBvAdd && a.b.isConst() {
					return c.Bin(OpBvAdd, c.Bin(OpBvAdd, a.a, b), a.b)
				}
				if b.op == OpBvAdd && b.b.isConst() {
					return c.Bin(OpBvAdd, c.Bin(OpBvAdd, a, b.a), b.b)
				}
				// x + (y - x) -> y
				if b.op == OpBvSub && b.b == a {
					return b.a
				}
				if a.op == OpBvSub && a.b == b {
					return a.a
				}
				if a.id > b.id {
					a, b = b, a
				}
			}
		case OpBvSub:
			if a == b {
				return c.Const(w, 0)
			}
			if b.isConst() {
				return c.Bin(OpBvAdd, a, c.Const(w, -b.val))
			}
			// (x+y)-x -> y ; (x+k)-y
			if a.op == OpBvAdd {
				if a.a == b {
					return a.b
				}
				if a.b == b {
					return a.a
				}
				if a.b.isConst() {
					return c.Bin(OpBvAdd, c.Bin(OpBvSub, a.a, b), a.b)
				}
			}
			if b.op == OpBvAdd && b.b.isConst() {
				return c.Bin(OpBvAdd, c.Bin(OpBvSub, a, b.a), c.Const(w, -b.b.val))
			}
		case OpBvMul:
			if a.isConst() {
				a, b = b, a
			}
			if b.isConst() {
				if b.val == 0 {
					return b
				}
				if b.val == 1 {
					return a
				}
				if a.op == OpBvMul && a.b.isConst() {
					return c.Bin(OpBvMul, a.a, c.Const(w, a.b.val*b.val))
				}
			} else if a.id > b.id {
				a, b = b, a
			}
		case OpBvUdiv, OpBvSdiv:
			if b.isConst() && b.val == 1 {
				return a
			}
		case OpBvUrem:
			if b.isConst() && b.val != 0 {
				if _, h := a.urange(); h < b.val {
					return a
				}
			}
			if b.isConst() && b.val != 0 && b.val&(b.val-1) == 0 {
				n := int32(bits.TrailingZeros64(b.val))
				if n == 0 {
					return c.Const(w, 0)
				}
				return c.Zext(c.Extract(a, 0, n), w)
			}
		case OpBvAnd:
			if a.isConst() {
				a, b = b, a
			}
			if a == b {
				return a
			}
			if b.isConst() {
				if b.val == 0 {
					return b
				}
				if b.val == mask(w) {
					return a
				}
				if b.val&(b.val+1) == 0 { // low mask
					n := int32(bits.Len64(b.val))
					return c.Zext(c.Extract(a, 0, n), w)
				}
			}
		case OpBvOr:
			if a.isConst() {
				a, b = b, a
			}
			if a == b {
				return a
			}
			if b.isConst() {
				if b.val == 0 {
					return a
				}
				if b.val == mask(w) {
					return b
				}
			} else if w <= 64 {
				if t := c.join(a, b); t != nil {
					return t
				}
				if a.op == OpBvOr {
					if t := c.join(a.a, b); t != nil {
						return c.Bin(OpBvOr, t, a.b)
					}
					if t := c.join(a.b, b); t != nil {
						return c.Bin(OpBvOr, a.a, t)
					}
				}
				if b.op == OpBvOr {
					if t := c.join(b.a, a); t != nil {
						return c.Bin(OpBvOr, t, b.b)
					}
					if t := c.join(b.b, a); t != nil {
						return c.Bin(OpBvOr, b.a, t)
					}
				}
			}
		case OpBvXor:
			if a.isConst() {
				a, b = b, a
			}
			if a == b {
				return c.Const(w, 0)
			}
			if b.isConst() && b.val == 0 {
				return a
			}
		case OpBvShl, OpBvLshr, OpBvAshr:
			if b.isConst() && b.val == 0 {
				return a
			}
			if b.isConst() && op == OpBvLshr && b.val < uint64(w) {
				return c.Zext(c.Extract(a, int32(b.val), w-int32(b.val)), w)
			}
			if b.isConst() && op == OpBvAshr && b.val < uint64(w) {
				return c.Sext(c.Extract(a, int32(b.val), w-int32(b.val)), w)
			}
			if b.isConst() && b.val >= uint64(w) && op != OpBvAshr {
				return c.Const(w, 0)
			}
		}
	}
	return c.mk(op, w, 0, a, b, nil)
}

// piece reads t as the bits [lo, lo+n) of x, shifted left by s.
func (t *Term) piece() (x *Term, lo, n, s int32, ok bool) {
	w := t.w
	if t.op == OpBvShl && t.b.isConst() && t.b.val < uint64(w) {
		s = int32(t.b.val)
		t = t.a
	}
	if t.op == OpZext {
		t = t.a
	}
	switch {
	case t.op == OpExtract:
		x, lo, n = t.a, int32(t.val), t.w
	case t.w < w:
		x, n = t, t.w
	default:
		return
	}
	ok = x.w <= 64 && s+n <= w
	return
}

// join puts two adjacent pieces of one term together.
func (c *TermCtx) join(a, b *Term) *Term {
	w := a.w
	x, l1, n1, s1, ok := a.piece()
	if !ok {
		return nil
	}
	y, l2, n2, s2, ok := b.piece()
	if !ok || x != y {
		return nil
	}
	if l2 < l1 {
		l1, n1, s1, l2, n2, s2 = l2, n2, s2, l1, n1, s1
	}
	if l1+n1 != l2 || s1+n1 != s2 {
		return nil
	}
	return c.Bin(OpBvShl, c.Zext(c.Extract(x, l1, n1+n2), w), c.Const(w, uint64(s1)))
}

// urange bounds a term's unsigned value as far as its structure shows.
func (t *Term) urange() (lo, hi uint64) {
	if t.w > 64 || t.w <= 0 {
		return 0, ^uint64(0)
	}
	if t.op == OpConst {
		return t.val, t.val
	}
	if !t.ranged {
		t.lo, t.hi = t.range1()
		t.ranged = true
	}
	return t.lo, t.hi
}

func (t *Term) range1() (lo, hi uint64) {
	m := mask(t.w)
	switch t.op {
	case OpZext:
		return t.a.urange()
	case OpIte:
		if t.sz > 100000 && !(t.b.ranged && t.c.ranged) {
			return 0, m
		}
		l1, h1 := t.b.urange()
		l2, h2 := t.c.urange()
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case OpBvUrem:
		_, h := t.a.urange()
		if t.b.isConst() && t.b.val != 0 && t.b.val-1 < h {
			h = t.b.val - 1
		}
		return 0, h
	case OpBvUdiv:
		if t.b.isConst() && t.b.val != 0 {
			l, h := t.a.urange()
			return l / t.b.val, h / t.b.val
		}
	case OpBvAdd:
		l1, h1 := t.a.urange()
		l2, h2 := t.b.urange()
		if s, carry := bits.Add64(h1, h2, 0); carry == 0 && s <= m {
			return l1 + l2, s
		}
	case OpBvMul:
		l1, h1 := t.a.urange()
		l2, h2 := t.b.urange()
		if over, p := bits.Mul64(h1, h2); over == 0 && p <= m {
			return l1 * l2, p
		}
	case OpBvAnd:
		_, h1 := t.a.urange()
		_, h2 := t.b.urange()
		if h2 < h1 {
			h1 = h2
		}
		return 0, h1
	case OpBvOr, OpBvXor:
		_, h1 := t.a.urange()
		_, h2 := t.b.urange()
		n := bits.Len64(h1 | h2)
		if n < 64 {
			return 0, uint64(1)<<uint(n) - 1
		}
	case OpBvLshr:
		if t.b.isConst() && t.b.val < 64 {
			l, h := t.a.urange()
			return l >> t.b.val, h >> t.b.val
		}
	case OpExtract:
		if t.val == 0 && t.a.w <= 64 {
			l, h := t.a.urange()
			if h <= m {
				return l, h
			}
		}
	}
	return 0, m
}

func (c *TermCtx) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d in cmp %d", a.w, b.w, op))
	}
	w := a.w
	if a == b {
		return c.Bool(op == OpBvUle || op == OpBvSle)
	}
	if a.isConst() != b.isConst() {
		if t := c.truncCmp(op, a, b); t != nil {
			return t
		}
	}
	if w <= 64 {
		if a.isConst() && b.isConst() {
			switch op {
			case OpBvUlt:
				return c.Bool(a.val < b.val)
			case OpBvUle:
				return c.Bool(a.val <= b.val)
			case OpBvSlt:
				return c.Bool(sext64(a.val, w) < sext64(b.val, w))
			case OpBvSle:
				return c.Bool(sext64(a.val, w) <= sext64(b.val, w))
			}
		}
		if a.isConst() || b.isConst() {
			l1, h1 := a.urange()
			l2, h2 := b.urange()
			half := mask(w)>>1 + 1
			sg := op == OpBvSlt || op == OpBvSle
			if !sg || (h1 < half && h2 < half) {
				if op == OpBvUlt || op == OpBvSlt {
					if h1 < l2 {
						return c.tTrue
					}
					if l1 >= h2 {
						return c.tFalse
					}
				} else {
					if h1 <= l2 {
						return c.tTrue
					}
					if l1 > h2 {
						return c.tFalse
					}
				}
				if sg { // prefer unsigned on small values
					if op == OpBvSlt {
						op = OpBvUlt
					} else {
						op = OpBvUle
					}
				}
			} else if sg && h1 < half && b.isConst() && b.val >= half { // nonneg < neg
				return c.tFalse
			} else if sg && h2 < half && a.isConst() && a.val >= half {
				return c.tTrue
			}
			if op == OpBvUlt || op == OpBvUle {
				if a.op == OpZext && b.isConst() && b.val <= mask(a.a.w) {
					return c.Cmp(op, a.a, c.Const(a.a.w, b.val))
				}
				if b.op == OpZext && a.isConst() && a.val <= mask(b.a.w) {
					return c.Cmp(op, c.Const(b.a.w, a.val), b.a)
				}
			}
		}
	}
	// canonical: a<=b as not(b<a)
	if op == OpBvUle {
		return c.Not(c.mk(OpBvUlt, 0, 0, b, a, nil))
	}
	if op == OpBvSle {
		return c.Not(c.mk(OpBvSlt, 0, 0, b, a, nil))
	}
	return c.mk(op, 0, 0, a, b, nil)
}

func (c *TermCtx) BvNot(a *Term) *Term {
	if a.isConst() && a.w <= 64 {
		return c.Const(a.w, ^a.val)
	}
	if a.op == OpBvNot {
		return a.a
	}
	return c.mk(OpBvNot, a.w, 0, a, nil, nil)
}

func (c *TermCtx) BvNeg(a *Term) *Term {
	if a.isConst() && a.w <= 64 {
		return c.Const(a.w, -a.val)
	}
	return c.mk(OpBvNeg, a.w, 0, a, nil, nil)
}

func (c *TermCtx) Extract(a *Term, lo, w int32) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.isConst() && a.w <= 64 {
		return c.Const(w, a.val>>uint(lo))
	}
	if a.w <= 64 && a.w > 0 {
		if _, h := a.urange(); lo < 64 && h>>uint(lo) == 0 {
			return c.Const(w, 0)
		}
	}
	switch a.op {
	case OpExtract:
		return c.Extract(a.a, lo+int32(a.val), w)
	case OpZext:
		iw := a.a.w
		if lo+w <= iw {
			return c.Extract(a.a, lo, w)
		}
		if lo >= iw {
			return c.Const(w, 0)
		}
		return c.Zext(c.Extract(a.a, lo, iw-lo), w)
	case OpSext:
		iw := a.a.w
		if lo+w <= iw {
			return c.Extract(a.a, lo, w)
		}
		if lo < iw {
			return c.Sext(c.Extract(a.a, lo, iw-lo), w)
		}
	case OpConcat: // a.a high, a.b low
		lw := a.b.w
		if lo+w <= lw {
			return c.Extract(a.b, lo, w)
		}
		if lo >= lw {
			return c.Extract(a.a, lo-lw, w)
		}
	case OpIte:
		if a.b.isConst() || a.c.isConst() {
			return c.Ite(a.a, c.Extract(a.b, lo, w), c.Extract(a.c, lo, w))
		}
	case OpBvOr, OpBvAnd, OpBvXor:
		if a.w <= 64 {
			return c.Bin(a.op, c.Extract(a.a, lo, w), c.Extract(a.b, lo, w))
		}
	case OpBvShl:
		if a.b.isConst() && a.w <= 64 {
			s := int32(a.b.val)
			if lo >= s {
				return c.Extract(a.a, lo-s, w)
			}
			if lo+w <= s {
				return c.Const(w, 0)
			}
		}
	case OpBvAdd, OpBvSub, OpBvMul:
		// a byte of a wider sum is left as it is, so that the bytes can be put together again
		if lo == 0 && a.w <= 64 && w != 8 && w != 16 {
			return c.Bin(a.op, c.Extract(a.a, 0, w), c.Extract(a.b, 0, w))
		}
	}
	return c.mk(OpExtract, w, uint64(lo), a, nil, nil)
}

func (c *TermCtx) Zext(a *Term, w int32) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() && w <= 64 {
		return c.Const(w, a.val)
	}
	if a.op == OpExtract && a.val == 0 && a.a.w == w && w <= 64 {
		if _, h := a.a.urange(); h <= mask(a.w) {
			return a.a
		}
	}
	if a.op == OpZext {
		return c.Zext(a.a, w)
	}
	if a.op == OpIte && w <= 64 && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.Zext(a.b, w), c.Zext(a.c, w))
	}
	return c.mk(OpZext, w, 0, a, nil, nil)
}

func (c *TermCtx) Sext(a *Term, w int32) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() && w <= 64 {
		return c.Const(w, uint64(sext64(a.val, a.w)))
	}
	if a.op == OpSext {
		return c.Sext(a.a, w)
	}
	if a.op == OpZext && a.a.w < a.w {
		return c.Zext(a.a, w)
	}
	return c.mk(OpSext, w, 0, a, nil, nil)
}

func (c *TermCtx) BoolToBv(b *Term, w int32) *Term {
	return c.Ite(b, c.Const(w, 1), c.Const(w, 0))
}

// ---- floating point ----

func (c *TermCtx) FpOfBits(a *Term) *Term {
	if a.isConst() {
		return c.mk(OpConst, SortFP, a.val, nil, nil, nil)
	}
	return c.mk(OpFpOfBits, SortFP, 0, a, nil, nil)
}

func finite(t *Term) bool { f := math.Float64frombits(t.val); return f-f == 0 }

// fpZero: an integer converted to a float, or a constant, is zero.
func (c *TermCtx) fpZero(t *Term) *Term {
	if t.isConst() {
		return c.Bool(math.Float64frombits(t.val) == 0)
	}
	return c.Eq(t.a, c.Const(t.a.w, 0))
}

func fpBin(op Op, x, y float64) float64 {
	switch op {
	case OpFpAdd:
		return x + y
	case OpFpSub:
		return x - y
	case OpFpMul:
		return x * y
	case OpFpDiv:
		return x / y
	}
	panic("fpBin")
}

func (c *TermCtx) FpBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.FP(fpBin(op, math.Float64frombits(a.val), math.Float64frombits(b.val)))
	}
	if (op == OpFpMul || op == OpFpAdd) && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, SortFP, 0, a, b, nil)
}

func (c *TermCtx) FpCmp(op Op, a, b *Term) *Term {
	if a == b {
		if op == OpFpLt {
			return c.tFalse
		}
		return c.Not(c.FpUn(OpFpIsNaN, a, 0))
	}
	if a.isConst() && b.isConst() {
		x, y := math.Float64frombits(a.val), math.Float64frombits(b.val)
		switch op {
		case OpFpLt:
			return c.Bool(x < y)
		case OpFpLe:
			return c.Bool(x <= y)
		case OpFpEq:
			return c.Bool(x == y)
		}
	}
	if a.op == OpIte && b.isConst() && a.sz < 64 && a.b.isConst() != a.c.isConst() {
		return c.Ite(a.a, c.FpCmp(op, a.b, b), c.FpCmp(op, a.c, b))
	}
	if a.isConst() != b.isConst() {
		if t := c.fpThreshold(op, a, b); t != nil {
			return t
		}
	}
	return c.mk(op, 0, 0, a, b, nil)
}

func (c *TermCtx) FpUn(op Op, a *Term, k uint64) *Term {
	if a.isConst() {
		x := math.Float64frombits(a.val)
		switch op {
		case OpFpNeg:
			return c.FP(-x)
		case OpFpAbs:
			return c.FP(math.Abs(x))
		case OpFpIsNaN:
			return c.Bool(x != x)
		case OpFpSqrt:
			return c.FP(math.Sqrt(x))
		case OpFpRti:
			switch k {
			case 0:
				return c.FP(math.Floor(x))
			case 1:
				return c.FP(math.Ceil(x))
			case 2:
				return c.FP(math.Trunc(x))
			case 3:
				return c.FP(math.Round(x))
			case 4:
				return c.FP(math.RoundToEven(x))
			}
		}
	}
	w := int32(SortFP)
	if op == OpFpIsNaN {
		w = 0
		fin := func(t *Term) bool { return t.op == OpSbvToFp || t.op == OpUbvToFp || t.isConst() && finite(t) }
		if fin(a) {
			return c.tFalse
		}
		switch a.op {
		case OpFpAdd, OpFpSub, OpFpMul:
			if fin(a.a) && fin(a.b) {
				return c.tFalse
			}
		case OpFpDiv:
			if fin(a.a) && fin(a.b) {
				return c.And(c.fpZero(a.a), c.fpZero(a.b))
			}
		}
		if a.op == OpIte && (a.b.isConst() || a.c.isConst()) {
			return c.Ite(a.a, c.FpUn(op, a.b, k), c.FpUn(op, a.c, k))
		}
	}
	return c.mk(op, w, k, a, nil, nil)
}

// FpToSbv truncates; the caller guards the range.
func (c *TermCtx) FpToBv(op Op, a *Term, w int32) *Term {
	if a.isConst() {
		x := math.Float64frombits(a.val)
		if op == OpFpToSbv {
			return c.Const(w, uint64(int64(x)))
		}
		return c.Const(w, uint64(x))
	}
	if a.op == OpSbvToFp && op == OpFpToSbv && a.a.w <= 53 && a.a.w <= w {
		return c.Sext(a.a, w)
	}
	return c.mk(op, w, 0, a, nil, nil)
}

func (c *TermCtx) BvToFp(op Op, a *Term) *Term {
	if a.isConst() && a.w <= 64 {
		if op == OpSbvToFp {
			return c.FP(float64(sext64(a.val, a.w)))
		}
		return c.FP(float64(a.val))
	}
	return c.mk(op, SortFP, 0, a, nil, nil)
}

// ---- evaluation ----

// Model assigns variables by name (missing ones are 0), so that it can move between workers.
type Model struct {
	vals map[string]uint64
	gen  uint64
}

func (c *TermCtx) NewModel(vals map[string]uint64) *Model {
	c.gen++
	return &Model{vals: vals, gen: c.gen}
}

func (m *Model) EvalBool(t *Term) bool { return m.Eval(t) != 0 }

// Eval evaluates a term of width <= 64 (fp: its bits).
func (m *Model) Eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evGen == m.gen && t.w <= 64 {
		return t.evVal
	}
	if t.w > 64 {
		panic("Eval of wide term")
	}
	var v uint64
	switch t.op {
	case OpVar:
		v = m.vals[t.name]
	case OpNot:
		v = m.Eval(t.a) ^ 1
	case OpAnd:
		v = 0
		if m.Eval(t.a) != 0 {
			v = m.Eval(t.b)
		}
	case OpOr:
		v = 1
		if m.Eval(t.a) == 0 {
			v = m.Eval(t.b)
		}
	case OpIte:
		if m.Eval(t.a) != 0 {
			v = m.Eval(t.b)
		} else {
			v = m.Eval(t.c)
		}
	case OpEq:
		if t.a.w > 64 {
			v = b2u(m.EvalBig(t.a).Cmp(m.EvalBig(t.b)) == 0)
		} else {
			v = b2u(m.Eval(t.a) == m.Eval(t.b))
		}
	case OpBvAdd, OpBvSub, OpBvMul, OpBvUdiv, OpBvSdiv, OpBvUrem, OpBvSrem, OpBvAnd, OpBvOr, OpBvXor, OpBvShl, OpBvLshr, OpBvAshr:
		v, _ = foldBin(t.op, t.w, m.Eval(t.a), m.Eval(t.b))
	case OpBvNot:
		v = ^m.Eval(t.a) & mask(t.w)
	case OpBvNeg:
		v = -m.Eval(t.a) & mask(t.w)
	case OpBvUlt:
		if t.a.w > 64 {
			v = b2u(m.EvalBig(t.a).Cmp(m.EvalBig(t.b)) < 0)
		} else {
			v = b2u(m.Eval(t.a) < m.Eval(t.b))
		}
	case OpBvUle:
		if t.a.w > 64 {
			v = b2u(m.EvalBig(t.a).Cmp(m.EvalBig(t.b)) <= 0)
		} else {
			v = b2u(m.Eval(t.a) <= m.Eval(t.b))
		}
	case OpBvSlt:
		if t.a.w > 64 {
			v = b2u(toSigned(m.EvalBig(t.a), t.a.w).Cmp(toSigned(m.EvalBig(t.b), t.a.w)) < 0)
		} else {
			v = b2u(sext64(m.Eval(t.a), t.a.w) < sext64(m.Eval(t.b), t.a.w))
		}
	case OpBvSle:
		if t.a.w > 64 {
			v = b2u(toSigned(m.EvalBig(t.a), t.a.w).Cmp(toSigned(m.EvalBig(t.b), t.a.w)) <= 0)
		} else {
			v = b2u(sext64(m.Eval(t.a), t.a.w) <= sext64(m.Eval(t.b), t.a.w))
		}
	case OpConcat:
		v = m.Eval(t.a)<<uint(t.b.w) | m.Eval(t.b)
	case OpExtract:
		if t.a.w > 64 {
			x := new(big.Int).Rsh(m.EvalBig(t.a), uint(t.val))
			x.And(x, new(big.Int).SetUint64(mask(t.w)))
			v = x.Uint64()
		} else {
			v = (m.Eval(t.a) >> t.val) & mask(t.w)
		}
	case OpZext:
		v = m.Eval(t.a)
	case OpSext:
		v = uint64(sext64(m.Eval(t.a), t.a.w)) & mask(t.w)
	case OpFpOfBits:
		v = m.Eval(t.a)
	case OpFpAdd, OpFpSub, OpFpMul, OpFpDiv:
		v = math.Float64bits(fpBin(t.op, m.evalF(t.a), m.evalF(t.b)))
	case OpFpNeg:
		v = math.Float64bits(-m.evalF(t.a))
	case OpFpAbs:
		v = math.Float64bits(math.Abs(m.evalF(t.a)))
	case OpFpSqrt:
		v = math.Float64bits(math.Sqrt(m.evalF(t.a)))
	case OpFpLt:
		v = b2u(m.evalF(t.a) < m.evalF(t.b))
	case OpFpLe:
		v = b2u(m.evalF(t.a) <= m.evalF(t.b))
	case OpFpEq:
		v = b2u(m.evalF(t.a) == m.evalF(t.b))
	case OpFpIsNaN:
		x := m.evalF(t.a)
		v = b2u(x != x)
	case OpFpRti:
		x := m.evalF(t.a)
		switch t.val {
		case 0:
			x = math.Floor(x)
		case 1:
			x = math.Ceil(x)
		case 3:
			x = math.Round(x)
		case 4:
			x = math.RoundToEven(x)
		default:
			x = math.Trunc(x)
		}
		v = math.Float64bits(x)
	case OpFpToSbv:
		v = uint64(int64(m.evalF(t.a))) & mask(t.w)
	case OpFpToUbv:
		v = uint64(m.evalF(t.a)) & mask(t.w)
	case OpSbvToFp:
		v = math.Float64bits(float64(sext64(m.Eval(t.a), t.a.w)))
	case OpUbvToFp:
		v = math.Float64bits(float64(m.Eval(t.a)))
	default:
		panic(fmt.Sprintf("eval op %d", t.op))
	}
	t.evGen, t.evVal = m.gen, v
	return v
}

func (m *Model) evalF(t *Term) float64 { return math.Float64frombits(m.Eval(t)) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func toSigned(x *big.Int, w int32) *big.Int {
	if x.Bit(int(w-1)) == 1 {
		return new(big.Int).Sub(x, new(big.Int).Lsh(big.NewInt(1), uint(w)))
	}
	return x
}

func wrapBig(x *big.Int, w int32) *big.Int {
	mod := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return new(big.Int).Mod(x, mod)
}

func (m *Model) EvalBig(t *Term) *big.Int {
	if t.w <= 64 {
		return new(big.Int).SetUint64(m.Eval(t))
	}
	if t.evGen == m.gen && t.evBig != nil {
		return t.evBig
	}
	var r *big.Int
	w := t.w
	switch t.op {
	case OpConst:
		r = new(big.Int).SetUint64(t.val)
	case OpIte:
		if m.Eval(t.a) != 0 {
			r = m.EvalBig(t.b)
		} else {
			r = m.EvalBig(t.c)
		}
	case OpZext:
		r = m.EvalBig(t.a)
	case OpSext:
		r = wrapBig(toSigned(m.EvalBig(t.a), t.a.w), w)
	case OpBvAdd:
		r = wrapBig(new(big.Int).Add(m.EvalBig(t.a), m.EvalBig(t.b)), w)
	case OpBvSub:
		r = wrapBig(new(big.Int).Sub(m.EvalBig(t.a), m.EvalBig(t.b)), w)
	case OpBvMul:
		r = wrapBig(new(big.Int).Mul(m.EvalBig(t.a), m.EvalBig(t.b)), w)
	case OpBvNeg:
		r = wrapBig(new(big.Int).Neg(m.EvalBig(t.a)), w)
	case OpBvSdiv, OpBvSrem:
		x, y := toSigned(m.EvalBig(t.a), w), toSigned(m.EvalBig(t.b), w)
		if y.Sign() == 0 {
			if t.op == OpBvSrem {
				r = wrapBig(x, w)
			} else if x.Sign() < 0 {
				r = big.NewInt(1)
			} else {
				r = wrapBig(big.NewInt(-1), w)
			}
		} else if t.op == OpBvSdiv {
			r = wrapBig(new(big.Int).Quo(x, y), w)
		} else {
			r = wrapBig(new(big.Int).Rem(x, y), w)
		}
	case OpConcat:
		r = new(big.Int).Or(new(big.Int).Lsh(m.EvalBig(t.a), uint(t.b.w)), m.EvalBig(t.b))
	case OpExtract:
		r = wrapBig(new(big.Int).Rsh(m.EvalBig(t.a), uint(t.val)), w)
	default:
		panic(fmt.Sprintf("EvalBig op %d", t.op))
	}
	t.evGen, t.evBig = m.gen, r
	return r
}

// ---- printing ----

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpBvAdd: "bvadd", OpBvSub: "bvsub", OpBvMul: "bvmul", OpBvUdiv: "bvudiv", OpBvSdiv: "bvsdiv",
	OpBvUrem: "bvurem", OpBvSrem: "bvsrem", OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor",
	OpBvNot: "bvnot", OpBvNeg: "bvneg", OpBvShl: "bvshl", OpBvLshr: "bvlshr", OpBvAshr: "bvashr",
	OpBvUlt: "bvult", OpBvUle: "bvule", OpBvSlt: "bvslt", OpBvSle: "bvsle", OpConcat: "concat",
	OpFpAdd: "fp.add RNE", OpFpSub: "fp.sub RNE", OpFpMul: "fp.mul RNE", OpFpDiv: "fp.div RNE",
	OpFpNeg: "fp.neg", OpFpAbs: "fp.abs", OpFpLt: "fp.lt", OpFpLe: "fp.leq", OpFpEq: "fp.eq", OpFpIsNaN: "fp.isNaN",
	OpFpSqrt: "fp.sqrt RNE",
}

func sortName(w int32) string {
	switch {
	case w == 0:
		return "Bool"
	case w == SortFP:
		return "Float64"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func quoteSym(s string) string { return "|" + s + "|" }

// ref returns the text referring to an already defined term.
func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		switch {
		case t.w == 0:
			if t.val == 1 {
				return "true"
			}
			return "false"
		case t.w == SortFP:
			if f := math.Float64frombits(t.val); f != f {
				return "(_ NaN 11 53)"
			}
			return fmt.Sprintf("(fp #b%b #b%011b #b%052b)", t.val>>63, (t.val>>52)&0x7ff, t.val&(1<<52-1))
		case t.w%4 == 0 && t.w <= 64:
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
		default:
			return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
		}
	case OpVar:
		return quoteSym(t.name)
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int32(t.val)+t.w-1, t.val, t.a.ref())
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpFpOfBits:
		return fmt.Sprintf("((_ to_fp 11 53) %s)", t.a.ref())
	case OpFpRti:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", []string{"RTN", "RTP", "RTZ", "RNA", "RNE"}[t.val], t.a.ref())
	case OpFpToSbv:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, t.a.ref())
	case OpFpToUbv:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, t.a.ref())
	case OpSbvToFp:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", t.a.ref())
	case OpUbvToFp:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", t.a.ref())
	}
	n := opNames[t.op]
	switch {
	case t.c != nil:
		return fmt.Sprintf("(%s %s %s %s)", n, t.a.ref(), t.b.ref(), t.c.ref())
	case t.b != nil:
		return fmt.Sprintf("(%s %s %s)", n, t.a.ref(), t.b.ref())
	}
	return fmt.Sprintf("(%s %s)", n, t.a.ref())
}

// define writes the definitions t needs (not yet written in generation gen).
func (t *Term) define(sb *strings.Builder, gen uint32) {
	if t.op == OpConst || t.defined == gen {
		return
	}
	t.defined = gen
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", quoteSym(t.name), sortName(t.w))
		return
	}
	if t.a != nil {
		t.a.define(sb, gen)
	}
	if t.b != nil {
		t.b.define(sb, gen)
	}
	if t.c != nil {
		t.c.define(sb, gen)
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t.w), t.body())
}

// hard reports whether t is an operation that the solvers cope badly with.
func (t *Term) hard() bool {
	return (t.op == OpFpMul || t.op == OpFpDiv) && !t.a.isConst() && !t.b.isConst()
}

// Abstract replaces hard operations by unconstrained values. It returns t itself if there is none.
func (c *TermCtx) Abstract(t *Term) *Term {
	if t == nil || t.op == OpConst || t.op == OpVar {
		return t
	}
	if r, ok := c.abs[t]; ok {
		return r
	}
	var r *Term
	if t.hard() {
		r = c.FpOfBits(c.Var(fmt.Sprintf("abs!%d", t.id), 64))
	} else {
		a, b, d := c.Abstract(t.a), c.Abstract(t.b), c.Abstract(t.c)
		if a == t.a && b == t.b && d == t.c {
			r = t
		} else {
			r = c.mk(t.op, t.w, t.val, a, b, d)
		}
	}
	if c.abs == nil {
		c.abs = map[*Term]*Term{}
	}
	c.abs[t] = r
	return r
}

// rebuild is t with other operands, simplified again.
func (c *TermCtx) rebuild(t *Term, x, y, z *Term) *Term {
	switch t.op {
	case OpNot:
		return c.Not(x)
	case OpAnd:
		return c.And(x, y)
	case OpOr:
		return c.Or(x, y)
	case OpIte:
		return c.Ite(x, y, z)
	case OpEq:
		return c.Eq(x, y)
	case OpBvAdd, OpBvSub, OpBvMul, OpBvUdiv, OpBvSdiv, OpBvUrem, OpBvSrem, OpBvAnd, OpBvOr, OpBvXor, OpBvShl, OpBvLshr, OpBvAshr:
		return c.Bin(t.op, x, y)
	case OpBvUlt, OpBvUle, OpBvSlt, OpBvSle:
		return c.Cmp(t.op, x, y)
	case OpBvNot:
		return c.BvNot(x)
	case OpBvNeg:
		return c.BvNeg(x)
	case OpExtract:
		return c.Extract(x, int32(t.val), t.w)
	case OpZext:
		return c.Zext(x, t.w)
	case OpSext:
		return c.Sext(x, t.w)
	case OpFpOfBits:
		return c.FpOfBits(x)
	case OpFpAdd, OpFpSub, OpFpMul, OpFpDiv:
		return c.FpBin(t.op, x, y)
	case OpFpLt, OpFpLe, OpFpEq:
		return c.FpCmp(t.op, x, y)
	case OpFpNeg, OpFpAbs, OpFpIsNaN, OpFpRti, OpFpSqrt:
		return c.FpUn(t.op, x, t.val)
	case OpFpToSbv:
		if x.isConst() {
			return c.mk(t.op, t.w, t.val, x, y, z)
		}
		return c.FpToBv(t.op, x, t.w)
	case OpSbvToFp, OpUbvToFp:
		return c.BvToFp(t.op, x)
	}
	return c.mk(t.op, t.w, t.val, x, y, z)
}

func (t *Term) collectVars(seen map[*Term]bool, out *[]*Term) {
	if t == nil || t.op == OpConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		*out = append(*out, t)
		return
	}
	t.a.collectVars(seen, out)
	t.b.collectVars(seen, out)
	t.c.collectVars(seen, out)
}
