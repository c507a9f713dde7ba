package main

// Integer encoding: bit-vector formulas without floats as linear integer arithmetic.
// Every operation that may wrap gets an explicit multiple of 2^w, so the encoding is exact.

import (
	"context"
	"fmt"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

type intExpr struct {
	s      string // text of an Int or Bool expression
	lo, hi *big.Int
}

type intEnc struct {
	sb    strings.Builder
	memo  map[*Term]*intExpr
	uns   map[*Term]*intExpr
	bl    map[*Term][2]*big.Int
	vars  []*Term
	n     int
	bad   bool
	fpVar bool // floats abstracted: only unsat counts
}

func pow2(w int32) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }
func smin(w int32) *big.Int { return new(big.Int).Neg(pow2(w - 1)) }
func smax(w int32) *big.Int { return new(big.Int).Sub(pow2(w-1), big.NewInt(1)) }

func intLit(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func (e *intEnc) bound(t *Term, lo, hi *big.Int) {
	b, ok := e.bl[t]
	if !ok {
		b = [2]*big.Int{smin(t.w), smax(t.w)}
	}
	if lo != nil && lo.Cmp(b[0]) > 0 {
		b[0] = lo
	}
	if hi != nil && hi.Cmp(b[1]) < 0 {
		b[1] = hi
	}
	e.bl[t] = b
}

func constS(t *Term) *big.Int {
	return toSigned(new(big.Int).SetUint64(t.val), t.w)
}

// learn takes variable bounds from a conjunct.
func (e *intEnc) learn(t *Term, pos bool) {
	one := big.NewInt(1)
	switch t.op {
	case OpNot:
		e.learn(t.a, !pos)
	case OpAnd:
		if pos {
			e.learn(t.a, true)
			e.learn(t.b, true)
		}
	case OpOr:
		if !pos {
			e.learn(t.a, false)
			e.learn(t.b, false)
		}
	case OpBvSlt, OpBvSle, OpBvUlt, OpBvUle:
		if t.a.w > 64 {
			return
		}
		strict := t.op == OpBvSlt || t.op == OpBvUlt
		uns := t.op == OpBvUlt || t.op == OpBvUle
		a, b := t.a, t.b
		if !pos { // not(a<b) = b<=a
			a, b = b, a
			strict = !strict
		}
		switch {
		case b.isConst() && a.op == OpVar: // a < c
			c := constS(b)
			if uns && c.Sign() < 0 {
				return
			}
			if strict {
				c = new(big.Int).Sub(c, one)
			}
			if uns {
				if c.Sign() < 0 {
					return
				}
				e.bound(a, big.NewInt(0), c)
			} else {
				e.bound(a, nil, c)
			}
		case a.isConst() && b.op == OpVar && !uns: // c < b
			c := constS(a)
			if strict {
				c = new(big.Int).Add(c, one)
			}
			e.bound(b, c, nil)
		}
	case OpEq:
		if pos && t.a.w > 0 && t.a.w <= 64 {
			if t.a.op == OpVar && t.b.isConst() {
				e.bound(t.a, constS(t.b), constS(t.b))
			} else if t.b.op == OpVar && t.a.isConst() {
				e.bound(t.b, constS(t.a), constS(t.a))
			}
		}
	}
}

func (e *intEnc) fresh(sort string) string {
	e.n++
	s := fmt.Sprintf("k!%d", e.n)
	fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", s, sort)
	return s
}

func (e *intEnc) def(sort, body string) string {
	e.n++
	s := fmt.Sprintf("e!%d", e.n)
	fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", s, sort, body)
	return s
}

// wrap reduces an expression with the given exact range to a signed w-bit value.
func (e *intEnc) wrap(body string, lo, hi *big.Int, w int32) *intExpr {
	mn, mx := smin(w), smax(w)
	if lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 {
		return &intExpr{e.def("Int", body), lo, hi}
	}
	k := e.fresh("Int")
	r := e.def("Int", fmt.Sprintf("(- %s (* %s %s))", body, pow2(w), k))
	fmt.Fprintf(&e.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", intLit(mn), r, r, intLit(mx))
	return &intExpr{r, mn, mx}
}

// unsigned value of t
func (e *intEnc) u(t *Term) *intExpr {
	if x, ok := e.uns[t]; ok {
		return x
	}
	s := e.enc(t)
	if e.bad {
		return s
	}
	x := s
	if s.lo.Sign() < 0 {
		if s.hi.Sign() < 0 {
			p := pow2(t.w)
			x = &intExpr{e.def("Int", fmt.Sprintf("(+ %s %s)", s.s, p)), new(big.Int).Add(s.lo, p), new(big.Int).Add(s.hi, p)}
		} else {
			x = &intExpr{e.def("Int", fmt.Sprintf("(ite (< %s 0) (+ %s %s) %s)", s.s, s.s, pow2(t.w), s.s)), big.NewInt(0), new(big.Int).Sub(pow2(t.w), big.NewInt(1))}
		}
	}
	e.uns[t] = x
	return x
}

func minMax(xs ...*big.Int) (lo, hi *big.Int) {
	lo, hi = xs[0], xs[0]
	for _, x := range xs {
		if x.Cmp(lo) < 0 {
			lo = x
		}
		if x.Cmp(hi) > 0 {
			hi = x
		}
	}
	return
}

func (e *intEnc) enc(t *Term) *intExpr {
	if x, ok := e.memo[t]; ok {
		return x
	}
	x := e.enc1(t)
	if x == nil {
		e.bad = true
		x = &intExpr{"0", new(big.Int), new(big.Int)}
	}
	e.memo[t] = x
	return x
}

func (e *intEnc) boolDef(body string) *intExpr {
	return &intExpr{s: e.def("Bool", body)}
}

func (e *intEnc) enc1(t *Term) *intExpr {
	if e.bad {
		return nil
	}
	z := big.NewInt(0)
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return &intExpr{s: t.ref()}
		}
		if t.w > 64 || t.w == SortFP {
			return nil
		}
		c := constS(t)
		return &intExpr{intLit(c), c, c}
	case OpVar:
		if t.w == SortFP || t.w > 64 {
			return nil
		}
		if t.w == 0 {
			fmt.Fprintf(&e.sb, "(declare-const %s Bool)\n", quoteSym(t.name))
			e.vars = append(e.vars, t)
			return &intExpr{s: quoteSym(t.name)}
		}
		b, ok := e.bl[t]
		if !ok {
			b = [2]*big.Int{smin(t.w), smax(t.w)}
		}
		fmt.Fprintf(&e.sb, "(declare-const %s Int)\n(assert (and (<= %s %s) (<= %s %s)))\n", quoteSym(t.name), intLit(b[0]), quoteSym(t.name), quoteSym(t.name), intLit(b[1]))
		e.vars = append(e.vars, t)
		return &intExpr{quoteSym(t.name), b[0], b[1]}
	case OpNot:
		return e.boolDef("(not " + e.enc(t.a).s + ")")
	case OpAnd:
		return e.boolDef("(and " + e.enc(t.a).s + " " + e.enc(t.b).s + ")")
	case OpOr:
		return e.boolDef("(or " + e.enc(t.a).s + " " + e.enc(t.b).s + ")")
	case OpEq:
		if t.a.w == SortFP {
			return e.boolFP()
		}
		return e.boolDef("(= " + e.enc(t.a).s + " " + e.enc(t.b).s + ")")
	case OpFpLt, OpFpLe, OpFpEq, OpFpIsNaN:
		return e.boolFP()
	case OpIte:
		if t.w == SortFP {
			return nil
		}
		c, a, b := e.enc(t.a), e.enc(t.b), e.enc(t.c)
		if e.bad {
			return nil
		}
		if t.w == 0 {
			return e.boolDef("(ite " + c.s + " " + a.s + " " + b.s + ")")
		}
		lo, hi := minMax(a.lo, a.hi, b.lo, b.hi)
		return &intExpr{e.def("Int", "(ite "+c.s+" "+a.s+" "+b.s+")"), lo, hi}
	case OpBvSlt, OpBvSle:
		a, b := e.enc(t.a), e.enc(t.b)
		return e.boolDef("(" + map[Op]string{OpBvSlt: "<", OpBvSle: "<="}[t.op] + " " + a.s + " " + b.s + ")")
	case OpBvUlt, OpBvUle:
		a, b := e.u(t.a), e.u(t.b)
		return e.boolDef("(" + map[Op]string{OpBvUlt: "<", OpBvUle: "<="}[t.op] + " " + a.s + " " + b.s + ")")
	case OpFpToSbv, OpFpToUbv:
		// an arbitrary integer
		e.fpVar = true
		k := e.fresh("Int")
		fmt.Fprintf(&e.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", intLit(smin(t.w)), k, k, intLit(smax(t.w)))
		return &intExpr{k, smin(t.w), smax(t.w)}
	}
	if t.w <= 0 {
		return nil
	}
	w := t.w
	switch t.op {
	case OpBvAdd, OpBvSub, OpBvMul:
		a, b := e.enc(t.a), e.enc(t.b)
		if e.bad {
			return nil
		}
		var lo, hi *big.Int
		op := "+"
		switch t.op {
		case OpBvAdd:
			lo, hi = new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)
		case OpBvSub:
			op = "-"
			lo, hi = new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)
		default:
			op = "*"
			m := func(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }
			lo, hi = minMax(m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi))
		}
		return e.wrap("("+op+" "+a.s+" "+b.s+")", lo, hi, w)
	case OpBvNeg:
		a := e.enc(t.a)
		if e.bad {
			return nil
		}
		return e.wrap("(- "+a.s+")", new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo), w)
	case OpBvNot:
		a := e.enc(t.a)
		if e.bad {
			return nil
		}
		m1 := big.NewInt(-1)
		return &intExpr{e.def("Int", "(- (- 1) "+a.s+")"), new(big.Int).Sub(m1, a.hi), new(big.Int).Sub(m1, a.lo)}
	case OpBvSdiv, OpBvSrem:
		d := t.b
		for d.op == OpSext {
			d = d.a
		}
		if !d.isConst() || constS(d).Sign() <= 0 {
			return nil
		}
		a := e.enc(t.a)
		if e.bad {
			return nil
		}
		c := constS(d)
		q := e.def("Int", e.truncDiv(a, c))
		if t.op == OpBvSdiv {
			return &intExpr{q, new(big.Int).Quo(a.lo, c), new(big.Int).Quo(a.hi, c)}
		}
		lo, hi := new(big.Int).Sub(big.NewInt(1), c), new(big.Int).Sub(c, big.NewInt(1))
		if a.lo.Sign() >= 0 {
			lo = z
		}
		if a.hi.Sign() <= 0 {
			hi = z
		}
		return &intExpr{e.def("Int", fmt.Sprintf("(- %s (* %s %s))", a.s, c, q)), lo, hi}
	case OpBvUdiv, OpBvUrem:
		if !t.b.isConst() || t.b.val == 0 {
			return nil
		}
		a := e.u(t.a)
		if e.bad {
			return nil
		}
		c := new(big.Int).SetUint64(t.b.val)
		q, r := e.euclid(a, c)
		if t.op == OpBvUdiv {
			return e.wrap(q, new(big.Int).Quo(a.lo, c), new(big.Int).Quo(a.hi, c), w)
		}
		return e.wrap(r, z, new(big.Int).Sub(c, big.NewInt(1)), w)
	case OpBvShl:
		if !t.b.isConst() || t.b.val >= uint64(w) {
			return nil
		}
		a := e.enc(t.a)
		if e.bad {
			return nil
		}
		p := pow2(int32(t.b.val))
		return e.wrap(fmt.Sprintf("(* %s %s)", a.s, p), new(big.Int).Mul(a.lo, p), new(big.Int).Mul(a.hi, p), w)
	case OpBvLshr, OpBvAshr:
		if !t.b.isConst() || t.b.val >= uint64(w) {
			return nil
		}
		a := e.enc(t.a)
		if t.op == OpBvLshr {
			a = e.u(t.a)
		}
		if e.bad {
			return nil
		}
		p := pow2(int32(t.b.val))
		q, _ := e.euclid(a, p)
		lo, hi := new(big.Int).Div(a.lo, p), new(big.Int).Div(a.hi, p)
		return e.wrap(q, lo, hi, w)
	case OpBvAnd:
		a, b := t.a, t.b
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val != 0 && b.val&(b.val+1) == 0 && b.val < 1<<62 {
			x := e.enc(a)
			if e.bad {
				return nil
			}
			_, r := e.euclid(x, new(big.Int).SetUint64(b.val+1))
			return &intExpr{r, z, new(big.Int).SetUint64(b.val)}
		}
		return nil
	case OpExtract:
		var x *intExpr
		if t.val == 0 {
			x = e.enc(t.a) // wrap takes any integer
		} else {
			x = e.u(t.a)
		}
		if e.bad {
			return nil
		}
		if t.val > 0 {
			q, _ := e.euclid(x, pow2(int32(t.val)))
			x = &intExpr{q, new(big.Int).Rsh(x.lo, uint(t.val)), new(big.Int).Rsh(x.hi, uint(t.val))}
		}
		return e.wrap(x.s, x.lo, x.hi, w)
	case OpZext:
		return e.u(t.a)
	case OpSext:
		return e.enc(t.a)
	}
	return nil
}

func (e *intEnc) boolFP() *intExpr {
	e.fpVar = true
	return &intExpr{s: e.fresh("Bool")}
}

// euclid names quotient and remainder of the division by c > 0, rounding down.
func (e *intEnc) euclid(a *intExpr, c *big.Int) (q, r string) {
	q = e.fresh("Int")
	r = e.def("Int", fmt.Sprintf("(- %s (* %s %s))", a.s, c, q))
	fmt.Fprintf(&e.sb, "(assert (and (<= 0 %s) (< %s %s)))\n", r, r, c)
	return q, r
}

func (e *intEnc) truncDiv(a *intExpr, c *big.Int) string {
	if a.lo.Sign() >= 0 {
		q, _ := e.euclid(a, c)
		return q
	}
	n := &intExpr{s: e.def("Int", fmt.Sprintf("(ite (< %s 0) (- %s) %s)", a.s, a.s, a.s))}
	q, _ := e.euclid(n, c)
	return fmt.Sprintf("(ite (< %s 0) (- %s) %s)", a.s, q, q)
}

// arith reports whether the formula has multiplications or divisions of unknowns.
func (c *TermCtx) arith(t *Term) bool {
	if t == nil || t.op == OpConst || t.op == OpVar {
		return false
	}
	if r, ok := c.ari[t]; ok {
		return r
	}
	var r bool
	switch t.op {
	case OpBvAdd, OpBvSub:
		r = t.w >= 32 && !t.a.isConst() && !t.b.isConst()
	case OpBvMul, OpBvUdiv, OpBvSdiv, OpBvUrem, OpBvSrem:
		r = t.w > 16 && !(t.b.isConst() && t.b.val&(t.b.val-1) == 0 && t.op != OpBvSdiv && t.op != OpBvSrem)
	}
	r = r || c.arith(t.a) || c.arith(t.b) || c.arith(t.c)
	if c.ari == nil {
		c.ari = map[*Term]bool{}
	}
	c.ari[t] = r
	return r
}

func (c *TermCtx) hasFP(t *Term) bool {
	if t == nil || t.op == OpConst || t.op == OpVar {
		return false
	}
	if r, ok := c.fps[t]; ok {
		return r
	}
	r := t.op >= OpFpOfBits || c.hasFP(t.a) || c.hasFP(t.b) || c.hasFP(t.c)
	if c.fps == nil {
		c.fps = map[*Term]bool{}
	}
	c.fps[t] = r
	return r
}

func (s *Solver) anyFP(pc []*Term, extra *Term) bool {
	if extra != nil && s.ctx.hasFP(extra) {
		return true
	}
	for _, t := range pc {
		if s.ctx.hasFP(t) {
			return true
		}
	}
	return false
}

func (s *Solver) hasArith(pc []*Term, extra *Term) bool {
	if extra != nil && s.ctx.arith(extra) {
		return true
	}
	for _, t := range pc {
		if s.ctx.arith(t) {
			return true
		}
	}
	return false
}

func (s *Solver) checkInt(pc []*Term, extra *Term, wantModel bool) (SatResult, *Model) {
	pcr := pc
	if !wantModel || s.base != nil {
		pcr = relevant(pc, extra)
	}
	all := append([]*Term{}, pcr...)
	if extra != nil {
		all = append(all, extra)
	}
	e := &intEnc{memo: map[*Term]*intExpr{}, uns: map[*Term]*intExpr{}, bl: map[*Term][2]*big.Int{}}
	for _, t := range all {
		e.learn(t, true)
	}
	var refs []string
	for _, t := range all {
		refs = append(refs, e.enc(t).s)
		if e.bad {
			return Unknown, nil
		}
	}
	txt := "(set-option :produce-models true)\n(set-logic ALL)\n" + e.sb.String()
	for _, r := range refs {
		txt += "(assert " + r + ")\n"
	}
	txt += "(check-sat)\n"
	if len(e.vars) > 0 {
		txt += "(get-value ("
		for _, v := range e.vars {
			txt += quoteSym(v.name) + " "
		}
		txt += "))\n"
	}
	hard := time.Duration(s.intS) * time.Second
	if !s.deadline.IsZero() {
		if rem := time.Until(s.deadline); rem < hard {
			hard = rem
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), hard)
	defer cancel()
	cmds := [][]string{{"z3", "-in", "-memory:6000"}, {"z3-new", "-in", "-memory:6000"}, {"cvc5", "--lang", "smt2", "-"}}
	ch := make(chan string, len(cmds))
	for i, c := range cmds {
		go func(i int, c []string) {
			// the slower starters only join when the first one does not answer at once
			select {
			case <-time.After(time.Duration(i) * 400 * time.Millisecond):
			case <-ctx.Done():
				ch <- ""
				return
			}
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			ch <- strings.TrimSpace(string(out))
		}(i, c)
	}
	for range cmds {
		o := <-ch
		switch {
		case strings.HasPrefix(o, "unsat"):
			return Unsat, nil
		case strings.HasPrefix(o, "sat"):
			if e.fpVar {
				return Unknown, nil
			}
			vals := map[string]uint64{}
			if s.base != nil {
				for k, v := range s.base.vals {
					vals[k] = v
				}
			}
			if len(e.vars) > 0 && !parseInts(strings.TrimSpace(o[3:]), e.vars, vals) {
				s.mismatch = "unparsable integer model: " + o
				return Unknown, nil
			}
			return Sat, s.ctx.NewModel(vals)
		}
	}
	return Unknown, nil
}

func parseInts(txt string, vars []*Term, vals map[string]uint64) bool {
	t := tokenize(txt)
	p := 0
	next := func() string {
		if p < len(t) {
			p++
			return t[p-1]
		}
		return ""
	}
	if next() != "(" {
		return false
	}
	for _, v := range vars {
		if next() != "(" {
			return false
		}
		next()
		x := next()
		neg := false
		if x == "(" {
			if next() != "-" {
				return false
			}
			neg = true
			x = next()
			if next() != ")" {
				return false
			}
		}
		switch x {
		case "true":
			vals[v.name] = 1
		case "false":
			vals[v.name] = 0
		default:
			b, ok := new(big.Int).SetString(x, 10)
			if !ok {
				return false
			}
			if neg {
				b.Neg(b)
			}
			vals[v.name] = wrapBig(b, v.w).Uint64()
		}
		if next() != ")" {
			return false
		}
	}
	return true
}
