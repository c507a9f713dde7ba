package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func (w *Worker) binop(op token.Token, t, yt types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return w.equal(x, y, t)
	case token.NEQ:
		return w.notV(w.equal(x, y, t))
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("binop %v on %v", op, t))
	}
	info := b.Info()
	switch {
	case info&types.IsString != 0:
		switch op {
		case token.ADD:
			return w.strConcat(x, y)
		case token.LSS:
			return w.strLess(x, y)
		case token.GTR:
			return w.strLess(y, x)
		case token.LEQ:
			return w.notV(w.strLess(y, x))
		case token.GEQ:
			return w.notV(w.strLess(x, y))
		}
	case info&types.IsBoolean != 0:
		switch op {
		case token.AND, token.LAND:
			return w.andV(x, y)
		case token.OR, token.LOR:
			return w.notV(w.andV(w.notV(x), w.notV(y)))
		}
	case info&types.IsFloat != 0:
		return w.floatOp(op, t, x, y)
	case info&types.IsInteger != 0:
		return w.intOp(op, t, yt, x, y)
	}
	panic(unsupported("binop %v on %v", op, t))
}

func (w *Worker) strConcat(x, y Value) Value {
	if x.P == nil {
		return y
	}
	if y.P == nil {
		return x
	}
	_, o1 := x.P.(*OpaqueStr)
	_, o2 := y.P.(*OpaqueStr)
	if o1 || o2 {
		return Value{P: &OpaqueStr{key: w.strKey(x) + w.strKey(y)}}
	}
	sx, c1 := concString(x)
	sy, c2 := concString(y)
	if c1 && c2 {
		return mkString(sx + sy)
	}
	bx, by := strBytes(x), strBytes(y)
	r := make([]Value, 0, len(bx)+len(by))
	r = append(r, bx...)
	r = append(r, by...)
	return mkBytesStr(r)
}

// strKey renders a string value as a canonical key (for opaque strings).
func (w *Worker) strKey(v Value) string {
	switch s := v.P.(type) {
	case nil:
		return ""
	case string:
		return fmt.Sprintf("%q", s)
	case *OpaqueStr:
		return s.key
	case *SymStr:
		k := "["
		for _, b := range s.b {
			if b.P == nil {
				k += fmt.Sprintf("%d ", b.N)
			} else {
				k += fmt.Sprintf("t%d ", b.term().id)
			}
		}
		return k + "]"
	}
	return "?"
}

func (w *Worker) floatOp(op token.Token, t types.Type, x, y Value) Value {
	if x.P == nil && y.P == nil {
		if width(t) == -32 {
			a, b := math.Float32frombits(uint32(x.N)), math.Float32frombits(uint32(y.N))
			f := func(r float32) Value { return Value{N: uint64(math.Float32bits(r))} }
			switch op {
			case token.ADD:
				return f(a + b)
			case token.SUB:
				return f(a - b)
			case token.MUL:
				return f(a * b)
			case token.QUO:
				return f(a / b)
			case token.LSS:
				return Value{N: b2u(a < b)}
			case token.LEQ:
				return Value{N: b2u(a <= b)}
			case token.GTR:
				return Value{N: b2u(a > b)}
			case token.GEQ:
				return Value{N: b2u(a >= b)}
			}
		}
		a, b := math.Float64frombits(x.N), math.Float64frombits(y.N)
		f := func(r float64) Value { return Value{N: math.Float64bits(r)} }
		switch op {
		case token.ADD:
			return f(a + b)
		case token.SUB:
			return f(a - b)
		case token.MUL:
			return f(a * b)
		case token.QUO:
			return f(a / b)
		case token.LSS:
			return Value{N: b2u(a < b)}
		case token.LEQ:
			return Value{N: b2u(a <= b)}
		case token.GTR:
			return Value{N: b2u(a > b)}
		case token.GEQ:
			return Value{N: b2u(a >= b)}
		}
		panic(unsupported("float op %v", op))
	}
	if width(t) == -32 {
		panic(unsupported("symbolic float32"))
	}
	a, b := w.toTermW(x, SortFP), w.toTermW(y, SortFP)
	switch op {
	case token.ADD:
		return w.fromTermW(w.tc.FpBin(OpFpAdd, a, b), SortFP)
	case token.SUB:
		return w.fromTermW(w.tc.FpBin(OpFpSub, a, b), SortFP)
	case token.MUL:
		return w.fromTermW(w.tc.FpBin(OpFpMul, a, b), SortFP)
	case token.QUO:
		return w.fromTermW(w.tc.FpBin(OpFpDiv, a, b), SortFP)
	case token.LSS:
		return w.boolVal(w.tc.FpCmp(OpFpLt, a, b))
	case token.LEQ:
		return w.boolVal(w.tc.FpCmp(OpFpLe, a, b))
	case token.GTR:
		return w.boolVal(w.tc.FpCmp(OpFpLt, b, a))
	case token.GEQ:
		return w.boolVal(w.tc.FpCmp(OpFpLe, b, a))
	}
	panic(unsupported("float op %v", op))
}

func (w *Worker) intOp(op token.Token, t, yt types.Type, x, y Value) Value {
	wd := width(t)
	sg := isSigned(t)
	if op == token.SHL || op == token.SHR {
		return w.shift(op, wd, sg, x, y, yt)
	}
	if x.P == nil && y.P == nil {
		m := mask(wd)
		a, b := x.N, y.N
		switch op {
		case token.ADD:
			return Value{N: (a + b) & m}
		case token.SUB:
			return Value{N: (a - b) & m}
		case token.MUL:
			return Value{N: (a * b) & m}
		case token.QUO, token.REM:
			if b == 0 {
				w.rtPanic("runtime error: integer divide by zero")
			}
			o := OpBvUdiv
			switch {
			case sg && op == token.QUO:
				o = OpBvSdiv
			case sg:
				o = OpBvSrem
			case op == token.REM:
				o = OpBvUrem
			}
			r, _ := foldBin(o, wd, a, b)
			return Value{N: r}
		case token.AND:
			return Value{N: a & b}
		case token.OR:
			return Value{N: a | b}
		case token.XOR:
			return Value{N: a ^ b}
		case token.AND_NOT:
			return Value{N: a &^ b}
		}
		if sg {
			sa, sb := sext64(a, wd), sext64(b, wd)
			switch op {
			case token.LSS:
				return Value{N: b2u(sa < sb)}
			case token.LEQ:
				return Value{N: b2u(sa <= sb)}
			case token.GTR:
				return Value{N: b2u(sa > sb)}
			case token.GEQ:
				return Value{N: b2u(sa >= sb)}
			}
		}
		switch op {
		case token.LSS:
			return Value{N: b2u(a < b)}
		case token.LEQ:
			return Value{N: b2u(a <= b)}
		case token.GTR:
			return Value{N: b2u(a > b)}
		case token.GEQ:
			return Value{N: b2u(a >= b)}
		}
		panic(unsupported("int op %v", op))
	}
	a, b := w.toTermW(x, wd), w.toTermW(y, wd)
	switch op {
	case token.ADD:
		return w.fromTerm(w.tc.Bin(OpBvAdd, a, b))
	case token.SUB:
		return w.fromTerm(w.tc.Bin(OpBvSub, a, b))
	case token.MUL:
		return w.fromTerm(w.tc.Bin(OpBvMul, a, b))
	case token.QUO, token.REM:
		if w.branch(w.boolVal(w.tc.Eq(b, w.tc.Const(wd, 0)))) {
			w.rtPanic("runtime error: integer divide by zero")
		}
		if a.isConst() && b.isConst() {
			return w.intOp(op, t, yt, w.fromTerm(a), w.fromTerm(b))
		}
		o := OpBvUdiv
		switch {
		case sg && op == token.QUO:
			o = OpBvSdiv
		case sg:
			o = OpBvSrem
		case op == token.REM:
			o = OpBvUrem
		}
		return w.fromTerm(w.tc.Bin(o, a, b))
	case token.AND:
		return w.fromTerm(w.tc.Bin(OpBvAnd, a, b))
	case token.OR:
		return w.fromTerm(w.tc.Bin(OpBvOr, a, b))
	case token.XOR:
		return w.fromTerm(w.tc.Bin(OpBvXor, a, b))
	case token.AND_NOT:
		return w.fromTerm(w.tc.Bin(OpBvAnd, a, w.tc.BvNot(b)))
	}
	lt, le := OpBvUlt, OpBvUle
	if sg {
		lt, le = OpBvSlt, OpBvSle
	}
	switch op {
	case token.LSS:
		return w.boolVal(w.tc.Cmp(lt, a, b))
	case token.LEQ:
		return w.boolVal(w.tc.Cmp(le, a, b))
	case token.GTR:
		return w.boolVal(w.tc.Cmp(lt, b, a))
	case token.GEQ:
		return w.boolVal(w.tc.Cmp(le, b, a))
	}
	panic(unsupported("int op %v", op))
}

func (w *Worker) shift(op token.Token, wd int32, sg bool, x, y Value, yt types.Type) Value {
	ysg := isSigned(yt)
	yw := width(yt)
	if y.P == nil {
		n := y.N
		if ysg && sext64(n, yw) < 0 {
			w.rtPanic("runtime error: negative shift amount")
		}
		if x.P == nil {
			o := OpBvShl
			if op == token.SHR {
				o = OpBvLshr
				if sg {
					o = OpBvAshr
				}
			}
			if n > 64 {
				n = 64
			}
			if n >= uint64(wd) && o != OpBvAshr {
				return Value{}
			}
			r, _ := foldBin(o, wd, x.N, n)
			return Value{N: r}
		}
	} else if ysg {
		if w.branch(w.boolVal(w.tc.Cmp(OpBvSlt, y.term(), w.tc.Const(yw, 0)))) {
			w.rtPanic("runtime error: negative shift amount")
		}
	}
	a := w.toTermW(x, wd)
	var b *Term
	if y.P == nil {
		n := y.N
		if n > uint64(wd) {
			n = uint64(wd)
		}
		b = w.tc.Const(wd, n)
		if wd == 8 && n > 255 {
			b = w.tc.Const(wd, 255)
		}
	} else {
		yt := y.term()
		if yt.w <= wd {
			b = w.tc.Zext(yt, wd)
		} else {
			// saturate
			over := w.tc.Cmp(OpBvUle, w.tc.Const(yt.w, uint64(wd)), yt)
			b = w.tc.Ite(over, w.tc.Const(wd, uint64(wd)), w.tc.Extract(yt, 0, wd))
		}
	}
	o := OpBvShl
	if op == token.SHR {
		o = OpBvLshr
		if sg {
			o = OpBvAshr
		}
	}
	if o == OpBvAshr && b.isConst() && b.val >= uint64(wd) {
		b = w.tc.Const(wd, uint64(wd-1))
	}
	return w.fromTerm(w.tc.Bin(o, a, b))
}

// ---- conversions ----

func (w *Worker) convert(v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UnsafePointer:
			return v
		case t.Info()&types.IsString != 0:
			return w.toStringConv(v, fu)
		case t.Info()&types.IsInteger != 0:
			if f, ok := fu.(*types.Basic); ok {
				if f.Kind() == types.UnsafePointer {
					panic(unsupported("unsafe.Pointer to integer"))
				}
				if f.Info()&types.IsInteger != 0 {
					return w.intConv(v, from, to)
				}
				if f.Info()&types.IsFloat != 0 {
					return w.floatToInt(v, from, to)
				}
			}
		case t.Info()&types.IsFloat != 0:
			if f, ok := fu.(*types.Basic); ok {
				if f.Info()&types.IsInteger != 0 {
					return w.intToFloat(v, from, to)
				}
				if f.Info()&types.IsFloat != 0 {
					return w.floatConv(v, from, to)
				}
			}
		case t.Info()&types.IsBoolean != 0:
			return v
		}
	case *types.Slice:
		if isString(from) {
			eb := t.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				b := strBytes(v)
				a := make([]Value, len(b))
				copy(a, b)
				return Value{P: &Slice{a: a}}
			}
			// runes
			var a []Value
			for i := 0; i < strLen(v); {
				r, n := w.decodeRune(&frame{w: w, g: w.cur}, v, i)
				a = append(a, r)
				i += n
			}
			return Value{P: &Slice{a: a[:len(a):len(a)]}}
		}
		return v
	case *types.Pointer:
		if f, ok := fu.(*types.Basic); ok && f.Kind() == types.UnsafePointer {
			if v.P == nil {
				return v
			}
			if w.unsafeOK(to) {
				return v
			}
			panic(unsupported("conversion from unsafe.Pointer to %v", to))
		}
		return v
	case *types.Array:
		if _, ok := fu.(*types.Slice); ok {
			sl, _ := v.P.(*Slice)
			n := int(t.Len())
			l := 0
			if sl != nil {
				l = len(sl.a)
			}
			if l < n {
				w.rtPanic("runtime error: cannot convert slice to array: length too small")
			}
			return copyVal(Value{P: sl.a[:n:n]})
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(unsupported("conversion %v -> %v", from, to))
}

func (w *Worker) unsafeOK(to types.Type) bool { return true }

func (w *Worker) intConv(v Value, from, to types.Type) Value {
	fw, tw := width(from), width(to)
	if v.P == nil {
		if isSigned(from) {
			return Value{N: uint64(sext64(v.N, fw)) & mask(tw)}
		}
		return Value{N: v.N & mask(tw)}
	}
	t := v.term()
	switch {
	case tw == fw:
		return v
	case tw < fw:
		return w.fromTerm(w.tc.Extract(t, 0, tw))
	case isSigned(from):
		return w.fromTerm(w.tc.Sext(t, tw))
	}
	return w.fromTerm(w.tc.Zext(t, tw))
}

func (w *Worker) floatToInt(v Value, from, to types.Type) Value {
	tw := width(to)
	sg := isSigned(to)
	if v.P == nil {
		var f float64
		if width(from) == -32 {
			f = float64(math.Float32frombits(uint32(v.N)))
		} else {
			f = math.Float64frombits(v.N)
		}
		return Value{N: nativeF2I(f, tw, sg)}
	}
	x := v.term()
	// amd64: cvttsd2sl for results below 32 bits signed/unsigned16, cvttsd2sq otherwise
	k := int32(64)
	if tw < 32 || (tw == 32 && sg) {
		k = 32
	}
	if tw == 64 && !sg {
		panic(unsupported("symbolic float to uint64"))
	}
	lim := math.Ldexp(1, int(k-1))
	in := w.tc.FpCmp(OpFpLt, x, w.tc.FP(lim))
	if k == 32 {
		in = w.tc.And(in, w.tc.FpCmp(OpFpLt, w.tc.FP(-lim-1), x))
	} else {
		in = w.tc.And(in, w.tc.FpCmp(OpFpLe, w.tc.FP(-lim), x))
	}
	r := w.tc.Ite(in, w.tc.FpToBv(OpFpToSbv, x, k), w.tc.Const(k, 1<<uint(k-1)))
	if tw < k {
		r = w.tc.Extract(r, 0, tw)
	}
	return w.fromTerm(r)
}

func nativeF2I(f float64, tw int32, sg bool) uint64 {
	switch {
	case tw == 8 && sg:
		return uint64(uint8(int8(f)))
	case tw == 8:
		return uint64(uint8(f))
	case tw == 16 && sg:
		return uint64(uint16(int16(f)))
	case tw == 16:
		return uint64(uint16(f))
	case tw == 32 && sg:
		return uint64(uint32(int32(f)))
	case tw == 32:
		return uint64(uint32(f))
	case sg:
		return uint64(int64(f))
	}
	return uint64(f)
}

func (w *Worker) intToFloat(v Value, from, to types.Type) Value {
	fw := width(from)
	if v.P == nil {
		var f float64
		if isSigned(from) {
			if width(to) == -32 {
				return Value{N: uint64(math.Float32bits(float32(sext64(v.N, fw))))}
			}
			f = float64(sext64(v.N, fw))
		} else {
			if width(to) == -32 {
				return Value{N: uint64(math.Float32bits(float32(v.N)))}
			}
			f = float64(v.N)
		}
		return Value{N: math.Float64bits(f)}
	}
	if width(to) == -32 {
		panic(unsupported("symbolic float32"))
	}
	op := OpUbvToFp
	if isSigned(from) {
		op = OpSbvToFp
	}
	return w.fromTermW(w.tc.BvToFp(op, v.term()), SortFP)
}

func (w *Worker) floatConv(v Value, from, to types.Type) Value {
	fw, tw := width(from), width(to)
	if fw == tw {
		return v
	}
	if v.P != nil {
		panic(unsupported("symbolic float32"))
	}
	if tw == -32 {
		return Value{N: uint64(math.Float32bits(float32(math.Float64frombits(v.N))))}
	}
	return Value{N: math.Float64bits(float64(math.Float32frombits(uint32(v.N))))}
}

func (w *Worker) toStringConv(v Value, fu types.Type) Value {
	switch f := fu.(type) {
	case *types.Basic:
		if f.Info()&types.IsString != 0 {
			return v
		}
		// integer -> string
		if v.P == nil {
			r := rune(sext64(v.N, width(f)))
			if isSigned(f) && int64(r) != sext64(v.N, width(f)) || !isSigned(f) && v.N > 0x7fffffff {
				r = 0xfffd
			}
			return mkString(string(r))
		}
		return w.runeToStr(w.intConv(v, f, types.Typ[types.Int64]))
	case *types.Slice:
		sl, _ := v.P.(*Slice)
		if sl == nil {
			return Value{}
		}
		if f.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
			b := make([]Value, len(sl.a))
			copy(b, sl.a)
			return mkBytesStr(b)
		}
		var r Value
		for _, x := range sl.a {
			if x.P == nil {
				r = w.strConcat(r, mkString(string(rune(int32(x.N)))))
			} else {
				r = w.strConcat(r, w.runeToStr(w.intConv(x, types.Typ[types.Int32], types.Typ[types.Int64])))
			}
		}
		return r
	}
	panic(unsupported("conversion %v -> string", fu))
}

// runeToStr encodes a symbolic 64-bit rune value.
func (w *Worker) runeToStr(v Value) Value {
	if v.P == nil {
		if v.N > 0x10ffff {
			return mkString("\ufffd")
		}
		return mkString(string(rune(v.N)))
	}
	t := v.term()
	c := func(n uint64) *Term { return w.tc.Const(64, n) }
	lt := func(n uint64) bool { return w.branch(w.boolVal(w.tc.Cmp(OpBvUlt, t, c(n)))) }
	by := func(lo, n int32, or uint64) Value {
		x := w.tc.Zext(w.tc.Extract(t, lo, n), 8)
		return w.fromTerm(w.tc.Bin(OpBvOr, x, w.tc.Const(8, or)))
	}
	if lt(0x80) {
		return mkBytesStr([]Value{w.fromTerm(w.tc.Extract(t, 0, 8))})
	}
	if lt(0x800) {
		return mkBytesStr([]Value{by(6, 5, 0xc0), by(0, 6, 0x80)})
	}
	if lt(0x10000) {
		if !lt(0xd800) && lt(0xe000) {
			return mkString("\ufffd")
		}
		return mkBytesStr([]Value{by(12, 4, 0xe0), by(6, 6, 0x80), by(0, 6, 0x80)})
	}
	if lt(0x110000) {
		return mkBytesStr([]Value{by(18, 3, 0xf0), by(12, 6, 0x80), by(6, 6, 0x80), by(0, 6, 0x80)})
	}
	return mkString("\ufffd")
}

// ---- builtins ----

func sliceOf(v Value) []Value {
	if s, ok := v.P.(*Slice); ok && s != nil {
		return s.a
	}
	return nil
}

func (w *Worker) callBuiltin(fr *frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		switch t := call.Args[0].Type().Underlying().(type) {
		case *types.Basic:
			return Value{N: uint64(strLen(args[0]))}
		case *types.Slice:
			a := sliceOf(args[0])
			if isCap {
				return Value{N: uint64(cap(a))}
			}
			return Value{N: uint64(len(a))}
		case *types.Map:
			if m, _ := args[0].P.(*Map); m != nil {
				return Value{N: uint64(m.n)}
			}
			return Value{}
		case *types.Chan:
			if c, _ := args[0].P.(*Chan); c != nil {
				if isCap {
					return Value{N: uint64(c.cap)}
				}
				return Value{N: uint64(len(c.buf))}
			}
			return Value{}
		case *types.Array:
			return Value{N: uint64(t.Len())}
		case *types.Pointer:
			return Value{N: uint64(t.Elem().Underlying().(*types.Array).Len())}
		}
	case "append":
		st := call.Args[0].Type().Underlying().(*types.Slice)
		var add []Value
		if len(args) == 1 {
			return args[0]
		}
		if isString(call.Args[1].Type()) {
			add = strBytes(args[1])
		} else {
			add = sliceOf(args[1])
		}
		return w.appendSlice(args[0], add, st.Elem())
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		if isString(call.Args[1].Type()) {
			src = strBytes(args[1])
		} else {
			src = sliceOf(args[1])
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if n == 0 {
			return Value{}
		}
		if &dst[0] != &src[0] {
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyArg(src[i])
			}
			for i := 0; i < n; i++ {
				w.store(&dst[i], tmp[i])
			}
		}
		return Value{N: uint64(n)}
	case "delete":
		m, _ := args[0].P.(*Map)
		if m != nil {
			w.mapDelete(m, args[1], call.Args[0].Type().Underlying().(*types.Map).Key())
		}
		return Value{}
	case "close":
		c, _ := args[0].P.(*Chan)
		if c == nil {
			w.rtPanic("close of nil channel")
		}
		if c.closed {
			w.rtPanic("close of closed channel")
		}
		c.closed = true
		w.undoFn(func() { c.closed = false })
		return Value{}
	case "panic":
		panic(&targetPanic{v: args[0]})
	case "recover":
		if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.panicVal.(*targetPanic)
			fr.caller.panicVal = nil
			return p.v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		t := call.Args[0].Type()
		r := args[0]
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		if isFloat(t) {
			panic(unsupported("float min/max"))
		}
		for i := 1; i < len(args); i++ {
			c := w.binop(op, t, t, args[i], r)
			if c.P == nil || isString(t) {
				if w.branch(c) {
					r = args[i]
				}
			} else {
				r = w.fromTerm(w.tc.Ite(c.term(), w.toTerm(args[i], t), w.toTerm(r, t)))
			}
		}
		return r
	case "clear":
		switch t := call.Args[0].Type().Underlying().(type) {
		case *types.Map:
			if m, _ := args[0].P.(*Map); m != nil {
				for _, e := range m.entries {
					if !e.dead {
						w.mapDelete(m, e.k, t.Key())
					}
				}
			}
		case *types.Slice:
			for i := range sliceOf(args[0]) {
				w.store(&sliceOf(args[0])[i], zero(t.Elem()))
			}
		}
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			w.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String
		return w.unsafeString(args[0], args[1])
	case "StringData":
		return w.stringData(args[0])
	case "SliceData":
		a := sliceOf(args[0])
		if cap(a) == 0 {
			return Value{}
		}
		return Value{P: &a[:1][0]}
	case "Slice":
		panic(unsupported("unsafe.Slice"))
	}
	panic(unsupported("builtin %s", b.Name()))
}

func (w *Worker) appendSlice(s Value, add []Value, et types.Type) Value {
	a := sliceOf(s)
	if len(add) == 0 {
		return s
	}
	n := len(a) + len(add)
	if n <= cap(a) {
		r := a[:n]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyArg(add[i])
		}
		for i := range tmp {
			w.store(&r[len(a)+i], tmp[i])
		}
		return Value{P: &Slice{a: r}}
	}
	nc := growCap(w.eng.sizes.Sizeof(et), len(a), cap(a), len(add))
	r := make([]Value, n, nc)
	for i := range a {
		r[i] = copyArg(a[i])
	}
	for i := range add {
		r[len(a)+i] = copyArg(add[i])
	}
	if isAgg(et) {
		full := r[:nc]
		for i := n; i < nc; i++ {
			full[i] = zero(et)
		}
	}
	return Value{P: &Slice{a: r}}
}

type growKey struct {
	sz         int64
	l, c, more int
}

// growCap asks the real runtime for the capacity append would give.
func growCap(sz int64, l, c, more int) int {
	if l > 1<<16 || more > 1<<16 || sz > 1<<10 {
		n := l + more
		if 2*c > n {
			return 2 * c
		}
		return n
	}
	t := reflect.SliceOf(reflect.ArrayOf(int(sz), reflect.TypeOf(byte(0))))
	if sz == 8 {
		t = reflect.TypeOf([]uint64{})
	}
	if sz == 16 {
		t = reflect.TypeOf([]string{})
	}
	v := reflect.MakeSlice(t, l, c)
	v = reflect.AppendSlice(v, reflect.MakeSlice(t, more, more))
	return v.Cap()
}

func (w *Worker) unsafeString(p, n Value) Value {
	ln := int(w.concretize(n, 64))
	if ln == 0 {
		return Value{}
	}
	c, ok := p.P.(*Value)
	if !ok {
		panic(unsupported("unsafe.String"))
	}
	base := w.findBacking(c, ln)
	b := make([]Value, ln)
	copy(b, base)
	return mkBytesStr(b)
}

// strBacking remembers slices made by unsafe.StringData / SliceData users.
func (w *Worker) stringData(s Value) Value {
	if strLen(s) == 0 {
		return Value{}
	}
	b := strBytes(s)
	return Value{P: &b[0]}
}

func (w *Worker) findBacking(c *Value, n int) []Value {
	panic(unsupported("unsafe.String of a raw pointer"))
}
