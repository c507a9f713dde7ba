package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one Go value. Scalars are N (canonical: zero-extended to 64 bits; bool 0/1;
// floats their bits) or, when symbolic, P = *Term. Everything else lives in P:
//
//	string     nil ("") | string | *SymStr | *OpaqueStr
//	struct/array/tuple  []Value
//	pointer    nil | *Value | *SymPtr
//	slice      nil | *Slice
//	map        nil | *Map
//	chan       nil | *Chan
//	func       nil | *Closure
//	interface  nil | *Iface
type Value struct {
	N uint64
	P any
}

func (v Value) term() *Term { t, _ := v.P.(*Term); return t }
func (v Value) isSym() bool { _, ok := v.P.(*Term); return ok }

type SymStr struct{ b []Value }

// OpaqueStr is a string whose content is unknown (formatted from symbolic data).
type OpaqueStr struct {
	key  string
	kind string // "int", "dur" or "float": the canonical text of num
	num  *Term
}

type SymPtr struct {
	elems []Value
	idx   *Term // 64 bit, already known to be in range
	width int32
}

type Slice struct{ a []Value }

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn      *ssa.Function
	env     []Value
	builtin *ssa.Builtin
	native  func(w *Worker, args []Value) Value // intrinsic closures
}

type mapEntry struct {
	k, v Value
	dead bool
}

type Map struct {
	idx     map[any]int // concrete keys -> entry index
	entries []*mapEntry
	n       int
	symKeys int
}

type Chan struct {
	buf      []Value
	cap      int
	closed   bool
	recvWait int // receivers blocked (unbuffered)
	pending  []*chanSend
}

type chanSend struct {
	v     Value
	taken bool
}

func mkString(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

func mkBytesStr(b []Value) Value {
	conc := true
	for i := range b {
		if b[i].P != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i := range b {
			bs[i] = byte(b[i].N)
		}
		return mkString(string(bs))
	}
	return Value{P: &SymStr{b: b}}
}

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(unsupported("length of an opaque string"))
}

func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = Value{N: uint64(s[i])}
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(unsupported("bytes of an opaque string"))
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return mkString(s[lo:hi])
	case *SymStr:
		return mkBytesStr(s.b[lo:hi])
	}
	panic(unsupported("slicing of an opaque string"))
}

func concString(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr {
	return unsupportedErr{fmt.Sprintf(f, a...)}
}

// ---- types ----

func width(t types.Type) int32 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("width of %v", t))
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Bool, types.UntypedBool:
		return 0
	case types.Float64, types.UntypedFloat:
		return SortFP
	case types.Float32:
		return -32
	case types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsFloat) != 0
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		s := make([]Value, n)
		for i := 0; i < n; i++ {
			if isAgg(u.Field(i).Type()) {
				s[i] = zero(u.Field(i).Type())
			}
		}
		return Value{P: s}
	case *types.Array:
		n := int(u.Len())
		s := make([]Value, n)
		if isAgg(u.Elem()) {
			for i := range s {
				s[i] = zero(u.Elem())
			}
		}
		return Value{P: s}
	case *types.Tuple:
		s := make([]Value, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return Value{P: s}
	}
	return Value{}
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// copyVal copies aggregates.
func copyVal(v Value) Value {
	if s, ok := v.P.([]Value); ok {
		r := make([]Value, len(s))
		for i := range s {
			if _, agg := s[i].P.([]Value); agg {
				r[i] = copyVal(s[i])
			} else {
				r[i] = s[i]
			}
		}
		return Value{P: r}
	}
	return v
}

// ---- map keys ----

// keyOf returns a comparable Go value for a concrete key; ok=false if it is symbolic.
func (w *Worker) keyOf(v Value, t types.Type) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concString(v)
			return s, ok
		}
		if v.isSym() {
			return nil, false
		}
		return v.N, true
	case *types.Pointer, *types.Chan, *types.Signature, *types.Map, *types.Slice:
		if _, ok := v.P.(*SymPtr); ok {
			return nil, false
		}
		return v.P, true
	case *types.Interface:
		if v.P == nil {
			return nil, true
		}
		i := v.P.(*Iface)
		k, ok := w.keyOf(i.v, i.t)
		if !ok {
			return nil, false
		}
		return [2]any{w.canon(i.t), k}, true
	case *types.Struct:
		fs := v.P.([]Value)
		var sb strings.Builder
		for i := 0; i < u.NumFields(); i++ {
			k, ok := w.keyOf(fs[i], u.Field(i).Type())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%s;", k, keyStr(k))
		}
		return sb.String(), true
	case *types.Array:
		fs := v.P.([]Value)
		var sb strings.Builder
		for i := range fs {
			k, ok := w.keyOf(fs[i], u.Elem())
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%s;", k, keyStr(k))
		}
		return sb.String(), true
	}
	return nil, false
}

func keyStr(k any) string {
	switch x := k.(type) {
	case string:
		return strconv.Quote(x)
	case [2]any:
		return fmt.Sprintf("[%p %s]", x[0], keyStr(x[1]))
	case uint64:
		return strconv.FormatUint(x, 10)
	}
	return fmt.Sprintf("%p", k)
}

func newMap() *Map { return &Map{idx: map[any]int{}} }

// find returns the entry for key k, forking on symbolic keys.
func (w *Worker) mapFind(m *Map, k Value, kt types.Type) *mapEntry {
	if m == nil {
		return nil
	}
	ck, conc := w.keyOf(k, kt)
	if conc && m.symKeys == 0 {
		if i, ok := m.idx[ck]; ok {
			return m.entries[i]
		}
		return nil
	}
	for _, e := range m.entries {
		if e.dead {
			continue
		}
		if w.branch(w.equal(e.k, k, kt)) {
			return e
		}
	}
	return nil
}

func (w *Worker) mapSet(m *Map, k, v Value, kt types.Type) {
	if e := w.mapFind(m, k, kt); e != nil {
		w.store(&e.v, v)
		return
	}
	k, v = copyVal(k), copyVal(v)
	ck, conc := w.keyOf(k, kt)
	i := len(m.entries)
	m.entries = append(m.entries, &mapEntry{k: k, v: v})
	m.n++
	if conc {
		m.idx[ck] = i
	} else {
		m.symKeys++
	}
	w.undoFn(func() {
		m.entries = m.entries[:i]
		m.n--
		if conc {
			delete(m.idx, ck)
		} else {
			m.symKeys--
		}
	})
}

func (w *Worker) mapDelete(m *Map, k Value, kt types.Type) {
	e := w.mapFind(m, k, kt)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	ck, conc := w.keyOf(e.k, kt)
	old, had := 0, false
	if conc {
		old, had = m.idx[ck]
		delete(m.idx, ck)
	} else {
		m.symKeys--
	}
	w.undoFn(func() {
		e.dead = false
		m.n++
		if conc {
			if had {
				m.idx[ck] = old
			}
		} else {
			m.symKeys++
		}
	})
}

// ---- equality: the result is a bool Value ----

func (w *Worker) boolVal(t *Term) Value {
	if t.isConst() {
		return Value{N: t.val}
	}
	return Value{P: t}
}

// toTerm returns the term of a scalar value of type t.
func (w *Worker) toTerm(v Value, t types.Type) *Term { return w.toTermW(v, width(t)) }

func (w *Worker) toTermW(v Value, wd int32) *Term {
	if x, ok := v.P.(*Term); ok {
		return x
	}
	switch wd {
	case SortFP:
		return w.tc.FpOfBits(w.tc.Const(64, v.N))
	case -32:
		return w.tc.FP(float64(math.Float32frombits(uint32(v.N))))
	}
	return w.tc.Const(wd, v.N)
}

func (w *Worker) fromTerm(t *Term) Value {
	if t.isConst() && t.w <= 64 {
		return Value{N: t.val}
	}
	return Value{P: t}
}

func (w *Worker) strEq(a, b Value) Value {
	oa, ok1 := a.P.(*OpaqueStr)
	ob, ok2 := b.P.(*OpaqueStr)
	if ok1 && ok2 && oa.key == ob.key {
		return Value{N: 1}
	}
	if ok1 || ok2 {
		panic(unsupported("comparison of an opaque string"))
	}
	sa, c1 := concString(a)
	sb, c2 := concString(b)
	if c1 && c2 {
		return Value{N: b2u(sa == sb)}
	}
	if strLen(a) != strLen(b) {
		return Value{}
	}
	ba, bb := strBytes(a), strBytes(b)
	r := w.tc.tTrue
	for i := range ba {
		r = w.tc.And(r, w.tc.Eq(w.toTermW(ba[i], 8), w.toTermW(bb[i], 8)))
		if r.isFalse() {
			break
		}
	}
	return w.boolVal(r)
}

// strLess decides a < b as a term.
func (w *Worker) strLess(a, b Value) Value {
	sa, c1 := concString(a)
	sb, c2 := concString(b)
	if c1 && c2 {
		return Value{N: b2u(sa < sb)}
	}
	ba, bb := strBytes(a), strBytes(b)
	n := len(ba)
	if len(bb) < n {
		n = len(bb)
	}
	r := w.tc.Bool(len(ba) < len(bb))
	for i := n - 1; i >= 0; i-- {
		x, y := w.toTermW(ba[i], 8), w.toTermW(bb[i], 8)
		r = w.tc.Or(w.tc.Cmp(OpBvUlt, x, y), w.tc.And(w.tc.Eq(x, y), r))
	}
	return w.boolVal(r)
}

func (w *Worker) equal(a, b Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.strEq(a, b)
		}
		if u.Kind() == types.UnsafePointer {
			return Value{N: b2u(a.P == b.P)}
		}
		if u.Info()&types.IsFloat != 0 {
			if a.P == nil && b.P == nil {
				if width(t) == -32 {
					return Value{N: b2u(math.Float32frombits(uint32(a.N)) == math.Float32frombits(uint32(b.N)))}
				}
				return Value{N: b2u(math.Float64frombits(a.N) == math.Float64frombits(b.N))}
			}
			return w.boolVal(w.tc.FpCmp(OpFpEq, w.toTerm(a, t), w.toTerm(b, t)))
		}
		if a.P == nil && b.P == nil {
			return Value{N: b2u(a.N == b.N)}
		}
		return w.boolVal(w.tc.Eq(w.toTerm(a, t), w.toTerm(b, t)))
	case *types.Interface:
		if a.P == nil || b.P == nil {
			return Value{N: b2u(a.P == nil && b.P == nil)}
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if w.canon(x.t) != w.canon(y.t) {
			return Value{}
		}
		if !types.Comparable(x.t) {
			w.rtPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return w.equal(x.v, y.v, x.t)
	case *types.Struct:
		fa, fb := a.P.([]Value), b.P.([]Value)
		r := Value{N: 1}
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = w.andV(r, w.equal(fa[i], fb[i], u.Field(i).Type()))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		fa, fb := a.P.([]Value), b.P.([]Value)
		r := Value{N: 1}
		for i := range fa {
			r = w.andV(r, w.equal(fa[i], fb[i], u.Elem()))
			if r.P == nil && r.N == 0 {
				return r
			}
		}
		return r
	case *types.Pointer:
		x, ok1 := a.P.(*SymPtr)
		y, ok2 := b.P.(*SymPtr)
		if ok1 || ok2 {
			if ok1 {
				a = Value{P: w.concPtr(x)}
			}
			if ok2 {
				b = Value{P: w.concPtr(y)}
			}
		}
		return Value{N: b2u(a.P == b.P)}
	case *types.Slice, *types.Map, *types.Signature:
		// only comparable to nil
		return Value{N: b2u(a.P == nil && b.P == nil)}
	case *types.Chan:
		return Value{N: b2u(a.P == b.P)}
	}
	panic(unsupported("equality on %v", t))
}

func (w *Worker) andV(a, b Value) Value {
	if a.P == nil {
		if a.N == 0 {
			return a
		}
		return b
	}
	if b.P == nil {
		if b.N == 0 {
			return b
		}
		return a
	}
	return w.boolVal(w.tc.And(a.term(), b.term()))
}

func (w *Worker) notV(a Value) Value {
	if a.P == nil {
		return Value{N: a.N ^ 1}
	}
	return w.boolVal(w.tc.Not(a.term()))
}

func (w *Worker) concPtr(p *SymPtr) *Value {
	i := w.concretize(Value{P: p.idx}, 64)
	return &p.elems[i]
}
