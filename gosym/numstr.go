package main

import "fmt"

// Texts of symbolic numbers: formatting and parsing them back is the identity (a property of strconv
// and time that is taken as given), so that code that passes numbers around as text stays symbolic.

func (w *Worker) numStr(kind, spec string, v Value) (Value, bool) {
	t := v.term()
	if t == nil {
		return Value{}, false
	}
	return Value{P: &OpaqueStr{key: fmt.Sprintf("%s(t%d)", spec, t.id), kind: kind, num: t}}, true
}

func numOf(v Value, kind string) *Term {
	if o, ok := v.P.(*OpaqueStr); ok && o.num != nil && o.kind == kind {
		return o.num
	}
	return nil
}

var preIntrinsics = map[string]func(w *Worker, a []Value) (Value, bool){
	"syscall.Open": func(w *Worker, a []Value) (Value, bool) {
		if s, ok := concString(a[0]); !ok || s != "" {
			panic(unsupported("opening a file"))
		}
		return Value{P: []Value{{N: ^uint64(0)}, {P: &Iface{t: w.canon(w.eng.findType("syscall", "Errno")), v: Value{N: 2}}}}}, true
	},
	"strconv.Itoa": func(w *Worker, a []Value) (Value, bool) {
		if w.cfg.ExactInt {
			return Value{}, false
		}
		return w.numStr("int", "%d", a[0])
	},
	"strconv.FormatInt": func(w *Worker, a []Value) (Value, bool) {
		if w.cfg.ExactInt || a[1].P != nil || a[1].N != 10 {
			return Value{}, false
		}
		return w.numStr("int", "%d", a[0])
	},
	"(time.Duration).String": func(w *Worker, a []Value) (Value, bool) { return w.numStr("dur", "dur", a[0]) },
	"time.ParseDuration": func(w *Worker, a []Value) (Value, bool) {
		if t := numOf(a[0], "dur"); t != nil {
			return Value{P: []Value{w.fromTerm(t), {}}}, true
		}
		return Value{}, false
	},
	"strconv.Atoi": func(w *Worker, a []Value) (Value, bool) {
		if t := numOf(a[0], "int"); t != nil {
			return Value{P: []Value{w.fromTerm(t), {}}}, true
		}
		return Value{}, w.opaqueNum(a[0])
	},
	"strconv.ParseInt": func(w *Worker, a []Value) (Value, bool) {
		t := numOf(a[0], "int")
		if t == nil || a[1].P != nil || a[1].N != 10 && a[1].N != 0 || a[2].P != nil || a[2].N > 64 {
			return Value{}, w.opaqueNum(a[0])
		}
		if k := a[2].N; k != 0 && k < 64 {
			// a number that does not fit: the real code runs on a text that is out of range on the same side
			if w.branch(w.fromTerm(w.tc.Cmp(OpBvSlt, w.tc.Const(64, 1<<(k-1)-1), t))) {
				a[0] = Value{P: "9223372036854775807"}
				return Value{}, false
			}
			if w.branch(w.fromTerm(w.tc.Cmp(OpBvSlt, t, w.tc.Const(64, -(uint64(1)<<(k-1)))))) {
				a[0] = Value{P: "-9223372036854775808"}
				return Value{}, false
			}
		}
		return Value{P: []Value{w.fromTerm(t), {}}}, true
	},
	"strconv.ParseUint": func(w *Worker, a []Value) (Value, bool) {
		t := numOf(a[0], "int")
		if t == nil || a[1].P != nil || a[1].N != 10 && a[1].N != 0 || a[2].P != nil || a[2].N > 64 {
			return Value{}, w.opaqueNum(a[0])
		}
		if w.branch(w.fromTerm(w.tc.Cmp(OpBvSlt, t, w.tc.Const(64, 0)))) {
			a[0] = Value{P: "-1"}
			return Value{}, false
		}
		if k := a[2].N; k != 0 && k < 63 && w.branch(w.fromTerm(w.tc.Cmp(OpBvSlt, w.tc.Const(64, 1<<k-1), t))) {
			a[0] = Value{P: "9223372036854775807"}
			return Value{}, false
		}
		return Value{P: []Value{w.fromTerm(t), {}}}, true
	},
	"strconv.ParseFloat": func(w *Worker, a []Value) (Value, bool) {
		if t := numOf(a[0], "float"); t != nil && a[1].P == nil && a[1].N == 64 {
			return Value{P: []Value{w.fromTermW(t, SortFP), {}}}, true
		}
		return Value{}, w.opaqueNum(a[0])
	},
}

func (w *Worker) opaqueNum(v Value) bool {
	if _, ok := v.P.(*OpaqueStr); ok {
		panic(unsupported("parsing an opaque string"))
	}
	return false
}
