package main

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// w2intrinsics registers library functions that are assembly or use run-time type information.
func w2intrinsics(reg func(string, intrinsic)) {
	minmax := func(max bool) intrinsic {
		return func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
			if a[0].P == nil && a[1].P == nil {
				x, y := math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)
				if max {
					return Value{N: math.Float64bits(math.Max(x, y))}
				}
				return Value{N: math.Float64bits(math.Min(x, y))}
			}
			c := w.tc
			x, y := w.toTermW(a[0], SortFP), w.toTermW(a[1], SortFP)
			lt := c.FpCmp(OpFpLt, x, y)
			gt := c.FpCmp(OpFpLt, y, x)
			var r, inf *Term
			if max {
				inf = c.FP(math.Inf(1))
				// equal: zeros of different sign give +0
				r = c.Ite(gt, x, c.Ite(lt, y, c.Ite(c.FpCmp(OpFpEq, x, c.FP(0)), c.FpBin(OpFpAdd, x, y), x)))
			} else {
				inf = c.FP(math.Inf(-1))
				z := c.FpUn(OpFpNeg, c.FpBin(OpFpAdd, c.FpUn(OpFpNeg, x, 0), c.FpUn(OpFpNeg, y, 0)), 0)
				r = c.Ite(lt, x, c.Ite(gt, y, c.Ite(c.FpCmp(OpFpEq, x, c.FP(0)), z, x)))
			}
			nan := c.Or(c.FpUn(OpFpIsNaN, x, 0), c.FpUn(OpFpIsNaN, y, 0))
			r = c.Ite(nan, c.FP(math.NaN()), r)
			r = c.Ite(c.Or(c.FpCmp(OpFpEq, x, inf), c.FpCmp(OpFpEq, y, inf)), inf, r)
			return w.fromTermW(r, SortFP)
		}
	}
	reg("math.Max", minmax(true))
	reg("math.Min", minmax(false))

	// insertion sort: what sort.Slice does for short slices, and stable
	srt := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[0].P == nil {
			w.nilDeref()
		}
		sl, _ := a[0].P.(*Iface).v.P.(*Slice)
		if sl == nil {
			return Value{}
		}
		n := len(sl.a)
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				r := w.callValue(fr.g, fr, a[1], []Value{{N: uint64(j)}, {N: uint64(j - 1)}}, nil)
				if !w.branch(r) {
					break
				}
				x, y := copyArg(sl.a[j]), copyArg(sl.a[j-1])
				w.store(&sl.a[j], y)
				w.store(&sl.a[j-1], x)
			}
		}
		return Value{}
	}
	reg("sort.Slice", srt)
	reg("sort.SliceStable", srt)
	reg("sort.SliceIsSorted", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		sl, _ := a[0].P.(*Iface).v.P.(*Slice)
		if sl == nil {
			return Value{N: 1}
		}
		for i := len(sl.a) - 1; i > 0; i-- {
			if w.branch(w.callValue(fr.g, fr, a[1], []Value{{N: uint64(i)}, {N: uint64(i - 1)}}, nil)) {
				return Value{N: 0}
			}
		}
		return Value{N: 1}
	})

	// chain calls f for err and everything it wraps
	var chain func(w *Worker, fr *frame, err Value, f func(Value) bool) bool
	chain = func(w *Worker, fr *frame, err Value, f func(Value) bool) bool {
		for err.P != nil {
			if f(err) {
				return true
			}
			i := err.P.(*Iface)
			if !w.hasMethod(i.t, "Unwrap") {
				return false
			}
			r := w.callValue(fr.g, fr, Value{P: w.methodByName(i.t, "Unwrap")}, []Value{i.v}, nil)
			if s, ok := r.P.(*Slice); ok {
				for _, e := range s.a {
					if chain(w, fr, e, f) {
						return true
					}
				}
				return false
			}
			err = r
		}
		return false
	}
	errT := types.Universe.Lookup("error").Type()
	reg("errors.Is", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[0].P == nil || a[1].P == nil {
			return Value{N: b2u(a[0].P == nil && a[1].P == nil)}
		}
		cmp := types.Comparable(a[1].P.(*Iface).t)
		return Value{N: b2u(chain(w, fr, a[0], func(e Value) bool {
			if cmp && w.branch(w.equal(e, a[1], errT)) {
				return true
			}
			i := e.P.(*Iface)
			return w.hasMethod(i.t, "Is") &&
				w.branch(w.callValue(fr.g, fr, Value{P: w.methodByName(i.t, "Is")}, []Value{i.v, a[1]}, nil))
		}))}
	})
	reg("errors.As", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[1].P == nil {
			w.rtPanic("errors: target cannot be nil")
		}
		t := a[1].P.(*Iface)
		p, ok := t.t.Underlying().(*types.Pointer)
		if !ok || t.v.P == nil {
			w.rtPanic("errors: target must be a non-nil pointer")
		}
		return Value{N: b2u(chain(w, fr, a[0], func(e Value) bool {
			i := e.P.(*Iface)
			if it, isI := p.Elem().Underlying().(*types.Interface); isI {
				if w.implements(i.t, it) {
					w.storePtr(t.v, e, p.Elem())
					return true
				}
			} else if w.canon(i.t) == w.canon(p.Elem()) {
				w.storePtr(t.v, copyArg(i.v), p.Elem())
				return true
			}
			return w.hasMethod(i.t, "As") &&
				w.branch(w.callValue(fr.g, fr, Value{P: w.methodByName(i.t, "As")}, []Value{i.v, a[1]}, nil))
		}))}
	})
	reg("context.WithValue", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[0].P == nil || a[1].P == nil {
			w.rtPanic("context: nil parent or key")
		}
		t := w.eng.findType("context", "valueCtx")
		v := zero(t)
		f := v.P.([]Value)
		f[w.fieldIndex("context", "valueCtx", "Context")] = a[0]
		f[w.fieldIndex("context", "valueCtx", "key")] = a[1]
		f[w.fieldIndex("context", "valueCtx", "val")] = a[2]
		return Value{P: &Iface{t: types.NewPointer(t), v: Value{P: &v}}}
	})

	// sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	find := func(w *Worker, m *syncMap, k Value) int {
		for i := range m.kv {
			if w.branch(w.equal(m.kv[i][0], k, anyT)) {
				return i
			}
		}
		return -1
	}
	tup := func(v Value, ok bool) Value { return Value{P: []Value{v, {N: b2u(ok)}}} }
	reg("(*sync.Map).Load", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		m := w.syncMapOf(a[0])
		if i := find(w, m, a[1]); i >= 0 {
			return tup(m.kv[i][1], true)
		}
		return tup(Value{}, false)
	})
	set := func(w *Worker, m *syncMap, k, v Value) (Value, bool) {
		if i := find(w, m, k); i >= 0 {
			o := m.kv[i][1]
			m.kv[i][1] = v
			return o, true
		}
		m.kv = append(m.kv, [2]Value{k, v})
		return Value{}, false
	}
	reg("(*sync.Map).Store", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		set(w, w.syncMapOf(a[0]), a[1], a[2])
		return Value{}
	})
	reg("(*sync.Map).Swap", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return tup(set(w, w.syncMapOf(a[0]), a[1], a[2]))
	})
	reg("(*sync.Map).LoadOrStore", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		m := w.syncMapOf(a[0])
		if i := find(w, m, a[1]); i >= 0 {
			return tup(m.kv[i][1], true)
		}
		m.kv = append(m.kv, [2]Value{a[1], a[2]})
		return tup(a[2], false)
	})
	del := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		m := w.syncMapOf(a[0])
		if i := find(w, m, a[1]); i >= 0 {
			v := m.kv[i][1]
			m.kv = append(append([][2]Value{}, m.kv[:i]...), m.kv[i+1:]...)
			return tup(v, true)
		}
		return tup(Value{}, false)
	}
	reg("(*sync.Map).LoadAndDelete", del)
	reg("(*sync.Map).Delete", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		del(w, fr, a, call)
		return Value{}
	})
	reg("(*sync.Map).Range", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		for _, kv := range append([][2]Value{}, w.syncMapOf(a[0]).kv...) {
			if !w.branch(w.callValue(fr.g, fr, a[1], []Value{kv[0], kv[1]}, nil)) {
				break
			}
		}
		return Value{}
	})
}

type syncMap struct{ kv [][2]Value }

func (w *Worker) syncMapOf(p Value) *syncMap {
	c, _ := p.P.(*Value)
	if c == nil {
		w.nilDeref()
	}
	m := w.syncMaps[c]
	if m == nil {
		m = &syncMap{}
		w.syncMaps[c] = m
	}
	return m
}
