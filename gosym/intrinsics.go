package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/LogicalOverflow/music-sync"
const zvPath = modPath + "/zzverif"

var intrinsics map[string]intrinsic

// zvType maps result kinds of input functions.
func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	zv := func(name string, f intrinsic) { intrinsics[zvPath+"."+name] = f }
	noop := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return Value{} }

	// ---- harness interface ----
	intIn := func(kind string, wd int32) intrinsic {
		return func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
			return w.input(w.inName(a[0]), kind, wd)
		}
	}
	zv("Int", intIn("int", 64))
	zv("Int64", intIn("int", 64))
	zv("Uint64", intIn("int", 64))
	zv("Int32", intIn("int", 32))
	zv("Byte", intIn("int", 8))
	zv("Float64", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		name := w.inName(a[0])
		v := w.tc.Var(name, 64)
		w.inputs = append(w.inputs, inputRec{Name: name, Kind: "int", v: []Value{{P: v}}, wd: 64})
		return Value{P: w.tc.FpOfBits(v)}
	})
	zv("Bool", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		v := w.input(w.inName(a[0]), "int", 8)
		w.assumeV(w.boolVal(w.tc.Cmp(OpBvUlt, v.term(), w.tc.Const(8, 2))))
		return w.boolVal(w.tc.Eq(v.term(), w.tc.Const(8, 1)))
	})
	zv("IntRange", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		v := w.input(w.inName(a[0]), "int", 64)
		lo, hi := w.needConc(a[1]), w.needConc(a[2])
		w.assumeV(w.boolVal(w.tc.And(w.tc.Cmp(OpBvSle, w.tc.Const(64, lo), v.term()), w.tc.Cmp(OpBvSle, v.term(), w.tc.Const(64, hi)))))
		return v
	})
	zv("Choose", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		n := int(w.needConc(a[1]))
		name := w.inName(a[0])
		x := w.tc.Var(name, 8)
		w.inputs = append(w.inputs, inputRec{Name: name, Kind: "int", v: []Value{{P: x}}, wd: 8})
		if n <= 1 {
			w.assumeV(w.boolVal(w.tc.Eq(x, w.tc.Const(8, 0))))
			return Value{}
		}
		return Value{N: uint64(w.chooseVar(x, n))}
	})
	strIn := func(w *Worker, name string, n int) Value {
		b := make([]Value, n)
		for i := range b {
			b[i] = Value{P: w.tc.Var(fmt.Sprintf("%s[%d]", name, i), 8)}
		}
		w.inputs = append(w.inputs, inputRec{Name: name, Kind: "string", v: b})
		return mkBytesStr(b)
	}
	zv("String", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		name := w.inName(a[0])
		max := int(w.needConc(a[1]))
		n := 0
		if max > 0 {
			x := w.tc.Var(name+".len", 8)
			n = w.chooseVar(x, max+1)
		}
		return strIn(w, name, n)
	})
	zv("StringN", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return strIn(w, w.inName(a[0]), int(w.needConc(a[1])))
	})
	zv("BytesN", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		n := int(w.needConc(a[1]))
		s := strIn(w, w.inName(a[0]), n)
		return Value{P: &Slice{a: append(make([]Value, 0, n), strBytes(s)...)}}
	})
	zv("IntText", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if v, ok := w.numStr("int", "%d", a[0]); ok {
			return v
		}
		return mkString(strconv.FormatInt(int64(a[0].N), 10))
	})
	zv("FloatText", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if v, ok := w.numStr("float", "%g", a[0]); ok {
			return v
		}
		return mkString(strconv.FormatFloat(math.Float64frombits(a[0].N), 'g', -1, 64))
	})
	zv("JSONKeys", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		i, _ := a[0].P.(*Iface)
		if i == nil {
			panic(unsupported("JSONKeys of nil"))
		}
		st, ok := i.t.Underlying().(*types.Struct)
		if !ok {
			panic(unsupported("JSONKeys of " + i.t.String()))
		}
		var r []Value
		for k := 0; k < st.NumFields(); k++ {
			f := st.Field(k)
			if f.Embedded() {
				panic(unsupported("JSONKeys of an embedded field"))
			}
			if key := jsonKey(f.Name(), st.Tag(k)); f.Exported() && key != "" {
				r = append(r, mkString(f.Name()), mkString(key))
			}
		}
		return Value{P: &Slice{a: r}}
	})
	zv("SameFloat", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		c, x, y := w.tc, w.toTermW(a[0], SortFP), w.toTermW(a[1], SortFP)
		if x == y {
			return w.boolVal(c.tTrue)
		}
		return w.boolVal(c.Or(c.FpCmp(OpFpEq, x, y), c.And(c.FpUn(OpFpIsNaN, x, 0), c.FpUn(OpFpIsNaN, y, 0))))
	})
	zv("Assume", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		w.assumeV(a[0])
		return Value{}
	})
	zv("Assert", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		msg, _ := concString(a[1])
		w.assertV(a[0], msg)
		return Value{}
	})
	zv("Reach", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s, _ := concString(a[0])
		w.reached[s] = true
		return Value{}
	})
	obs := func(kind string) intrinsic {
		return func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
			s, _ := concString(a[0])
			v := a[1]
			if kind == "bool" {
				if t := v.term(); t != nil {
					v = Value{P: w.tc.BoolToBv(t, 64)}
				}
			}
			if kind == "float" {
				if t := v.term(); t != nil {
					if t.op == OpFpOfBits {
						v = Value{P: t.a}
					} else {
						v = Value{P: t}
					}
				}
			}
			w.observes = append(w.observes, obsRec{label: s, kind: kind, v: v})
			return Value{}
		}
	}
	zv("Observe", obs("int"))
	zv("ObserveBool", obs("bool"))
	zv("ObserveFloat", obs("float"))
	zv("ObserveStr", obs("string"))
	zv("Point", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if w.initPkg == nil {
			w.point()
		}
		return Value{}
	})
	zv("Atomic", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		w.noPreempt += int(int64(w.needConc(a[0])))
		return Value{}
	})
	zv("Yield", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		w.sleep(fr.g)
		return Value{}
	})
	zv("WaitUntil", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		w.block(fr.g, "harness condition", func() bool {
			saved := w.noPreempt
			w.noPreempt++
			r := w.callValue(fr.g, fr, a[0], nil, call)
			w.noPreempt = saved
			return w.branch(r)
		})
		return Value{}
	})
	// Quiesce runs the other goroutines until every one of them waits, sleeps or is done.
	zv("Quiesce", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		w.block(fr.g, "quiescence", func() bool {
			for _, g := range w.gs {
				if g == fr.g || g.done {
					continue
				}
				if g.asleep {
					continue
				}
				if g.ready == nil || g.ready() {
					return false
				}
			}
			return true
		})
		return Value{}
	})
	// Live returns the number of other goroutines that have not finished.
	zv("Live", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		n := 0
		for _, g := range w.gs {
			if g != fr.g && !g.done {
				n++
			}
		}
		return Value{N: uint64(n)}
	})
	zv("Bound", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s, _ := concString(a[0])
		n, ok := w.cfg.Bounds[s]
		if !ok {
			panic(unsupported("bound %s not configured", s))
		}
		return Value{N: uint64(n)}
	})
	zv("Spawn", noop)
	zv("Enter", noop)
	zv("Exit", noop)
	zv("Stop", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		panic(&pathAbort{"exit", ""})
	})

	// ---- sync ----
	mu := func(f func(w *Worker, g *G, m *mutexState)) intrinsic {
		return func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
			f(w, fr.g, w.mutexOf(a[0]))
			return Value{}
		}
	}
	reg("(*sync.Mutex).Lock", mu(func(w *Worker, g *G, m *mutexState) { w.lock(g, m) }))
	reg("(*sync.RWMutex).Lock", mu(func(w *Worker, g *G, m *mutexState) { w.lock(g, m) }))
	reg("(*sync.RWMutex).RLock", mu(func(w *Worker, g *G, m *mutexState) { w.rlock(g, m) }))
	reg("(*sync.Mutex).Unlock", mu(func(w *Worker, g *G, m *mutexState) { w.unlock(m) }))
	reg("(*sync.RWMutex).Unlock", mu(func(w *Worker, g *G, m *mutexState) { w.unlock(m) }))
	reg("(*sync.RWMutex).RUnlock", mu(func(w *Worker, g *G, m *mutexState) { w.runlock(m) }))
	try := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		m := w.mutexOf(a[0])
		if m.locked || m.readers > 0 {
			return Value{}
		}
		m.locked = true
		return Value{N: 1}
	}
	reg("(*sync.Mutex).TryLock", try)
	reg("(*sync.RWMutex).TryLock", try)
	reg("(*sync.WaitGroup).Add", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := w.wgOf(a[0])
		s.n += int64(w.needConc(a[1]))
		if s.n < 0 {
			w.rtPanic("sync: negative WaitGroup counter")
		}
		return Value{}
	})
	reg("(*sync.WaitGroup).Done", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := w.wgOf(a[0])
		s.n--
		if s.n < 0 {
			w.rtPanic("sync: negative WaitGroup counter")
		}
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := w.wgOf(a[0])
		w.block(fr.g, "wait group", func() bool { return s.n == 0 })
		return Value{}
	})
	reg("(*sync.WaitGroup).Go", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := w.wgOf(a[0])
		s.n++
		f := a[1]
		w.spawn(fr, Value{P: &Closure{native: func(w *Worker, _ []Value) Value {
			w.callValue(w.cur, nil, f, nil, call)
			s.n--
			return Value{}
		}}}, nil, call)
		return Value{}
	})
	locker := func(w *Worker, fr *frame, c *Value, method string) {
		// sync.Cond{noCopy, L, notify, checker}
		l := c.P.([]Value)[w.fieldIndex("sync", "Cond", "L")]
		if l.P == nil {
			w.nilDeref()
		}
		i := l.P.(*Iface)
		m := w.methodByName(i.t, method)
		w.callValue(fr.g, fr, Value{P: m}, []Value{i.v}, nil)
	}
	reg("(*sync.Cond).Wait", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := w.condOf(a[0])
		c := a[0].P.(*Value)
		cw := &condWaiter{}
		s.waiters = append(s.waiters, cw)
		locker(w, fr, c, "Unlock")
		w.block(fr.g, "condition variable", func() bool { return cw.woken })
		locker(w, fr, c, "Lock")
		return Value{}
	})
	reg("(*sync.Cond).Broadcast", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := w.condOf(a[0])
		for _, x := range s.waiters {
			x.woken = true
		}
		s.waiters = nil
		return Value{}
	})
	reg("(*sync.Cond).Signal", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := w.condOf(a[0])
		if len(s.waiters) > 0 {
			s.waiters[0].woken = true
			s.waiters = s.waiters[1:]
		}
		return Value{}
	})
	reg("(*sync.Pool).Get", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		f := a[0].P.(*Value).P.([]Value)[w.fieldIndex("sync", "Pool", "New")]
		if f.P == nil {
			return Value{}
		}
		return w.callValue(fr.g, fr, f, nil, nil)
	})
	reg("(*sync.Pool).Put", noop)

	// ---- atomics ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		wd := int32(64)
		if strings.HasSuffix(ty, "32") {
			wd = 32
		}
		for _, pkg := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			reg(pkg+"Load"+ty, func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return w.loadPtr(a[0]) })
			reg(pkg+"Store"+ty, func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
				w.store(w.cellOf(a[0]), a[1])
				return Value{}
			})
			reg(pkg+"Swap"+ty, func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
				c := w.cellOf(a[0])
				o := *c
				w.store(c, a[1])
				return o
			})
			reg(pkg+"CompareAndSwap"+ty, func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
				c := w.cellOf(a[0])
				var eq bool
				if ty == "Pointer" {
					eq = c.P == a[1].P
				} else if c.P == nil && a[1].P == nil {
					eq = c.N == a[1].N
				} else {
					eq = w.branch(w.boolVal(w.tc.Eq(w.toTermW(*c, wd), w.toTermW(a[1], wd))))
				}
				if eq {
					w.store(c, a[2])
				}
				return Value{N: b2u(eq)}
			})
			if ty != "Pointer" {
				reg(pkg+"Add"+ty, func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
					c := w.cellOf(a[0])
					var n Value
					if c.P == nil && a[1].P == nil {
						n = Value{N: (c.N + a[1].N) & mask(wd)}
					} else {
						n = w.fromTerm(w.tc.Bin(OpBvAdd, w.toTermW(*c, wd), w.toTermW(a[1], wd)))
					}
					w.store(c, n)
					return n
				})
			}
		}
	}
	reg("(*sync/atomic.Value).Load", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return w.cellOf(a[0]).P.([]Value)[0]
	})
	reg("(*sync/atomic.Value).Store", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		w.store(&w.cellOf(a[0]).P.([]Value)[0], a[1])
		return Value{}
	})

	// ---- time, runtime ----
	// the environment is empty
	reg("syscall.Getenv", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return Value{P: []Value{{}, {}}}
	})
	reg("time.Sleep", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		w.sleep(fr.g)
		return Value{}
	})
	one := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return Value{N: 1} }
	reg("time.runtimeNano", one)
	reg("time.runtimeNow", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return Value{P: []Value{{N: 1}, {}, {N: 1}}}
	})
	reg("time.now", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		panic(unsupported("time.Now"))
	})
	reg("runtime.Gosched", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		w.sleep(fr.g)
		return Value{}
	})
	reg("runtime.SetFinalizer", noop)
	reg("runtime.KeepAlive", noop)
	reg("os.Exit", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		panic(&pathAbort{"panic", "the process exits"})
	})
	reg("internal/abi.NoEscape", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return a[0] })
	reg("internal/godebug.New", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return Value{P: &Value{P: []Value{}}}
	})
	reg("(*internal/godebug.Setting).Value", noop)
	reg("(*internal/godebug.Setting).IncNonDefault", noop)

	// ---- strings, bytes ----
	reg("(*strings.Builder).copyCheck", noop)
	reg("(*strings.Builder).String", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := sliceOf(w.cellOf(a[0]).P.([]Value)[w.fieldIndex("strings", "Builder", "buf")])
		return mkBytesStr(append([]Value(nil), s...))
	})
	reg("internal/bytealg.MakeNoZero", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		n := int(w.needConc(a[0]))
		return Value{P: &Slice{a: make([]Value, n)}}
	})
	reg("strings.Clone", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return a[0] })
	reg("internal/stringslite.Clone", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return a[0] })
	bytesOf := func(v Value) []Value {
		if s, ok := v.P.(*Slice); ok {
			return s.a
		}
		return strBytes(v)
	}
	idxByte := func(w *Worker, b []Value, c Value) Value {
		for i := range b {
			if w.branch(w.boolVal(w.tc.Eq(w.toTermW(b[i], 8), w.toTermW(c, 8)))) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	fIdxByte := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return idxByte(w, bytesOf(a[0]), a[1])
	}
	reg("internal/bytealg.IndexByte", fIdxByte)
	reg("internal/bytealg.IndexByteString", fIdxByte)
	fLast := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		b := bytesOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.branch(w.boolVal(w.tc.Eq(w.toTermW(b[i], 8), w.toTermW(a[1], 8)))) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	reg("internal/bytealg.LastIndexByte", fLast)
	reg("internal/bytealg.LastIndexByteString", fLast)
	fCount := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		n := 0
		for _, x := range bytesOf(a[0]) {
			if w.branch(w.boolVal(w.tc.Eq(w.toTermW(x, 8), w.toTermW(a[1], 8)))) {
				n++
			}
		}
		return Value{N: uint64(n)}
	}
	reg("internal/bytealg.Count", fCount)
	reg("internal/bytealg.CountString", fCount)
	fIndex := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		x, y := bytesOf(a[0]), bytesOf(a[1])
		sx, c1 := concString(a[0])
		sy, c2 := concString(a[1])
		_, b1 := a[0].P.(*Slice)
		_, b2 := a[1].P.(*Slice)
		if c1 && c2 && !b1 && !b2 {
			return Value{N: uint64(int64(strings.Index(sx, sy)))}
		}
		for i := 0; i+len(y) <= len(x); i++ {
			if w.branch(w.strEq(mkBytesStr(x[i:i+len(y)]), mkBytesStr(y))) {
				return Value{N: uint64(i)}
			}
		}
		return Value{N: ^uint64(0)}
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		reg(n, fIndex)
	}
	reg("strings.Count", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		sx, c1 := concString(a[0])
		sy, c2 := concString(a[1])
		if c1 && c2 {
			return Value{N: uint64(strings.Count(sx, sy))}
		}
		if strLen(a[1]) == 0 {
			panic(unsupported("strings.Count with an empty separator"))
		}
		x, y := strBytes(a[0]), strBytes(a[1])
		n := 0
		for i := 0; i+len(y) <= len(x); {
			if w.branch(w.strEq(mkBytesStr(x[i:i+len(y)]), mkBytesStr(y))) {
				n++
				i += len(y)
			} else {
				i++
			}
		}
		return Value{N: uint64(n)}
	})
	reg("bytes.Equal", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return w.strEq(mkBytesStr(bytesOf(a[0])), mkBytesStr(bytesOf(a[1])))
	})
	cmp := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		x, y := mkBytesStr(bytesOf(a[0])), mkBytesStr(bytesOf(a[1]))
		if w.branch(w.strEq(x, y)) {
			return Value{}
		}
		if w.branch(w.strLess(x, y)) {
			return Value{N: ^uint64(0)}
		}
		return Value{N: 1}
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	reg("bytes.Compare", cmp)

	// ---- math ----
	f1 := func(name string, conc func(float64) float64, sym func(w *Worker, t *Term) *Term) {
		reg(name, func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
			if a[0].P == nil {
				return Value{N: math.Float64bits(conc(math.Float64frombits(a[0].N)))}
			}
			if sym == nil {
				panic(unsupported("%s of a symbolic value", name))
			}
			return w.fromTermW(sym(w, a[0].term()), SortFP)
		})
	}
	rnd := func(mode uint64) func(w *Worker, t *Term) *Term {
		return func(w *Worker, t *Term) *Term { return w.tc.FpUn(OpFpRti, t, mode) }
	}
	f1("math.Floor", math.Floor, rnd(0))
	f1("math.Ceil", math.Ceil, rnd(1))
	f1("math.Trunc", math.Trunc, rnd(2))
	f1("math.Abs", math.Abs, func(w *Worker, t *Term) *Term { return w.tc.FpUn(OpFpAbs, t, 0) })
	f1("math.Sqrt", math.Sqrt, func(w *Worker, t *Term) *Term { return w.tc.FpUn(OpFpSqrt, t, 0) })
	f1("math.Round", math.Round, rnd(3))
	f1("math.RoundToEven", math.RoundToEven, rnd(4))
	f1("math.Log", math.Log, nil)
	f1("math.Exp", math.Exp, nil)
	f1("math.Log2", math.Log2, nil)
	f1("math.Log10", math.Log10, nil)
	reg("math.Pow", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[0].P != nil || a[1].P != nil {
			panic(unsupported("math.Pow of a symbolic value"))
		}
		return Value{N: math.Float64bits(math.Pow(math.Float64frombits(a[0].N), math.Float64frombits(a[1].N)))}
	})
	w2intrinsics(reg)
	reg("math.IsNaN", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[0].P == nil {
			return Value{N: b2u(math.IsNaN(math.Float64frombits(a[0].N)))}
		}
		return w.boolVal(w.tc.FpUn(OpFpIsNaN, a[0].term(), 0))
	})
	reg("math.Modf", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[0].P == nil {
			i, f := math.Modf(math.Float64frombits(a[0].N))
			return Value{P: []Value{{N: math.Float64bits(i)}, {N: math.Float64bits(f)}}}
		}
		t := a[0].term()
		ip := w.tc.FpUn(OpFpRti, t, 2)
		return Value{P: []Value{w.fromTermW(ip, SortFP), w.fromTermW(w.tc.FpBin(OpFpSub, t, ip), SortFP)}}
	})
	reg("crypto/internal/constanttime.boolToUint8", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if t := a[0].term(); t != nil {
			return w.fromTerm(w.tc.Ite(t, w.tc.Const(8, 1), w.tc.Const(8, 0)))
		}
		return a[0]
	})
	reg("math.Float64bits", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if t := a[0].term(); t != nil {
			if t.op == OpFpOfBits {
				return w.fromTerm(t.a)
			}
			panic(unsupported("bits of a computed symbolic float"))
		}
		return a[0]
	})
	reg("math.Float64frombits", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if t := a[0].term(); t != nil {
			return w.fromTermW(w.tc.FpOfBits(t), SortFP)
		}
		return a[0]
	})
	reg("math.Float32bits", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return a[0] })
	reg("math.Float32frombits", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return a[0] })

	// ---- math/big on 128-bit integers ----
	bigOf := func(w *Worker, v Value) *bigVal {
		s := w.cellOf(v).P.([]Value)
		if b, ok := s[1].P.(*bigVal); ok {
			return b
		}
		return &bigVal{c: new(big.Int)}
	}
	bigSet := func(w *Worker, v Value, b *bigVal) Value {
		w.store(&w.cellOf(v).P.([]Value)[1], Value{P: b})
		return v
	}
	bt := func(w *Worker, b *bigVal) *Term {
		if b.t != nil {
			return b.t
		}
		if !b.c.IsInt64() {
			panic(unsupported("big constant above 64 bits"))
		}
		return w.tc.Sext(w.tc.Const(64, uint64(b.c.Int64())), 128)
	}
	fromInt := func(w *Worker, v Value) *bigVal {
		if v.P == nil {
			return &bigVal{c: big.NewInt(int64(v.N))}
		}
		return &bigVal{t: w.tc.Sext(v.term(), 128)}
	}
	reg("math/big.NewInt", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		c := &Value{P: []Value{{}, {}}}
		c.P.([]Value)[1] = Value{P: fromInt(w, a[0])}
		return Value{P: c}
	})
	reg("(*math/big.Int).SetInt64", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return bigSet(w, a[0], fromInt(w, a[1]))
	})
	reg("(*math/big.Int).Set", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return bigSet(w, a[0], bigOf(w, a[1]))
	})
	bin := func(name string, op Op, conc func(z, x, y *big.Int) *big.Int) {
		reg("(*math/big.Int)."+name, func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
			x, y := bigOf(w, a[1]), bigOf(w, a[2])
			if x.t == nil && y.t == nil {
				if (name == "Div" || name == "Quo") && y.c.Sign() == 0 {
					w.rtPanic("division by zero")
				}
				return bigSet(w, a[0], &bigVal{c: conc(new(big.Int), x.c, y.c)})
			}
			tx, ty := bt(w, x), bt(w, y)
			if name == "Mul" {
				panic(unsupported("symbolic big multiplication"))
			}
			if name == "Div" || name == "Quo" {
				if y.t != nil {
					panic(unsupported("symbolic big divisor"))
				}
				if y.c.Sign() == 0 {
					w.rtPanic("division by zero")
				}
				q := w.tc.Bin(OpBvSdiv, tx, ty)
				if name == "Div" {
					// Euclidean: the remainder is never negative
					if y.c.Sign() < 0 {
						panic(unsupported("big division by a negative number"))
					}
					r := w.tc.Bin(OpBvSub, tx, w.tc.Bin(OpBvMul, q, ty))
					neg := w.tc.Cmp(OpBvSlt, r, w.tc.Sext(w.tc.Const(64, 0), 128))
					q = w.tc.Ite(neg, w.tc.Bin(OpBvSub, q, w.tc.Sext(w.tc.Const(64, 1), 128)), q)
				}
				return bigSet(w, a[0], &bigVal{t: q})
			}
			return bigSet(w, a[0], &bigVal{t: w.tc.Bin(op, tx, ty)})
		})
	}
	bin("Add", OpBvAdd, func(z, x, y *big.Int) *big.Int { return z.Add(x, y) })
	bin("Sub", OpBvSub, func(z, x, y *big.Int) *big.Int { return z.Sub(x, y) })
	bin("Mul", OpBvMul, func(z, x, y *big.Int) *big.Int { return z.Mul(x, y) })
	bin("Div", OpBvSdiv, func(z, x, y *big.Int) *big.Int { return z.Div(x, y) })
	bin("Quo", OpBvSdiv, func(z, x, y *big.Int) *big.Int { return z.Quo(x, y) })
	reg("(*math/big.Int).Int64", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		b := bigOf(w, a[0])
		if b.t == nil {
			lo := new(big.Int).And(b.c, new(big.Int).SetUint64(^uint64(0)))
			if b.c.Sign() < 0 {
				lo = new(big.Int).Mod(b.c, new(big.Int).Lsh(big.NewInt(1), 64))
			}
			return Value{N: lo.Uint64()}
		}
		return w.fromTerm(w.tc.Extract(b.t, 0, 64))
	})

	// ---- fmt ----
	reg("fmt.Sprintf", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return w.sprintf(fr, a[0], sliceOf(a[1]))
	})
	reg("fmt.Sprint", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return w.sprint(fr, sliceOf(a[0]), false)
	})
	reg("fmt.Sprintln", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return w.sprint(fr, sliceOf(a[0]), true)
	})
	reg("fmt.Errorf", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		s := w.sprintf(fr, a[0], sliceOf(a[1]))
		f, _ := concString(a[0])
		if strings.Count(f, "%w") == 1 {
			// find the wrapped error
			for _, x := range sliceOf(a[1]) {
				if i, ok := x.P.(*Iface); ok && w.hasMethod(i.t, "Error") && w.eng.wrapErrorPtr != nil {
					return Value{P: &Iface{t: w.canon(w.eng.wrapErrorPtr), v: Value{P: &Value{P: []Value{s, x}}}}}
				}
			}
		}
		return w.errorValueS(s)
	})
	fwrite := func(w *Worker, fr *frame, wr Value, s Value) Value {
		if wr.P == nil {
			w.nilDeref()
		}
		i := wr.P.(*Iface)
		if _, op := s.P.(*OpaqueStr); op {
			if i.t.String() == "*os.File" {
				return Value{P: []Value{{}, {}}}
			}
			panic(unsupported("writing an opaque string"))
		}
		if i.t.String() == "*os.File" {
			return Value{P: []Value{{N: uint64(strLen(s))}, {}}}
		}
		m := w.methodByName(i.t, "Write")
		b := append([]Value(nil), strBytes(s)...)
		return w.callValue(fr.g, fr, Value{P: m}, []Value{i.v, {P: &Slice{a: b}}}, nil)
	}
	reg("fmt.Fprintf", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return fwrite(w, fr, a[0], w.sprintf(fr, a[1], sliceOf(a[2])))
	})
	reg("fmt.Fprint", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return fwrite(w, fr, a[0], w.sprint(fr, sliceOf(a[1]), false))
	})
	reg("fmt.Fprintln", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return fwrite(w, fr, a[0], w.sprint(fr, sliceOf(a[1]), true))
	})
	pr := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value { return Value{P: []Value{{}, {}}} }
	reg("fmt.Printf", pr)
	reg("fmt.Println", pr)
	reg("fmt.Print", pr)

	// ---- registration of generated messages ----
	for _, n := range []string{"RegisterType", "RegisterFile", "RegisterEnum"} {
		reg("github.com/golang/protobuf/proto."+n, noop)
	}
	reg("github.com/golang/protobuf/proto.EnumName", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return Value{P: &OpaqueStr{key: "enum"}}
	})

	// ---- reflect, just enough for type names ----
	reg("reflect.New", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[0].P == nil {
			w.rtPanic("reflect: New(nil)")
		}
		t := w.canon(w.cellType(a[0].P.(*Iface).v))
		z := zero(t)
		return Value{P: []Value{{}, {P: &Iface{t: w.canon(types.NewPointer(t)), v: Value{P: &z}}}, {}}}
	})
	reg("(reflect.Value).Interface", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		f, ok := a[0].P.([]Value)
		if !ok || f[1].P == nil {
			panic(unsupported("reflect.Value"))
		}
		return f[1]
	})
	reg("reflect.TypeOf", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if a[0].P == nil {
			return Value{}
		}
		rt := w.eng.findType("reflect", "rtype")
		t := w.canon(a[0].P.(*Iface).t)
		return Value{P: &Iface{t: w.canon(types.NewPointer(rt)), v: Value{P: w.typeCell(t)}}}
	})
	rl := func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		t := w.eng.findType("internal/reflectlite", "rtype")
		return Value{P: &Iface{t: w.canon(t), v: zero(t)}}
	}
	reg("internal/reflectlite.TypeOf", rl)
	reg("(internal/reflectlite.rtype).Elem", rl)
	reg("(*reflect.rtype).String", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		return mkString(types.TypeString(w.cellType(a[0]), func(p *types.Package) string { return p.Name() }))
	})
	reg("(*reflect.rtype).Name", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		if n, ok := w.cellType(a[0]).(*types.Named); ok {
			return mkString(n.Obj().Name())
		}
		return Value{}
	})
	reg("(*reflect.rtype).Elem", func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
		var e types.Type
		switch u := w.cellType(a[0]).Underlying().(type) {
		case *types.Pointer:
			e = u.Elem()
		case *types.Slice:
			e = u.Elem()
		default:
			panic(unsupported("reflect Elem"))
		}
		return Value{P: &Iface{t: w.canon(types.NewPointer(w.eng.findType("reflect", "rtype"))), v: Value{P: w.typeCell(w.canon(e))}}}
	})
}

type bigVal struct {
	c *big.Int
	t *Term
}

func (w *Worker) typeCell(t types.Type) *Value {
	if w.typeCells == nil {
		w.typeCells = map[types.Type]*Value{}
		w.cellTypes = map[*Value]types.Type{}
	}
	c := w.typeCells[t]
	if c == nil {
		c = &Value{P: []Value{}}
		w.typeCells[t] = c
		w.cellTypes[c] = t
	}
	return c
}

func (w *Worker) cellType(v Value) types.Type {
	c, _ := v.P.(*Value)
	t := w.cellTypes[c]
	if t == nil {
		panic(unsupported("unknown reflect type"))
	}
	return t
}

func (w *Worker) inName(v Value) string {
	s, ok := concString(v)
	if !ok {
		panic(unsupported("symbolic input name"))
	}
	n := w.inputN[s]
	w.inputN[s] = n + 1
	if n > 0 {
		s = fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (w *Worker) input(name, kind string, wd int32) Value {
	v := Value{P: w.tc.Var(name, wd)}
	w.inputs = append(w.inputs, inputRec{Name: name, Kind: kind, v: []Value{v}, wd: wd})
	return v
}

func (w *Worker) needConc(v Value) uint64 {
	if v.P != nil {
		panic(unsupported("symbolic value where a concrete one is needed"))
	}
	return v.N
}

func (w *Worker) cellOf(v Value) *Value {
	c, _ := v.P.(*Value)
	if c == nil {
		if sp, ok := v.P.(*SymPtr); ok {
			return w.concPtr(sp)
		}
		w.nilDeref()
	}
	return c
}

func (w *Worker) fieldIndex(pkg, typ, field string) int {
	t := w.eng.findType(pkg, typ)
	if t == nil {
		panic(unsupported("type %s.%s", pkg, typ))
	}
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return i
		}
	}
	panic(unsupported("field %s.%s.%s", pkg, typ, field))
}

func (w *Worker) hasMethod(t types.Type, name string) bool {
	ms := w.eng.methodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func (w *Worker) methodByName(t types.Type, name string) *Closure {
	ms := w.eng.methodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.lookupMethod(t, ms.At(i).Obj().(*types.Func))
		}
	}
	panic(unsupported("method %s of %v", name, t))
}

// ---- formatting ----

func (w *Worker) sprintf(fr *frame, format Value, args []Value) Value {
	f, ok := concString(format)
	if !ok {
		return Value{P: &OpaqueStr{key: "fmt(" + w.strKey(format) + ")"}}
	}
	var out Value
	add := func(v Value) { out = w.strConcat(out, v) }
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			add(mkString(f[i:]))
			break
		}
		add(mkString(f[i : i+j]))
		i += j
		// scan the verb
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.*", f[k]) >= 0 {
			if f[k] == '*' { // put the width in
				if ai >= len(args) {
					panic(unsupported("fmt width *"))
				}
				x, ok := args[ai].P.(*Iface)
				if !ok || x.v.P != nil || !types.Identical(x.t, types.Typ[types.Int]) {
					panic(unsupported("fmt width *"))
				}
				ai++
				n := strconv.FormatInt(int64(x.v.N), 10)
				f = f[:k] + n + f[k+1:]
				k += len(n)
				continue
			}
			k++
		}
		if k >= len(f) {
			add(mkString("%!(NOVERB)"))
			break
		}
		spec, verb := f[i:k+1], f[k]
		i = k + 1
		if verb == '%' {
			add(mkString("%"))
			continue
		}
		if ai >= len(args) {
			add(mkString("%!" + string(verb) + "(MISSING)"))
			continue
		}
		add(w.formatArg(fr, spec, verb, args[ai]))
		ai++
	}
	if ai < len(args) {
		add(mkString("%!(EXTRA ...)"))
	}
	return out
}

func (w *Worker) sprint(fr *frame, args []Value, ln bool) Value {
	var out Value
	for i, a := range args {
		if i > 0 {
			isS := func(v Value) bool {
				x, ok := v.P.(*Iface)
				return ok && isString(x.t)
			}
			if ln || !isS(a) && !isS(args[i-1]) {
				out = w.strConcat(out, mkString(" "))
			}
		}
		out = w.strConcat(out, w.formatArg(fr, "%v", 'v', a))
	}
	if ln {
		out = w.strConcat(out, mkString("\n"))
	}
	return out
}

func (w *Worker) formatArg(fr *frame, spec string, verb byte, a Value) Value {
	if a.P == nil {
		return mkString(fmt.Sprintf(spec, nil))
	}
	i := a.P.(*Iface)
	if verb == 'T' {
		return mkString(types.TypeString(i.t, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'w' {
		verb = 'v'
		spec = strings.Replace(spec, "w", "v", 1)
	}
	if (verb == 'v' || verb == 's' || verb == 'q') && !strings.Contains(spec, "#") {
		for _, m := range []string{"Error", "String"} {
			if w.hasMethod(i.t, m) {
				ms := w.methodByName(i.t, m)
				if ms.fn.Signature.Params().Len() == 0 && ms.fn.Signature.Results().Len() == 1 {
					if _, isPtr := i.t.Underlying().(*types.Pointer); isPtr && i.v.P == nil {
						return mkString("<nil>")
					}
					s := w.callValue(fr.g, fr, Value{P: ms}, []Value{i.v}, nil)
					return w.formatStr(spec, verb, s)
				}
			}
		}
	}
	return w.formatVal(fr, spec, verb, i.v, i.t, 0)
}

func (w *Worker) formatStr(spec string, verb byte, s Value) Value {
	if c, ok := concString(s); ok {
		return mkString(fmt.Sprintf(spec, c))
	}
	if spec == "%s" || spec == "%v" {
		return s
	}
	return Value{P: &OpaqueStr{key: spec + "(" + w.strKey(s) + ")"}}
}

var padSpec = regexp.MustCompile(`^%0([1-9])d$`)

func (w *Worker) formatVal(fr *frame, spec string, verb byte, v Value, t types.Type, depth int) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return w.formatStr(spec, verb, v)
		}
		if v.P != nil {
			tm := v.term()
			if tm == nil {
				return Value{P: &OpaqueStr{key: spec + "(?)"}}
			}
			pad := 0
			if m := padSpec.FindStringSubmatch(spec); m != nil && w.cfg.ExactInt {
				pad, _ = strconv.Atoi(m[1])
			}
			if w.cfg.ExactInt && (spec == "%d" || spec == "%v" || pad > 0) && u.Info()&types.IsInteger != 0 {
				var s Value
				if isSigned(t) {
					fn := w.eng.findFunc(zvPath, "DecimalText")
					s = w.callFunc(fr.g, fr, w.compile(fn), []Value{w.idx64(v, t)}, nil, nil)
				} else {
					fn := w.eng.findFunc(zvPath, "DecimalTextU")
					s = w.callFunc(fr.g, fr, w.compile(fn), []Value{w.idx64(v, t)}, nil, nil)
				}
				if b := strBytes(s); len(b) < pad {
					k := 0
					if isSigned(t) && len(b) > 0 && b[0].P == nil && b[0].N == '-' {
						k = 1
					}
					out := append([]Value{}, b[:k]...)
					for len(out)+len(b)-k < pad {
						out = append(out, Value{N: '0'})
					}
					s = mkBytesStr(append(out, b[k:]...))
				}
				return s
			}
			o := &OpaqueStr{key: fmt.Sprintf("%s(t%d)", spec, tm.id)}
			if (spec == "%d" || spec == "%v") && isSigned(t) {
				o.kind, o.num = "int", w.idx64(v, t).term()
			}
			return Value{P: o}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return mkString(fmt.Sprintf(spec, v.N != 0))
		case u.Kind() == types.Float32:
			return mkString(fmt.Sprintf(spec, math.Float32frombits(uint32(v.N))))
		case u.Info()&types.IsFloat != 0:
			return mkString(fmt.Sprintf(spec, math.Float64frombits(v.N)))
		case isSigned(t):
			return mkString(fmt.Sprintf(spec, sext64(v.N, width(t))))
		case u.Info()&types.IsInteger != 0:
			return mkString(fmt.Sprintf(spec, v.N))
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 's' || verb == 'x') {
			s := mkBytesStr(sliceOf(v))
			return w.formatStr(spec, verb, s)
		}
		out := mkString("[")
		for k, x := range sliceOf(v) {
			if k > 0 {
				out = w.strConcat(out, mkString(" "))
			}
			out = w.strConcat(out, w.formatElem(fr, spec, verb, x, u.Elem(), depth+1))
		}
		return w.strConcat(out, mkString("]"))
	case *types.Array:
		out := mkString("[")
		for k, x := range v.P.([]Value) {
			if k > 0 {
				out = w.strConcat(out, mkString(" "))
			}
			out = w.strConcat(out, w.formatElem(fr, spec, verb, x, u.Elem(), depth+1))
		}
		return w.strConcat(out, mkString("]"))
	case *types.Struct:
		out := mkString("{")
		for k, x := range v.P.([]Value) {
			if k > 0 {
				out = w.strConcat(out, mkString(" "))
			}
			out = w.strConcat(out, w.formatElem(fr, spec, verb, x, u.Field(k).Type(), depth+1))
		}
		return w.strConcat(out, mkString("}"))
	case *types.Pointer:
		if v.P == nil {
			return mkString("<nil>")
		}
	case *types.Interface:
		return w.formatArg(fr, spec, verb, v)
	}
	return Value{P: &OpaqueStr{key: fmt.Sprintf("%s(%T %p)", spec, v.P, v.P)}}
}

func (w *Worker) formatElem(fr *frame, spec string, verb byte, v Value, t types.Type, depth int) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return w.formatArg(fr, spec, verb, v)
	}
	return w.formatArg(fr, spec, verb, Value{P: &Iface{t: w.canon(t), v: v}})
}

// checkGlobal rejects reads of globals whose package was not initialised.
func (w *Worker) checkGlobal(g *ssa.Global) {
	p := g.Pkg.Pkg
	if w.inited[p] {
		return
	}
	switch p.Path() {
	case "os":
		switch g.Name() {
		case "Stdout", "Stderr", "Stdin", "Args":
			return
		}
	}
	switch p.Path() {
	case "os", "io/fs", "internal/oserror":
		if text, ok := map[string]string{"ErrInvalid": "invalid argument", "ErrPermission": "permission denied", "ErrExist": "file already exists", "ErrNotExist": "file does not exist", "ErrClosed": "file already closed"}[g.Name()]; ok {
			e, ok := w.osErrs[g.Name()]
			if !ok {
				if w.osErrs == nil {
					w.osErrs = make(map[string]Value)
				}
				e = w.errorValue(text)
				w.osErrs[g.Name()] = e
			}
			*w.global(g) = e
			return
		}
	}
	if g.Name() == "init$guard" || w.eng.allowGlobals[p.Path()] {
		return
	}
	panic(unsupported("global %s.%s of a package outside the model", p.Path(), g.Name()))
}

func jsonKey(field, tag string) string {
	v := reflect.StructTag(tag).Get("json")
	if v == "-" {
		return ""
	}
	if i := strings.IndexByte(v, ','); 0 <= i {
		v = v[:i]
	}
	if v == "" {
		return field
	}
	return v
}
