package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type operand struct {
	reg int // >=0: register; -1: constant
	c   Value
}

type cinstr struct {
	in   ssa.Instruction
	kind ikind
	dst  int
	ops  []operand
	aux  any
	typ  types.Type // result type
}

type ikind uint8

const (
	kAlloc ikind = iota
	kBinOp
	kCall
	kChangeInterface
	kChangeType
	kConvert
	kDefer
	kExtract
	kField
	kFieldAddr
	kGo
	kIf
	kIndex
	kIndexAddr
	kJump
	kLookup
	kMakeChan
	kMakeClosure
	kMakeInterface
	kMakeMap
	kMakeSlice
	kMapUpdate
	kMultiConvert
	kNext
	kPanic
	kPhi
	kRange
	kReturn
	kRunDefers
	kSelect
	kSend
	kSlice
	kSliceToArrayPointer
	kStore
	kTypeAssert
	kUnOp
	kNop
)

type cblock struct {
	b      *ssa.BasicBlock
	instrs []cinstr
	nphi   int
	preds  map[*ssa.BasicBlock]int
	succs  []*cblock
}

type cfn struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*cblock
	recov    *cblock
	hasDefer bool
	params   []int
	fvs      []int
	intrin   intrinsic
	pre      func(w *Worker, args []Value) (Value, bool)
	isRepo   bool
	isInit   bool
	name     string
}

type intrinsic func(w *Worker, fr *frame, args []Value, call *ssa.CallCommon) Value

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	w         *Worker
	g         *G
	fn        *cfn
	regs      []Value
	block     *cblock
	prev      *cblock
	caller    *frame
	defers    []deferred
	panicking bool
	panicVal  any
	result    Value
	pc        int
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v  Value // interface value
	rt string
}

type pathAbort struct {
	kind string // infeasible, unsupported, limit, violation, killed, exit
	msg  string
}

func (w *Worker) rtPanic(msg string) {
	panic(&targetPanic{rt: msg, v: w.errorValue(msg)})
}

func (w *Worker) nilDeref() {
	w.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

// errorValue builds an error interface value with the given text.
func (w *Worker) errorValue(msg string) Value {
	return w.errorValueS(mkString(msg))
}

func (w *Worker) errorValueS(msg Value) Value {
	t := w.eng.errorStringPtr
	cell := &Value{P: []Value{msg}}
	return Value{P: &Iface{t: t, v: Value{P: cell}}}
}

func (w *Worker) compile(fn *ssa.Function) *cfn {
	if c, ok := w.fns[fn]; ok {
		return c
	}
	c := &cfn{fn: fn, name: funcName(fn)}
	w.fns[fn] = c
	if in, ok := intrinsics[c.name]; ok {
		c.intrin = in
		return c
	}
	if in := w.eng.dynamicIntrinsic(fn, c.name); in != nil {
		c.intrin = in
		return c
	}
	c.pre = preIntrinsics[c.name]
	c.isRepo = w.eng.isRepo(fn)
	c.isInit = fn.Synthetic == "package initializer"
	if len(fn.Blocks) == 0 {
		name := c.name
		c.intrin = func(w *Worker, fr *frame, args []Value, call *ssa.CallCommon) Value {
			panic(unsupported("external function %s", name))
		}
		return c
	}
	regs := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		i := len(regs)
		regs[v] = i
		return i
	}
	for _, p := range fn.Params {
		c.params = append(c.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		c.fvs = append(c.fvs, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	c.nregs = len(regs)
	bm := map[*ssa.BasicBlock]*cblock{}
	all := fn.Blocks
	for _, b := range all {
		bm[b] = &cblock{b: b}
		c.blocks = append(c.blocks, bm[b])
	}
	if fn.Recover != nil {
		if _, ok := bm[fn.Recover]; !ok {
			bm[fn.Recover] = &cblock{b: fn.Recover}
		}
		c.recov = bm[fn.Recover]
	}
	for b, cb := range bm {
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, bm[s])
		}
		cb.preds = map[*ssa.BasicBlock]int{}
		for i, p := range b.Preds {
			cb.preds[p] = i
		}
		for _, in := range b.Instrs {
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
				ci.typ = v.Type()
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					ci.ops = append(ci.ops, operand{reg: -1})
					continue
				}
				ci.ops = append(ci.ops, w.operandOf(*op, regs))
			}
			w.classify(&ci)
			if ci.kind == kPhi {
				cb.nphi++
			}
			if ci.kind == kDefer {
				c.hasDefer = true
			}
			cb.instrs = append(cb.instrs, ci)
		}
	}
	return c
}

func funcName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (w *Worker) operandOf(v ssa.Value, regs map[ssa.Value]int) operand {
	if r, ok := regs[v]; ok {
		return operand{reg: r}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return operand{reg: -1, c: w.constVal(x)}
	case *ssa.Global:
		return operand{reg: -1, c: Value{P: w.global(x)}}
	case *ssa.Function:
		return operand{reg: -1, c: Value{P: w.funcVal(x)}}
	case *ssa.Builtin:
		return operand{reg: -1, c: Value{P: &Closure{builtin: x}}}
	}
	panic(unsupported("operand %T", v))
}

func (w *Worker) funcVal(f *ssa.Function) *Closure {
	if c, ok := w.fvals[f]; ok {
		return c
	}
	c := &Closure{fn: f}
	w.fvals[f] = c
	return c
}

func (w *Worker) global(g *ssa.Global) *Value {
	if c, ok := w.globals[g]; ok {
		return c
	}
	c := new(Value)
	*c = zero(g.Type().(*types.Pointer).Elem())
	w.globals[g] = c
	return c
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		// type parameter instantiated constant etc.
		panic(unsupported("constant of type %v", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return Value{N: b2u(constant.BoolVal(c.Value))}
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return mkString(constant.StringVal(c.Value))
		}
		return mkString(string(rune(c.Int64())))
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			return Value{N: uint64(math.Float32bits(float32(f)))}
		}
		return Value{N: math.Float64bits(f)}
	case b.Info()&types.IsInteger != 0:
		var n uint64
		if b.Info()&types.IsUnsigned != 0 {
			n = c.Uint64()
		} else {
			n = uint64(c.Int64())
		}
		return Value{N: n & mask(width(t))}
	case b.Kind() == types.UnsafePointer:
		return Value{}
	case b.Info()&types.IsComplex != 0:
		return Value{P: c.Complex128()}
	}
	panic(unsupported("constant %v", c))
}

func (w *Worker) classify(ci *cinstr) {
	switch x := ci.in.(type) {
	case *ssa.Alloc:
		ci.kind = kAlloc
	case *ssa.BinOp:
		ci.kind = kBinOp
	case *ssa.Call:
		ci.kind = kCall
	case *ssa.ChangeInterface:
		ci.kind = kChangeInterface
	case *ssa.ChangeType:
		ci.kind = kChangeType
	case *ssa.Convert:
		ci.kind = kConvert
	case *ssa.MultiConvert:
		ci.kind = kMultiConvert
	case *ssa.Defer:
		ci.kind = kDefer
	case *ssa.Extract:
		ci.kind = kExtract
	case *ssa.Field:
		ci.kind = kField
	case *ssa.FieldAddr:
		ci.kind = kFieldAddr
	case *ssa.Go:
		ci.kind = kGo
	case *ssa.If:
		ci.kind = kIf
	case *ssa.Index:
		ci.kind = kIndex
	case *ssa.IndexAddr:
		ci.kind = kIndexAddr
	case *ssa.Jump:
		ci.kind = kJump
	case *ssa.Lookup:
		ci.kind = kLookup
	case *ssa.MakeChan:
		ci.kind = kMakeChan
	case *ssa.MakeClosure:
		ci.kind = kMakeClosure
	case *ssa.MakeInterface:
		ci.kind = kMakeInterface
		ci.aux = w.canon(x.X.Type())
	case *ssa.MakeMap:
		ci.kind = kMakeMap
	case *ssa.MakeSlice:
		ci.kind = kMakeSlice
	case *ssa.MapUpdate:
		ci.kind = kMapUpdate
	case *ssa.Next:
		ci.kind = kNext
	case *ssa.Panic:
		ci.kind = kPanic
	case *ssa.Phi:
		ci.kind = kPhi
	case *ssa.Range:
		ci.kind = kRange
	case *ssa.Return:
		ci.kind = kReturn
	case *ssa.RunDefers:
		ci.kind = kRunDefers
	case *ssa.Select:
		ci.kind = kSelect
	case *ssa.Send:
		ci.kind = kSend
	case *ssa.Slice:
		ci.kind = kSlice
	case *ssa.SliceToArrayPointer:
		ci.kind = kSliceToArrayPointer
	case *ssa.Store:
		ci.kind = kStore
	case *ssa.TypeAssert:
		ci.kind = kTypeAssert
	case *ssa.UnOp:
		ci.kind = kUnOp
	case *ssa.DebugRef:
		ci.kind = kNop
	default:
		panic(unsupported("instruction %T", ci.in))
	}
}

func (fr *frame) get(o *operand) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	return o.c
}

// callFunc runs fn with args (and captured env).
func (w *Worker) callFunc(g *G, caller *frame, fn *cfn, args []Value, env []Value, call *ssa.CallCommon) Value {
	if fn.isInit && caller != nil {
		return Value{} // packages are initialised one by one
	}
	if fn.intrin != nil {
		fr := &frame{w: w, g: g, fn: fn, caller: caller}
		w.top = fr
		r := fn.intrin(w, fr, args, call)
		w.top = caller
		return r
	}
	if fn.pre != nil {
		if v, ok := fn.pre(w, args); ok {
			return v
		}
	}
	g.depth++
	if g.depth > w.lim.Depth {
		panic(&pathAbort{"limit", "call depth"})
	}
	fr := &frame{w: w, g: g, fn: fn, caller: caller, regs: make([]Value, fn.nregs)}
	w.top = fr
	for i, p := range fn.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.fvs {
		fr.regs[p] = env[i]
	}
	if fn.isRepo {
		w.funcsSeen[fn] = true
	}
	fr.block = fn.blocks[0]
	if !fn.hasDefer {
		fr.run()
	} else {
		for fr.block != nil {
			fr.runCatch()
		}
	}
	g.depth--
	w.top = caller
	return fr.result
}

// runCatch runs the frame and handles panics of the interpreted program.
func (fr *frame) runCatch() {
	depth := fr.g.depth
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if _, ok := r.(*targetPanic); !ok {
			panic(r)
		}
		fr.g.depth = depth
		fr.panicking = true
		fr.panicVal = r
		fr.runDefers()
		fr.block = fr.fn.recov
		if fr.block == nil {
			fr.result = Value{} // no named results
			if res := fr.fn.fn.Signature.Results(); res.Len() == 1 {
				fr.result = zero(res.At(0).Type())
			} else if res.Len() > 1 {
				fr.result = zero(res)
			}
		}
	}()
	fr.run()
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d deferred) {
	ok := false
	depth := fr.g.depth
	defer func() {
		if !ok {
			r := recover()
			if _, tp := r.(*targetPanic); !tp {
				panic(r)
			}
			fr.g.depth = depth
			fr.panicking = true
			fr.panicVal = r
		}
	}()
	fr.w.callValue(fr.g, fr, d.fn, d.args, d.call)
	ok = true
}

func (w *Worker) callValue(g *G, caller *frame, f Value, args []Value, call *ssa.CallCommon) Value {
	cl, _ := f.P.(*Closure)
	if cl == nil {
		w.nilDeref()
	}
	if cl.native != nil {
		return cl.native(w, args)
	}
	if cl.builtin != nil {
		return w.callBuiltin(caller, cl.builtin, args, call)
	}
	return w.callFunc(g, caller, w.compile(cl.fn), args, cl.env, call)
}

// prepareCall evaluates a call's function value and arguments.
func (fr *frame) prepareCall(ci *cinstr, call *ssa.CallCommon) (Value, []Value) {
	w := fr.w
	if call.IsInvoke() {
		recv := fr.get(&ci.ops[0])
		if recv.P == nil {
			w.nilDeref()
		}
		i := recv.P.(*Iface)
		fn := w.lookupMethod(i.t, call.Method)
		args := make([]Value, 0, len(ci.ops))
		args = append(args, i.v)
		for k := range call.Args {
			args = append(args, copyArg(fr.get(&ci.ops[k+1])))
		}
		return Value{P: fn}, args
	}
	f := fr.get(&ci.ops[0])
	args := make([]Value, len(call.Args))
	for k := range call.Args {
		args[k] = copyArg(fr.get(&ci.ops[k+1]))
	}
	return f, args
}

func copyArg(v Value) Value {
	if _, ok := v.P.([]Value); ok {
		return copyVal(v)
	}
	return v
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *Closure {
	k := methKey{t, m}
	if c, ok := w.meths[k]; ok {
		return c
	}
	fn := w.eng.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		panic(unsupported("method %s of %v", m.Name(), t))
	}
	c := w.funcVal(fn)
	w.meths[k] = c
	return c
}

func (fr *frame) run() {
	w := fr.w
	var phiTmp []Value
	for {
		b := fr.block
		instrs := b.instrs
		i := 0
		if b.nphi > 0 {
			pi := b.preds[fr.prev.b]
			phiTmp = phiTmp[:0]
			for ; i < b.nphi; i++ {
				phiTmp = append(phiTmp, fr.get(&instrs[i].ops[pi]))
			}
			for k := 0; k < b.nphi; k++ {
				fr.regs[instrs[k].dst] = phiTmp[k]
			}
		}
		w.steps += int64(len(instrs))
		if w.steps > w.lim.Steps {
			panic(&pathAbort{"limit", "step limit in " + fr.fn.name})
		}
		if w.steps-w.lastTick > 200000 {
			w.lastTick = w.steps
			if w.expired() {
				panic(&pathAbort{"limit", "time limit"})
			}
		}
	next:
		for ; i < len(instrs); i++ {
			ci := &instrs[i]
			switch ci.kind {
			case kNop:
			case kAlloc:
				in := ci.in.(*ssa.Alloc)
				c := new(Value)
				*c = zero(in.Type().(*types.Pointer).Elem())
				fr.regs[ci.dst] = Value{P: c}
			case kBinOp:
				in := ci.in.(*ssa.BinOp)
				fr.regs[ci.dst] = w.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case kUnOp:
				fr.regs[ci.dst] = w.unop(fr, ci, ci.in.(*ssa.UnOp), fr.get(&ci.ops[0]))
			case kStore:
				p := fr.get(&ci.ops[0])
				w.storePtr(p, fr.get(&ci.ops[1]), ci.in.(*ssa.Store).Val.Type())
			case kFieldAddr:
				p := fr.get(&ci.ops[0])
				c, _ := p.P.(*Value)
				if c == nil {
					if sp, ok := p.P.(*SymPtr); ok {
						c = w.concPtr(sp)
					} else {
						w.nilDeref()
					}
				}
				s, ok := c.P.([]Value)
				if !ok {
					panic(unsupported("field address in %T (%s, %v)", c.P, fr.fn.name, ci.in))
				}
				fr.regs[ci.dst] = Value{P: &s[ci.in.(*ssa.FieldAddr).Field]}
			case kField:
				s := fr.get(&ci.ops[0]).P.([]Value)
				fr.regs[ci.dst] = copyArg(s[ci.in.(*ssa.Field).Field])
			case kIndexAddr:
				fr.regs[ci.dst] = w.indexAddr(ci.in.(*ssa.IndexAddr), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case kIndex:
				fr.regs[ci.dst] = w.index(ci.in.(*ssa.Index), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case kCall:
				call := ci.in.(*ssa.Call).Common()
				f, args := fr.prepareCall(ci, call)
				fr.regs[ci.dst] = w.callValue(fr.g, fr, f, args, call)
			case kChangeInterface, kChangeType:
				fr.regs[ci.dst] = fr.get(&ci.ops[0])
			case kConvert, kMultiConvert:
				var from types.Type
				if in, ok := ci.in.(*ssa.Convert); ok {
					from = in.X.Type()
				} else {
					from = ci.in.(*ssa.MultiConvert).X.Type()
				}
				fr.regs[ci.dst] = w.convert(fr.get(&ci.ops[0]), from, ci.typ)
			case kMakeInterface:
				fr.regs[ci.dst] = Value{P: &Iface{t: ci.aux.(types.Type), v: copyArg(fr.get(&ci.ops[0]))}}
			case kExtract:
				fr.regs[ci.dst] = fr.get(&ci.ops[0]).P.([]Value)[ci.in.(*ssa.Extract).Index]
			case kSlice:
				fr.regs[ci.dst] = w.slice(fr, ci, ci.in.(*ssa.Slice))
			case kIf:
				fr.prev = b
				if w.branch(fr.get(&ci.ops[0])) {
					fr.block = b.succs[0]
				} else {
					fr.block = b.succs[1]
				}
				break next
			case kJump:
				fr.prev = b
				fr.block = b.succs[0]
				break next
			case kReturn:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = copyArg(fr.get(&ci.ops[0]))
				default:
					r := make([]Value, len(ci.ops))
					for k := range ci.ops {
						r[k] = copyArg(fr.get(&ci.ops[k]))
					}
					fr.result = Value{P: r}
				}
				fr.block = nil
				return
			case kPanic:
				v := fr.get(&ci.ops[0])
				panic(&targetPanic{v: v})
			case kRunDefers:
				fr.runDefers()
			case kDefer:
				call := ci.in.(*ssa.Defer).Common()
				f, args := fr.prepareCall(ci, call)
				fr.defers = append(fr.defers, deferred{f, args, call})
			case kGo:
				call := ci.in.(*ssa.Go).Common()
				f, args := fr.prepareCall(ci, call)
				if cl, _ := f.P.(*Closure); cl == nil {
					w.nilDeref()
				}
				w.spawn(fr, f, args, call)
			case kMakeClosure:
				cl := &Closure{fn: ci.in.(*ssa.MakeClosure).Fn.(*ssa.Function)}
				for k := 1; k < len(ci.ops); k++ {
					cl.env = append(cl.env, fr.get(&ci.ops[k]))
				}
				fr.regs[ci.dst] = Value{P: cl}
			case kMakeMap:
				fr.regs[ci.dst] = Value{P: newMap()}
			case kMakeSlice:
				in := ci.in.(*ssa.MakeSlice)
				fr.regs[ci.dst] = w.makeSlice(in.Type().Underlying().(*types.Slice).Elem(), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]), in.Len.Type())
			case kMakeChan:
				n := w.concretize(fr.get(&ci.ops[0]), 64)
				if int64(n) < 0 {
					w.rtPanic("runtime error: makechan: size out of range")
				}
				fr.regs[ci.dst] = Value{P: &Chan{cap: int(int64(n))}}
			case kMapUpdate:
				in := ci.in.(*ssa.MapUpdate)
				m, _ := fr.get(&ci.ops[0]).P.(*Map)
				if m == nil {
					w.rtPanic("assignment to entry in nil map")
				}
				w.mapSet(m, fr.get(&ci.ops[1]), copyArg(fr.get(&ci.ops[2])), in.Map.Type().Underlying().(*types.Map).Key())
			case kLookup:
				fr.regs[ci.dst] = w.lookup(ci.in.(*ssa.Lookup), fr.get(&ci.ops[0]), fr.get(&ci.ops[1]))
			case kRange:
				fr.regs[ci.dst] = w.rangeIter(fr, ci.in.(*ssa.Range).X.Type(), fr.get(&ci.ops[0]))
			case kNext:
				fr.regs[ci.dst] = w.next(fr, ci.in.(*ssa.Next), fr.get(&ci.ops[0]))
			case kTypeAssert:
				fr.regs[ci.dst] = w.typeAssert(ci.in.(*ssa.TypeAssert), fr.get(&ci.ops[0]))
			case kSend:
				ch, _ := fr.get(&ci.ops[0]).P.(*Chan)
				w.chanSend(fr.g, ch, copyArg(fr.get(&ci.ops[1])))
			case kSelect:
				fr.regs[ci.dst] = w.selectStmt(fr, ci, ci.in.(*ssa.Select))
			case kSliceToArrayPointer:
				sl, _ := fr.get(&ci.ops[0]).P.(*Slice)
				n := int(ci.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				l := 0
				if sl != nil {
					l = len(sl.a)
				}
				if l < n {
					w.rtPanic("runtime error: cannot convert slice to array pointer: length too small")
				}
				if sl == nil {
					fr.regs[ci.dst] = Value{}
				} else {
					fr.regs[ci.dst] = Value{P: &Value{P: sl.a[:n:n]}}
				}
			default:
				panic(unsupported("instruction %T", ci.in))
			}
		}
	}
}

// ---- memory ----

func (w *Worker) load(c *Value) Value {
	return copyArg(*c)
}

func (w *Worker) loadPtr(p Value) Value {
	switch c := p.P.(type) {
	case *Value:
		return copyArg(*c)
	case *SymPtr:
		return w.symLoad(c)
	case nil:
		w.nilDeref()
	}
	panic(unsupported("load through %T", p.P))
}

func (w *Worker) symSelect(elems []Value, idx *Term, wd int32) Value {
	if len(elems) > 4096 {
		panic(unsupported("symbolic index into %d elements", len(elems)))
	}
	n := len(elems)
	r := w.toTermW(elems[n-1], wd)
	// runs of equal elements, for tables
	runs := 1
	for i := 1; i < n; i++ {
		if w.toTermW(elems[i], wd) != w.toTermW(elems[i-1], wd) {
			runs++
		}
	}
	if n >= 16 && runs <= n/2 {
		for i := n - 2; i >= 0; i-- {
			if t := w.toTermW(elems[i], wd); t != w.toTermW(elems[i+1], wd) {
				r = w.tc.Ite(w.tc.Cmp(OpBvUlt, idx, w.tc.Const(64, uint64(i+1))), t, r)
			}
		}
		return w.fromTermW(r, wd)
	}
	for i := n - 2; i >= 0; i-- {
		r = w.tc.Ite(w.tc.Eq(idx, w.tc.Const(64, uint64(i))), w.toTermW(elems[i], wd), r)
	}
	return w.fromTermW(r, wd)
}

func (w *Worker) fromTermW(t *Term, wd int32) Value {
	if t.isConst() && (t.w >= 0 && t.w <= 64 || t.w == SortFP) {
		return Value{N: t.val}
	}
	return Value{P: t}
}

func (w *Worker) symLoad(p *SymPtr) Value {
	wd := int32(0)
	found := false
	for i := range p.elems {
		if t := p.elems[i].term(); t != nil {
			wd, found = t.w, true
			break
		}
	}
	if !found {
		wd = p.wd()
	}
	return w.symSelect(p.elems, p.idx, wd)
}

func (w *Worker) undoFn(f func()) {
	w.undo = append(w.undo, undoRec{f: f})
}

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

func (w *Worker) store(c *Value, v Value) {
	if s, ok := v.P.([]Value); ok {
		if d, ok := c.P.([]Value); ok && len(d) == len(s) {
			for i := range s {
				w.store(&d[i], s[i])
			}
			return
		}
		v = copyVal(v)
	}
	w.undo = append(w.undo, undoRec{p: c, old: *c})
	*c = v
}

func (w *Worker) storePtr(p, v Value, t types.Type) {
	switch c := p.P.(type) {
	case *Value:
		w.store(c, v)
		return
	case *SymPtr:
		wd := width(t)
		nv := w.toTermW(v, wd)
		for i := range c.elems {
			cond := w.tc.Eq(c.idx, w.tc.Const(64, uint64(i)))
			w.store(&c.elems[i], w.fromTermW(w.tc.Ite(cond, nv, w.toTermW(c.elems[i], wd)), wd))
		}
		return
	case nil:
		w.nilDeref()
	}
	panic(unsupported("store through %T", p.P))
}

func (w *Worker) rollback(to int) {
	for i := len(w.undo) - 1; i >= to; i-- {
		u := &w.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	for i := to; i < len(w.undo); i++ {
		w.undo[i] = undoRec{}
	}
	w.undo = w.undo[:to]
}

// idx64 widens an index value to 64 bits.
func (w *Worker) idx64(v Value, t types.Type) Value {
	if v.P == nil {
		if isSigned(t) {
			return Value{N: uint64(sext64(v.N, width(t)))}
		}
		return v
	}
	x := v.term()
	if isSigned(t) {
		return w.fromTerm(w.tc.Sext(x, 64))
	}
	return w.fromTerm(w.tc.Zext(x, 64))
}

// checkIndex forks on idx < n and panics on the failing side.
func (w *Worker) checkIndex(idx Value, n int) {
	if idx.P == nil {
		if idx.N >= uint64(n) {
			w.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(idx.N), n))
		}
		return
	}
	ok := w.boolVal(w.tc.Cmp(OpBvUlt, idx.term(), w.tc.Const(64, uint64(n))))
	if !w.branch(ok) {
		w.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
}

func (p *SymPtr) wd() int32 { return p.width }

func (w *Worker) indexAddr(in *ssa.IndexAddr, x, i Value) Value {
	i = w.idx64(i, in.Index.Type())
	var elems []Value
	var et types.Type
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		if s, ok := x.P.(*Slice); ok && s != nil {
			elems = s.a
		}
		et = u.Elem()
	case *types.Pointer:
		c, _ := x.P.(*Value)
		if c == nil {
			w.nilDeref()
		}
		elems = c.P.([]Value)
		et = u.Elem().Underlying().(*types.Array).Elem()
	default:
		panic(unsupported("IndexAddr of %v", in.X.Type()))
	}
	w.checkIndex(i, len(elems))
	if i.P == nil {
		return Value{P: &elems[i.N]}
	}
	if isScalar(et) && width(et) != -32 {
		if len(elems) == 1 {
			return Value{P: &elems[0]}
		}
		return Value{P: &SymPtr{elems: elems, idx: i.term(), width: width(et)}}
	}
	return Value{P: &elems[w.concretize(i, 64)]}
}

func (w *Worker) index(in *ssa.Index, x, i Value) Value {
	i = w.idx64(i, in.Index.Type())
	switch u := in.X.Type().Underlying().(type) {
	case *types.Array:
		elems := x.P.([]Value)
		w.checkIndex(i, len(elems))
		if i.P == nil {
			return copyArg(elems[i.N])
		}
		if isScalar(u.Elem()) && width(u.Elem()) != -32 {
			return w.symSelect(elems, i.term(), width(u.Elem()))
		}
		return copyArg(elems[w.concretize(i, 64)])
	case *types.Basic:
		return w.strIndex(x, i)
	}
	panic(unsupported("Index of %v", in.X.Type()))
}

func (w *Worker) strIndex(x, i Value) Value {
	w.checkIndex(i, strLen(x))
	if i.P == nil {
		if s, ok := x.P.(string); ok {
			return Value{N: uint64(s[i.N])}
		}
		return strBytes(x)[i.N]
	}
	return w.symSelect(strBytes(x), i.term(), 8)
}

func (w *Worker) makeSlice(et types.Type, ln, cp Value, lt types.Type) Value {
	ln = w.idx64(ln, lt)
	cp = w.idx64(cp, lt)
	const maxAlloc = int64(1) << 47
	if ln.P != nil {
		bad := w.boolVal(w.tc.Or(w.tc.Cmp(OpBvSlt, ln.term(), w.tc.Const(64, 0)),
			w.tc.Cmp(OpBvSlt, w.tc.Const(64, uint64(maxAlloc)), ln.term())))
		if w.branch(bad) {
			w.rtPanic("runtime error: makeslice: len out of range")
		}
		big := w.boolVal(w.tc.Cmp(OpBvUlt, w.tc.Const(64, uint64(w.lim.MaxAlloc)), ln.term()))
		if w.branch(big) {
			w.bigAlloc()
		}
	}
	n := int64(w.concretize(ln, 64))
	c := n
	if cp.P != nil || cp.N != uint64(n) {
		c = int64(w.concretize(cp, 64))
	}
	if n < 0 || n > maxAlloc {
		w.rtPanic("runtime error: makeslice: len out of range")
	}
	if c < n || c > maxAlloc {
		w.rtPanic("runtime error: makeslice: cap out of range")
	}
	if c > w.lim.MaxAlloc {
		w.bigAlloc()
	}
	a := make([]Value, n, c)
	full := a[:c]
	if isAgg(et) {
		for i := range full {
			full[i] = zero(et)
		}
	}
	return Value{P: &Slice{a: a}}
}

func (w *Worker) bigAlloc() {
	panic(&pathAbort{"bigalloc", "allocation above the model's limit"})
}

func (w *Worker) slice(fr *frame, ci *cinstr, in *ssa.Slice) Value {
	x := fr.get(&ci.ops[0])
	var lo, hi, max Value
	k := 1
	opt := func(v ssa.Value) (Value, bool) {
		if v == nil {
			k++
			return Value{}, false
		}
		o := w.idx64(fr.get(&ci.ops[k]), v.Type())
		k++
		return o, true
	}
	var hasHi, hasMax bool
	// Operands of ssa.Slice: X, Low, High, Max (nil ones included)
	lo, _ = opt(in.Low)
	hi, hasHi = opt(in.High)
	max, hasMax = opt(in.Max)

	isStr := false
	var base []Value
	var length, capacity int
	switch in.X.Type().Underlying().(type) {
	case *types.Basic:
		isStr = true
		length = strLen(x)
		capacity = length
	case *types.Slice:
		if s, ok := x.P.(*Slice); ok && s != nil {
			base = s.a
			length, capacity = len(base), cap(base)
		}
	case *types.Pointer:
		c, _ := x.P.(*Value)
		if c == nil {
			w.nilDeref()
		}
		base = c.P.([]Value)
		length, capacity = len(base), len(base)
		base = base[:len(base):len(base)]
	default:
		panic(unsupported("slice of %v", in.X.Type()))
	}
	if !hasHi {
		hi = Value{N: uint64(length)}
	}
	m := capacity
	if hasMax {
		m = int(w.boundConc(max, capacity, "slice bounds out of range"))
	}
	h := int(w.boundConc(hi, m, "slice bounds out of range"))
	l := int(w.boundConc(lo, h, "slice bounds out of range"))
	if isStr {
		return strSlice(x, l, h)
	}
	if base == nil {
		return Value{}
	}
	return Value{P: &Slice{a: base[l:h:m]}}
}

// boundConc checks 0 <= v <= max (unsigned) and concretises v.
func (w *Worker) boundConc(v Value, max int, msg string) uint64 {
	if v.P == nil {
		if v.N > uint64(max) {
			w.rtPanic(fmt.Sprintf("runtime error: %s [%d with limit %d]", msg, int64(v.N), max))
		}
		return v.N
	}
	ok := w.boolVal(w.tc.Cmp(OpBvUle, v.term(), w.tc.Const(64, uint64(max))))
	if !w.branch(ok) {
		w.rtPanic("runtime error: " + msg)
	}
	return w.concretize(v, 64)
}

func (w *Worker) lookup(in *ssa.Lookup, x, k Value) Value {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		return w.strIndex(x, w.idx64(k, in.Index.Type()))
	}
	m, _ := x.P.(*Map)
	e := w.mapFind(m, k, mt.Key())
	var v Value
	found := e != nil
	if found {
		v = copyArg(e.v)
	} else {
		v = zero(mt.Elem())
	}
	if in.CommaOk {
		return Value{P: []Value{v, {N: b2u(found)}}}
	}
	return v
}

type mapIter struct {
	m *Map
	i int
}
type strIter struct {
	s Value
	i int
}

func (w *Worker) rangeIter(fr *frame, t types.Type, x Value) Value {
	switch t.Underlying().(type) {
	case *types.Map:
		m, _ := x.P.(*Map)
		return Value{P: &mapIter{m: m}}
	default:
		return Value{P: &strIter{s: x}}
	}
}

func (w *Worker) next(fr *frame, in *ssa.Next, it Value) Value {
	switch x := it.P.(type) {
	case *mapIter:
		if x.m != nil {
			for x.i < len(x.m.entries) {
				e := x.m.entries[x.i]
				x.i++
				if !e.dead {
					return Value{P: []Value{{N: 1}, copyArg(e.k), copyArg(e.v)}}
				}
			}
		}
		tt := in.Type().(*types.Tuple)
		return Value{P: []Value{{}, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}}
	case *strIter:
		n := strLen(x.s)
		if x.i >= n {
			return Value{P: []Value{{}, {}, {}}}
		}
		r, size := w.decodeRune(fr, x.s, x.i)
		pos := x.i
		x.i += size
		return Value{P: []Value{{N: 1}, {N: uint64(pos)}, r}}
	}
	panic(unsupported("next on %T", it.P))
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return zero(t)
}

// decodeRune decodes the rune at s[i:].
func (w *Worker) decodeRune(fr *frame, s Value, i int) (Value, int) {
	bs := strBytes(strSlice(s, i, strLen(s)))
	b0 := w.toTermW(bs[0], 8)
	if w.branch(w.boolVal(w.tc.Cmp(OpBvUlt, b0, w.tc.Const(8, 0x80)))) {
		return w.fromTerm(w.tc.Zext(b0, 32)), 1
	}
	fn := w.eng.findFunc("unicode/utf8", "DecodeRuneInString")
	rest := bs
	if len(rest) > 4 {
		rest = rest[:4]
	}
	r := w.callFunc(fr.g, fr, w.compile(fn), []Value{mkBytesStr(rest)}, nil, nil)
	t := r.P.([]Value)
	return t[0], int(w.concretize(t[1], 64))
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x Value) Value {
	var v Value
	ok := false
	if x.P != nil {
		i := x.P.(*Iface)
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			ok = w.implements(i.t, it)
			v = x
		} else if w.canon(i.t) == w.canon(in.AssertedType) {
			ok = true
			v = copyArg(i.v)
		}
	}
	if !ok {
		if !in.CommaOk {
			d := "nil"
			if x.P != nil {
				d = x.P.(*Iface).t.String()
			}
			w.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", d, in.AssertedType))
		}
		v = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Value{P: []Value{v, {N: b2u(ok)}}}
	}
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	w.impl[k] = r
	return r
}

func (w *Worker) unop(fr *frame, ci *cinstr, in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		if ci.ops[0].reg < 0 {
			if g, ok := in.X.(*ssa.Global); ok {
				w.checkGlobal(g)
			}
		}
		if sp, ok := x.P.(*SymPtr); ok {
			return w.symLoad(sp)
		}
		return w.loadPtr(x)
	case token.ARROW:
		ch, _ := x.P.(*Chan)
		v, ok := w.chanRecv(fr.g, ch, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Value{P: []Value{v, {N: b2u(ok)}}}
		}
		return v
	case token.NOT:
		return w.notV(x)
	case token.SUB:
		t := in.X.Type()
		if isFloat(t) {
			if x.P == nil {
				if width(t) == -32 {
					return Value{N: uint64(math.Float32bits(-math.Float32frombits(uint32(x.N))))}
				}
				return Value{N: math.Float64bits(-math.Float64frombits(x.N))}
			}
			return w.fromTermW(w.tc.FpUn(OpFpNeg, x.term(), 0), SortFP)
		}
		if x.P == nil {
			return Value{N: -x.N & mask(width(t))}
		}
		return w.fromTerm(w.tc.BvNeg(x.term()))
	case token.XOR:
		t := in.X.Type()
		if x.P == nil {
			return Value{N: ^x.N & mask(width(t))}
		}
		return w.fromTerm(w.tc.BvNot(x.term()))
	}
	panic(unsupported("unop %v", in.Op))
}
