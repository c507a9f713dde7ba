package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// G is a goroutine of the interpreted program.
type G struct {
	id      int
	w       *Worker
	wake    chan struct{}
	ready   func() bool // nil: runnable
	blocked string
	done    bool
	depth   int
	sleepAt int64
	asleep  bool
	started bool
	points  int
}

type wgState struct{ n int64 }
type mutexState struct {
	locked  bool
	readers int
	wwait   int // writers waiting
}
type condState struct {
	waiters []*condWaiter
}
type condWaiter struct{ woken bool }

func (w *Worker) newG() *G {
	g := &G{id: len(w.gs), w: w, wake: make(chan struct{}, 1)}
	w.gs = append(w.gs, g)
	return g
}

func (w *Worker) spawn(fr *frame, f Value, args []Value, call *ssa.CallCommon) {
	live := 0
	for _, g := range w.gs {
		if !g.done {
			live++
		}
	}
	if live >= w.lim.Goroutines || len(w.gs) >= 20*w.lim.Goroutines {
		panic(&pathAbort{"limit", "goroutine limit"})
	}
	g := w.newG()
	w.running.Add(1)
	go func() {
		defer w.running.Done()
		<-g.wake
		if w.killed {
			return
		}
		w.runG(g, func() { w.callValue(g, nil, f, args, call) })
	}()
	w.pointHook("go")
}

// runG executes body as goroutine g and hands control on at its end.
func (w *Worker) runG(g *G, body func()) {
	ab := w.protect(body)
	if w.killed {
		return
	}
	g.done = true
	if ab != nil {
		w.finish(ab)
		return
	}
	if g.id == 0 {
		w.finish(nil) // main returned: the program ends
		return
	}
	// pick another goroutine
	ab = w.protect(func() {
		n := w.pickNext(g)
		w.switchLog(g, n, "d")
		w.cur = n
		n.wake <- struct{}{}
	})
	if ab != nil && !w.killed {
		w.finish(ab)
	}
}

// finish reports the end of the path to the path runner.
func (w *Worker) finish(ab *pathAbort) {
	w.endAbort = ab
	w.endCh <- struct{}{}
}

// protect runs f and turns panics into a pathAbort.
func (w *Worker) protect(f func()) (ab *pathAbort) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case *pathAbort:
			ab = x
		case unsupportedErr:
			ab = &pathAbort{"unsupported", x.msg}
			if w.top != nil && debugMode {
				ab.msg += " in"
				for f, n := w.top, 0; f != nil && n < 5; f, n = f.caller, n+1 {
					ab.msg += " " + f.fn.name
				}
			}
		case *targetPanic:
			ab = &pathAbort{"panic", w.panicText(x)}
		default:
			ab = &pathAbort{"internal", fmt.Sprintf("%v\n%s", r, stackTrace())}
		}
	}()
	f()
	return nil
}

func (w *Worker) runnable(except *G) []*G {
	var rs []*G
	for _, g := range w.gs {
		if g.done || g == except {
			continue
		}
		if g.asleep {
			if w.epoch > g.sleepAt {
				rs = append(rs, g)
			}
			continue
		}
		if g.ready == nil || g.ready() {
			rs = append(rs, g)
		}
	}
	return rs
}

// pickNext chooses the goroutine to run next when the current one cannot continue.
func (w *Worker) pickNext(cur *G) *G {
	rs := w.runnable(nil)
	if len(rs) == 0 {
		// only sleepers (or nobody) left: let time pass
		for _, g := range w.gs {
			if !g.done && g.asleep {
				rs = append(rs, g)
			}
		}
		w.idle++
		if len(rs) == 0 || w.idle > w.lim.IdleRounds {
			w.deadlock()
		}
	} else {
		w.idle = 0
	}
	if len(rs) == 1 {
		return rs[0]
	}
	if !w.cfg.SchedFree || w.cfg.Delay {
		// deterministic: round robin after cur
		start := 0
		if cur != nil {
			start = cur.id + 1
		}
		sort.Slice(rs, func(i, j int) bool {
			n := len(w.gs)
			return (rs[i].id-start+n)%n < (rs[j].id-start+n)%n
		})
		if w.cfg.SchedFree && w.preempts < w.cfg.Preempt {
			// delay-bounded: any other choice counts as one of the deviations
			k := w.choose(len(rs), "sched")
			if 0 < k {
				w.preempts++
			}
			return rs[k]
		}
		return rs[0]
	}
	return rs[w.choose(len(rs), "sched")]
}

func (w *Worker) deadlock() {
	msg := "deadlock:"
	for _, g := range w.gs {
		if !g.done {
			b := g.blocked
			if g.asleep {
				b = "sleep"
			}
			msg += fmt.Sprintf(" goroutine %d waits for %s;", g.id, b)
		}
	}
	panic(&pathAbort{"deadlock", msg})
}

// schedEvent is one segment of a schedule: goroutine G ran until it had passed End
// points and then was preempted (p), blocked or slept (b), or finished (d).
type schedEvent struct {
	G   int    `json:"g"`
	End int    `json:"e"`
	How string `json:"h"`
}

func (w *Worker) switchLog(from, n *G, how string) {
	w.schedTrace = append(w.schedTrace, schedEvent{G: from.id, End: from.points, How: how})
}

// switchTo hands the processor to n and waits until this goroutine is resumed.
func (w *Worker) switchTo(me, n *G, how string) {
	if n == me {
		return
	}
	w.switchLog(me, n, how)
	w.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if w.killed {
		panic(&pathAbort{"killed", ""})
	}
	w.cur = me
}

// block suspends the current goroutine until ready() holds.
func (w *Worker) block(g *G, what string, ready func() bool) {
	if ready() {
		return
	}
	for !ready() {
		g.ready = ready
		g.blocked = what
		w.epoch++
		n := w.pickNext(g)
		w.switchTo(g, n, "b")
	}
	g.ready = nil
	g.blocked = ""
}

// yield lets another goroutine run if there is one.
func (w *Worker) sleep(g *G) {
	w.epoch++
	g.sleepAt = w.epoch
	g.asleep = true
	n := w.pickNext(g)
	w.switchTo(g, n, "b")
	g.asleep = false
	w.epoch++
}

// pointHook is a possible preemption.
func (w *Worker) pointHook(kind string) {}

// point is an instrumented statement boundary.
func (w *Worker) point() {
	g := w.cur
	g.points++
	w.epoch++
	if w.noPreempt > 0 || w.preempts >= w.cfg.Preempt {
		return
	}
	rs := w.runnable(g)
	if len(rs) == 0 {
		return
	}
	k := w.choose(len(rs)+1, "preempt")
	if k == 0 {
		return
	}
	w.preempts++
	w.switchTo(g, rs[k-1], "p")
}

// ---- channels ----

func (w *Worker) chanSend(g *G, c *Chan, v Value) {
	if c == nil {
		w.block(g, "send on nil channel", func() bool { return false })
	}
	if c.closed {
		w.rtPanic("send on closed channel")
	}
	if c.cap > 0 {
		w.block(g, "channel send", func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			w.rtPanic("send on closed channel")
		}
		old := c.buf
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
		w.undoFn(func() { c.buf = old })
		return
	}
	s := &chanSend{v: v}
	c.pending = append(c.pending, s)
	w.undoFn(func() { c.pending = nil })
	w.block(g, "channel send", func() bool { return s.taken || c.closed })
	if !s.taken {
		w.rtPanic("send on closed channel")
	}
}

func (c *Chan) canRecv() bool { return c != nil && (len(c.buf) > 0 || len(c.pending) > 0 || c.closed) }

func (w *Worker) chanTake(c *Chan, et types.Type) (Value, bool) {
	if len(c.buf) > 0 {
		old := c.buf
		v := c.buf[0]
		c.buf = c.buf[1:]
		w.undoFn(func() { c.buf = old })
		return v, true
	}
	if len(c.pending) > 0 {
		s := c.pending[0]
		c.pending = c.pending[1:]
		s.taken = true
		return s.v, true
	}
	return zero(et), false
}

func (w *Worker) chanRecv(g *G, c *Chan, et types.Type) (Value, bool) {
	if c == nil {
		w.block(g, "receive from nil channel", func() bool { return false })
	}
	if !c.canRecv() {
		c.recvWait++
		w.undoFn(func() { c.recvWait = 0 })
		w.block(g, "channel receive", func() bool { return c.canRecv() })
		c.recvWait--
	}
	return w.chanTake(c, et)
}

func (w *Worker) selectStmt(fr *frame, ci *cinstr, in *ssa.Select) Value {
	type st struct {
		c    *Chan
		send bool
		v    Value
		et   types.Type
	}
	sts := make([]st, len(in.States))
	nrecv := 0
	for i, s := range in.States {
		sts[i].c, _ = fr.get(&ci.ops[2*i]).P.(*Chan)
		sts[i].et = s.Chan.Type().Underlying().(*types.Chan).Elem()
		if s.Dir == types.SendOnly {
			sts[i].send = true
			sts[i].v = copyArg(fr.get(&ci.ops[2*i+1]))
		} else {
			nrecv++
		}
	}
	readyIdx := func() []int {
		var r []int
		for i := range sts {
			s := &sts[i]
			if s.c == nil {
				continue
			}
			if s.send {
				if s.c.closed || s.c.cap > 0 && len(s.c.buf) < s.c.cap || s.c.cap == 0 && s.c.recvWait > len(s.c.pending) {
					r = append(r, i)
				}
			} else if s.c.canRecv() {
				r = append(r, i)
			}
		}
		return r
	}
	rs := readyIdx()
	res := make([]Value, 2+nrecv)
	k := 2
	for i := range sts {
		if !sts[i].send {
			res[k] = zero(sts[i].et)
			k++
		}
	}
	if len(rs) == 0 {
		if !in.Blocking {
			res[0] = Value{N: ^uint64(0)}
			return Value{P: res}
		}
		for i := range sts {
			if !sts[i].send && sts[i].c != nil {
				sts[i].c.recvWait++
			}
		}
		w.block(fr.g, "select", func() bool { return len(readyIdx()) > 0 })
		for i := range sts {
			if !sts[i].send && sts[i].c != nil {
				sts[i].c.recvWait--
			}
		}
		rs = readyIdx()
	}
	pick := rs[0]
	if len(rs) > 1 {
		pick = rs[w.choose(len(rs), "select")]
	}
	res[0] = Value{N: uint64(pick)}
	s := sts[pick]
	if s.send {
		w.chanSend(fr.g, s.c, s.v)
	} else {
		v, ok := w.chanTake(s.c, s.et)
		res[1] = Value{N: b2u(ok)}
		k := 2
		for i := 0; i < pick; i++ {
			if !sts[i].send {
				k++
			}
		}
		res[k] = v
	}
	return Value{P: res}
}

// ---- sync ----

func (w *Worker) mutexOf(p Value) *mutexState {
	c, _ := p.P.(*Value)
	if c == nil {
		w.nilDeref()
	}
	m := w.mutexes[c]
	if m == nil {
		m = &mutexState{}
		w.mutexes[c] = m
	}
	return m
}

func (w *Worker) lock(g *G, m *mutexState) {
	if m.locked || m.readers > 0 {
		m.wwait++
		w.block(g, "mutex lock", func() bool { return !m.locked && m.readers == 0 })
		m.wwait--
	}
	m.locked = true
}

func (w *Worker) rlock(g *G, m *mutexState) {
	if m.locked || m.wwait > 0 {
		w.block(g, "mutex rlock", func() bool { return !m.locked && m.wwait == 0 })
	}
	m.readers++
}

func (w *Worker) unlock(m *mutexState) {
	if !m.locked {
		panic(&pathAbort{"panic", "fatal error: sync: unlock of unlocked mutex"})
	}
	m.locked = false
}

func (w *Worker) runlock(m *mutexState) {
	if m.readers == 0 {
		panic(&pathAbort{"panic", "fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	m.readers--
}

func (w *Worker) condOf(p Value) *condState {
	c, _ := p.P.(*Value)
	if c == nil {
		w.nilDeref()
	}
	s := w.conds[c]
	if s == nil {
		s = &condState{}
		w.conds[c] = s
	}
	return s
}

func (w *Worker) wgOf(p Value) *wgState {
	c, _ := p.P.(*Value)
	if c == nil {
		w.nilDeref()
	}
	s := w.wgs[c]
	if s == nil {
		s = &wgState{}
		w.wgs[c] = s
	}
	return s
}
