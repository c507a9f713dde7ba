package main

// Solver back ends: one incremental z3 per worker, and a one-shot portfolio
// (z3, cvc5 with bit-blasting and with the integer encoding) for hard queries.

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

func (r SatResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Portfolio, Crosschecked int64
	TimeNs                                                   int64
	MaxNs                                                    int64
}

type Solver struct {
	ctx      *TermCtx
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	gen      uint32
	stack    []*Term // asserted, one push each
	stats    *SolverStats
	softMs   int
	intS     int
	hardS    int
	useFP    bool
	dead     bool
	lastTerm uint32
	crossN   int // cross-check every crossN-th decided assertion query with cvc5 (0: never)
	crossCnt int
	mismatch string
	deadline time.Time
	base     *Model // satisfies the path condition
}

var solverGen uint32

func NewSolver(ctx *TermCtx, stats *SolverStats) *Solver {
	return &Solver{ctx: ctx, stats: stats, softMs: 3000, hardS: 60, intS: 20}
}

func (s *Solver) start() error {
	s.gen = atomic.AddUint32(&solverGen, 1)
	s.cmd = exec.Command("z3", "-in", "-memory:6000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.stack = nil
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.softMs)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides pc ∧ extra. On Sat it returns a model over all variables in them.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (SatResult, *Model) {
	if extra != nil && extra.isFalse() {
		return Unsat, nil
	}
	start := time.Now()
	atomic.AddInt64(&s.stats.Queries, 1)
	r, m := Unknown, (*Model)(nil)
	apc, aextra, abstracted := s.abstract(pc, extra)
	if abstracted {
		apc = relevant(apc, aextra)
		// products of unknowns are replaced by free values first: unsat carries over,
		// a model only counts if it satisfies the original formula
		r, m = s.checkInc(apc, aextra, true)
		if r == Unknown {
			r, m = s.portfolio(apc, aextra, true)
		}
		if r == Sat {
			all := pc
			if extra != nil {
				all = append(append([]*Term{}, pc...), extra)
			}
			m0 := m
			if m = s.concretise(m, all); m == nil {
				if os.Getenv("GOSYM_DUMPQ") != "" {
					t, _ := s.script(pc, extra, true)
					os.WriteFile(fmt.Sprintf("%s/q%d.smt2", os.Getenv("GOSYM_DUMPQ"), time.Now().UnixNano()), []byte(t+fmt.Sprint(";", m0.vals, s.base.vals)), 0644)
				}
				r = Unknown
			}
		}
	} else {
		ari := s.intS > 0 && s.hasArith(pc, extra)
		fp := ari && s.anyFP(pc, extra)
		if fp && extra != nil && s.base != nil {
			fp = s.anyFP(relevant(pc, extra), extra) // checkInt slices as well
		}
		if ari && !fp {
			r, m = s.checkInt(pc, extra, wantModel)
		}
		if r == Unknown {
			r, m = s.checkInc(pc, extra, wantModel)
		}
		if r == Unknown && fp {
			r, m = s.checkInt(pc, extra, wantModel)
		}
	}
	if r == Unknown && (s.deadline.IsZero() || time.Now().Before(s.deadline)) {
		r, m = s.portfolio(pc, extra, wantModel)
	}
	if r == Sat && m != nil {
		// validate the model against the terms (translation sanity)
		ok := true
		for _, t := range pc {
			if !m.EvalBool(t) {
				ok = false
			}
		}
		if extra != nil && !m.EvalBool(extra) {
			ok = false
		}
		if !ok {
			s.mismatch = "solver model does not satisfy the formula under the evaluator"
			r, m = Unknown, nil
		}
	}
	d := int64(time.Since(start))
	if dir := os.Getenv("GOSYM_SLOWQ"); dir != "" && d > int64(time.Second) {
		t, _ := s.script(pc, extra, true)
		os.WriteFile(fmt.Sprintf("%s/q%d-%v-%d.smt2", dir, time.Now().UnixNano(), r, d/1e6), []byte(t), 0644)
	}
	atomic.AddInt64(&s.stats.TimeNs, d)
	for {
		o := atomic.LoadInt64(&s.stats.MaxNs)
		if d <= o || atomic.CompareAndSwapInt64(&s.stats.MaxNs, o, d) {
			break
		}
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	return r, m
}

func holds(m *Model, all []*Term) bool {
	for _, t := range all {
		if !m.EvalBool(t) {
			return false
		}
	}
	return true
}

// concretise tries to turn a model of the abstraction into one of the formula.
func (s *Solver) concretise(m *Model, all []*Term) *Model {
	vals := map[string]uint64{}
	if s.base != nil {
		for k, v := range s.base.vals {
			vals[k] = v
		}
	}
	for k, v := range m.vals {
		vals[k] = v
	}
	if n := s.ctx.NewModel(vals); holds(n, all) {
		return n
	}
	seen := map[*Term]bool{}
	var hards []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.hard() && t.op == OpFpMul {
			hards = append(hards, t)
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, t := range all {
		walk(t)
	}
	base := func(t *Term) *Term {
		if t.op == OpFpOfBits {
			t = t.a
		}
		if t.op == OpVar {
			return t
		}
		return nil
	}
	cnt := map[*Term]int{}
	for _, h := range hards {
		cnt[base(h.a)]++
		cnt[base(h.b)]++
	}
	delete(cnt, nil)
	for i, pivotVal := range []float64{0, 1, 0.5, -1, 2} {
		done := map[*Term]bool{}
		for _, h := range hards {
			a, b := base(h.a), base(h.b)
			if a == nil || b == nil {
				continue
			}
			if cnt[b] > cnt[a] || cnt[a] == cnt[b] && done[b] {
				a, b = b, a
			}
			// a is the pivot
			if !done[a] {
				if i > 0 { // first try the present value
					vals[a.name] = math.Float64bits(pivotVal)
				}
				done[a] = true
			}
			p, ok := m.vals[fmt.Sprintf("abs!%d", h.id)]
			if !ok && s.base != nil {
				p = s.base.Eval(h)
			}
			if !done[b] {
				vals[b.name] = math.Float64bits(math.Float64frombits(p) / math.Float64frombits(vals[a.name]))
				done[b] = true
			}
		}
		if n := s.ctx.NewModel(vals); holds(n, all) {
			return n
		}
	}
	return nil
}

func (s *Solver) abstract(pc []*Term, extra *Term) ([]*Term, *Term, bool) {
	ae := s.ctx.Abstract(extra)
	out := pc
	for i, t := range pc {
		a := s.ctx.Abstract(t)
		if a != t && &out[0] == &pc[0] {
			out = append([]*Term{}, pc...)
		}
		if a != t {
			out[i] = a
		}
	}
	return out, ae, ae != extra || len(pc) > 0 && &out[0] != &pc[0]
}

func (s *Solver) checkInc(pc []*Term, extra *Term, wantModel bool) (SatResult, *Model) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	var sb strings.Builder
	common := 0
	for common < len(s.stack) && common < len(pc) && s.stack[common] == pc[common] {
		common++
	}
	if n := len(s.stack) - common; n > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", n)
	}
	s.stack = s.stack[:common]
	for _, t := range pc[common:] {
		t.define(&sb, s.gen)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", t.ref())
		s.stack = append(s.stack, t)
	}
	var vars []*Term
	if wantModel {
		seen := map[*Term]bool{}
		for _, t := range pc {
			t.collectVars(seen, &vars)
		}
		if extra != nil {
			extra.collectVars(seen, &vars)
		}
	}
	if extra != nil {
		extra.define(&sb, s.gen)
		fmt.Fprintf(&sb, "(push 1)\n(assert %s)\n", extra.ref())
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Close()
		return Unknown, nil
	}
	line, err := s.readLine(time.Duration(s.softMs)*time.Millisecond + 10*time.Second)
	if err != nil {
		s.Close()
		return Unknown, nil
	}
	res := Unknown
	var m *Model
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	default:
		if strings.HasPrefix(line, "(error") {
			s.mismatch = "solver error: " + line
			s.Close()
			return Unknown, nil
		}
	}
	if res == Sat && wantModel {
		vals := map[string]uint64{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(v.ref())
				q.WriteByte(' ')
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			txt, err := s.readSexp()
			if err != nil {
				s.Close()
				return Unknown, nil
			}
			if !parseValues(txt, vars, vals) {
				s.mismatch = "unparsable model: " + txt
				s.Close()
				return Unknown, nil
			}
		}
		m = s.ctx.NewModel(vals)
	}
	if extra != nil {
		io.WriteString(s.in, "(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readLine(to time.Duration) (string, error) {
	cmd := s.cmd
	tm := time.AfterFunc(to, func() { cmd.Process.Kill() })
	defer tm.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) { return readSexp(s.out) }

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		sb.WriteByte(b)
		switch {
		case b == '|':
			inq = !inq
		case inq:
		case b == '(':
			depth++
		case b == ')':
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// parseValues reads ((|a| #x..) (|b| (fp ..)) ...) in the order of vars.
func parseValues(txt string, vars []*Term, vals map[string]uint64) bool {
	toks := tokenize(txt)
	p := 0
	if p >= len(toks) || toks[p] != "(" {
		return false
	}
	p++
	for _, v := range vars {
		if p >= len(toks) || toks[p] != "(" {
			return false
		}
		p++ // (
		p++ // name
		x, np, ok := parseVal(toks, p)
		if !ok {
			return false
		}
		p = np
		if p >= len(toks) || toks[p] != ")" {
			return false
		}
		p++
		vals[v.name] = x
	}
	return true
}

func parseVal(t []string, p int) (uint64, int, bool) {
	if p >= len(t) {
		return 0, p, false
	}
	switch {
	case t[p] == "true":
		return 1, p + 1, true
	case t[p] == "false":
		return 0, p + 1, true
	case strings.HasPrefix(t[p], "#x"):
		v, err := strconv.ParseUint(t[p][2:], 16, 64)
		return v, p + 1, err == nil
	case strings.HasPrefix(t[p], "#b"):
		v, err := strconv.ParseUint(t[p][2:], 2, 64)
		return v, p + 1, err == nil
	case t[p] == "(" && p+3 < len(t) && t[p+1] == "_" && strings.HasPrefix(t[p+2], "bv"):
		v, err := strconv.ParseUint(t[p+2][2:], 10, 64)
		return v, p + 5, err == nil
	}
	return 0, p, false
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, s[i:i+1])
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// relevant keeps the path-condition conjuncts that share variables (transitively) with extra.
func relevant(pc []*Term, extra *Term) []*Term {
	if extra == nil {
		return pc
	}
	want := map[*Term]bool{}
	var vs []*Term
	extra.collectVars(map[*Term]bool{}, &vs)
	for _, v := range vs {
		want[v] = true
	}
	pv := make([][]*Term, len(pc))
	for i, t := range pc {
		t.collectVars(map[*Term]bool{}, &pv[i])
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range pv[i] {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for _, v := range pv[i] {
					want[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, t := range pc {
		if used[i] {
			out = append(out, t)
		}
	}
	return out
}

type portRes struct {
	r   SatResult
	m   map[string]uint64
	who string
}

func (s *Solver) script(pc []*Term, extra *Term, wantModel bool) (string, []*Term) {
	gen := atomic.AddUint32(&solverGen, 1)
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	seen := map[*Term]bool{}
	var vars []*Term
	all := pc
	if extra != nil {
		all = append(append([]*Term{}, pc...), extra)
	}
	for _, t := range all {
		t.define(&sb, gen)
		t.collectVars(seen, &vars)
	}
	for _, t := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", t.ref())
	}
	sb.WriteString("(check-sat)\n")
	if wantModel && len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	// the definitions marked above are of this script: restart the incremental solver
	s.gen = atomic.AddUint32(&solverGen, 1)
	s.Close()
	return sb.String(), vars
}

func (s *Solver) portfolio(pc []*Term, extra *Term, wantModel bool) (SatResult, *Model) {
	atomic.AddInt64(&s.stats.Portfolio, 1)
	// conjuncts that share no variable with extra keep the values of the base model
	pcr := pc
	if !wantModel || s.base != nil {
		pcr = relevant(pc, extra)
	}
	txt, vars := s.script(pcr, extra, wantModel)
	hard := time.Duration(s.hardS) * time.Second
	if !s.deadline.IsZero() {
		if rem := time.Until(s.deadline); rem < hard {
			hard = rem
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), hard)
	defer cancel()
	tl := fmt.Sprintf("%d", s.hardS)
	cmds := [][]string{
		{"z3", "-in", "-memory:6000", "-T:" + tl},
		{"z3-new", "-in", "-memory:6000", "-T:" + tl},
		{"cvc5", "--lang", "smt2", "--tlimit=" + tl + "000", "-"},
		{"cvc5", "--lang", "smt2", "--solve-bv-as-int=sum", "--tlimit=" + tl + "000", "-"},
	}
	ch := make(chan portRes, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(txt)
			out, _ := cmd.Output()
			o := strings.TrimSpace(string(out))
			res := portRes{r: Unknown, who: strings.Join(c, " ")}
			switch {
			case strings.Contains(o, "(error") && !strings.HasPrefix(o, "unsat"):
			case strings.HasPrefix(o, "unsat"):
				res.r = Unsat
			case strings.HasPrefix(o, "sat"):
				res.r = Sat
				if wantModel {
					res.m = map[string]uint64{}
					if len(vars) > 0 && !parseValues(strings.TrimSpace(o[3:]), vars, res.m) {
						res.r = Unknown
					}
				}
			}
			ch <- res
		}(c)
	}
	for range cmds {
		res := <-ch
		if res.r != Unknown {
			cancel()
			var m *Model
			if res.r == Sat && wantModel {
				if s.base != nil {
					for k, v := range s.base.vals {
						if _, ok := res.m[k]; !ok {
							res.m[k] = v
						}
					}
				}
				m = s.ctx.NewModel(res.m)
			}
			return res.r, m
		}
	}
	return Unknown, nil
}
