package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// TierCfg are the bounds of one harness in one tier.
type TierCfg struct {
	Bounds   map[string]int64 `json:"bounds"`
	Timeout  int              `json:"timeout"` // seconds
	Preempt  int              `json:"preempt"`
	MaxSteps int64            `json:"max_steps"`
	Idle     int              `json:"idle"`
	SoftMs   int              `json:"soft_ms"`
	HardS    int              `json:"hard_s"`
	MaxAlloc int64            `json:"max_alloc"`
	Skip     bool             `json:"skip"`
}

// HarnessCfg describes one harness function.
type HarnessCfg struct {
	Name      string   `json:"name"`
	SchedFree bool     `json:"sched_free"`
	Delay     bool     `json:"delay"` // sched_free, but deviations from round robin count as preemptions
	ExactInt  bool     `json:"exact_int"`
	KeepGoing bool     `json:"keep_going"`
	RealLog   bool     `json:"real_log"`
	NoReplay  bool     `json:"no_replay"`
	Reach     []string `json:"reach"` // labels that must be reached
	Quick     TierCfg  `json:"quick"`
	Thorough  *TierCfg `json:"thorough"`
	Note      string   `json:"note"`

	// effective values
	Bounds     map[string]int64 `json:"-"`
	Preempt    int              `json:"-"`
	SoftMs     int              `json:"-"`
	HardS      int              `json:"-"`
	MaxSteps   int64            `json:"-"`
	IdleRounds int              `json:"-"`
	Timeout    int              `json:"-"`
	MaxAlloc   int64            `json:"-"`
}

// UnitCfg is a group of harnesses that live in one package of /repo.
type UnitCfg struct {
	Pkg        string              `json:"pkg"`
	Files      []string            `json:"files"`
	Extra      map[string][]string `json:"extra"`   // further harness files for other packages
	Rewrite    map[string][]string `json:"rewrite"` // package dir -> selectors "os.Open"
	Instrument []string            `json:"instrument"`
	Init       []string            `json:"init"` // further packages to initialise
	// package dir -> constant -> value: a size of the code scaled down for the encoding
	Consts    map[string]map[string]string `json:"consts"`
	Noop      []string                     `json:"noop"` // functions without effect
	Harnesses []*HarnessCfg                `json:"harnesses"`
}

type PropCfg struct {
	Property    string     `json:"property"`
	Units       []*UnitCfg `json:"units"`
	Assumptions []string   `json:"assumptions"`
	Outside     []string   `json:"outside"`
}

// Engine holds the program of one unit.
type Engine struct {
	repo, dir string
	tmp       string
	unit      *UnitCfg
	overlay   map[string][]byte
	remove    []string
	fset      *token.FileSet
	prog      *ssa.Program
	pkg       *ssa.Package
	sizes     types.Sizes
	initOrder []*ssa.Package

	errorStringPtr types.Type
	wrapErrorPtr   types.Type
	allowGlobals   map[string]bool
	noop           map[string]bool
	msCache        typeutil.MethodSetCache
	mu             sync.Mutex
	fnCache        map[string]*ssa.Function
	typCache       map[string]types.Type
	initNotes      map[string]string
	realLog        bool
}

var defaultInit = []string{
	"errors", "internal/reflectlite", "unicode", "unicode/utf8", "strings", "strconv", "sort", "slices", "bytes", "math", "math/bits", "io", "path",
	"path/filepath", "context", "internal/filepathlite", "internal/stringslite", "io/fs", "internal/oserror",
	"internal/bytealg", "sync", "sync/atomic", "time", "math/big", "encoding/binary", "cmp", "iter", "bufio", "internal/itoa",
}

func (e *Engine) isRepo(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Package()
	}
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Package()
	}
	if p == nil || !strings.HasPrefix(p.Pkg.Path(), modPath) || p.Pkg.Path() == zvPath {
		return false
	}
	if fn.Synthetic != "" && fn.Pos() == token.NoPos {
		return false
	}
	f := filepath.Base(e.fset.Position(fn.Pos()).Filename)
	return !strings.HasPrefix(f, "zz_")
}

var logMethod = regexp.MustCompile(`^\(` + regexp.QuoteMeta(modPath) + `/logging\.Logger\)\.(Trace|Debug|Info|Warn|Error|Fatal)f?$`)

func (e *Engine) dynamicIntrinsic(fn *ssa.Function, name string) intrinsic {
	if !e.realLog && logMethod.MatchString(name) || e.noop[name] {
		return func(w *Worker, fr *frame, a []Value, call *ssa.CallCommon) Value {
			res := fn.Signature.Results()
			switch res.Len() {
			case 0:
				return Value{}
			case 1:
				return zero(res.At(0).Type())
			}
			return zero(res)
		}
	}
	return nil
}

func (e *Engine) findFunc(pkg, name string) *ssa.Function {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := pkg + "." + name
	if f, ok := e.fnCache[k]; ok {
		return f
	}
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("function %s not found", k))
	}
	e.fnCache[k] = f
	return f
}

func (e *Engine) findType(pkg, name string) types.Type {
	e.mu.Lock()
	defer e.mu.Unlock()
	k := pkg + "." + name
	if t, ok := e.typCache[k]; ok {
		return t
	}
	var t types.Type
	if p := e.prog.ImportedPackage(pkg); p != nil {
		if o := p.Pkg.Scope().Lookup(name); o != nil {
			t = o.Type()
		}
	}
	e.typCache[k] = t
	return t
}

func (e *Engine) methodSet(t types.Type) *types.MethodSet { return e.msCache.MethodSet(t) }

// ---- overlay ----

type edit struct {
	off, del int
	ins      string
	seq      int
}

func applyEdits(src []byte, es []edit) []byte {
	for i := range es {
		es[i].seq = i
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off == es[j].off {
			return es[i].del == 0 && es[j].del > 0 // text is inserted before a replaced piece
		}
		return es[i].off < es[j].off
	})
	var out bytes.Buffer
	pos := 0
	for _, e := range es {
		if e.off > pos {
			out.Write(src[pos:e.off])
			pos = e.off
		}
		out.WriteString(e.ins)
		if e.off+e.del > pos {
			pos = e.off + e.del
		}
	}
	out.Write(src[pos:])
	return out.Bytes()
}

func stubName(sel string) string {
	p := strings.SplitN(sel, ".", 2)
	b := p[0]
	if i := strings.LastIndexByte(b, '/'); i >= 0 {
		b = b[i+1:]
	}
	return "ZZ" + strings.ToUpper(b[:1]) + b[1:] + "_" + p[1]
}

// splitSel splits "math/rand.Int" into import path and name.
func splitSel(sel string) (string, string) {
	i := strings.LastIndexByte(sel, '.')
	return sel[:i], sel[i+1:]
}

// transform rewrites one source file.
func (e *Engine) transform(file string, src []byte, sels []string, instrument bool, globals map[string]bool, own map[string]ast.ObjKind) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var es []edit
	imports := map[string]string{} // local name -> path
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if p == modPath+"/logging" {
			n = "log"
		}
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[n] = p
	}
	keep := map[string]string{}
	want := map[string]bool{}
	for _, s := range sels {
		want[s] = true
	}
	selRw := map[ast.Node]string{}
	ast.Inspect(f, func(n ast.Node) bool {
		se, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := imports[id.Name]
		if !ok {
			return true
		}
		k := p + "." + se.Sel.Name
		if want[k] {
			base := p[strings.LastIndexByte(p, '/')+1:]
			nm := stubName(base + "." + se.Sel.Name)
			selRw[se] = nm
			if own[nm] == ast.Typ {
				keep["type _ = "+id.Name+"."+se.Sel.Name] = "1"
			} else {
				keep["var _ = "+id.Name+"."+se.Sel.Name] = "1"
			}
			es = append(es, edit{off: off(se.Pos()), del: int(se.End() - se.Pos()), ins: nm})
		}
		return true
	})
	if instrument {
		in := &instr{fset: fset, src: src, globals: globals, off: off, sel: es}
		in.file(f)
		es = in.out
		es = append(es, edit{off: off(f.Name.End()), ins: "; import zzverif \"" + zvPath + "\""})
	}
	out := applyEdits(src, es)
	for _, k := range sortedKeys(keep) {
		out = append(out, []byte("\n"+k+"\n")...)
	}
	if instrument {
		out = append(out, []byte("\nvar _ = zzverif.Point\n")...)
	}
	return out, nil
}

// instr inserts scheduling points before statements that touch shared state, splits
// read-modify-write assignments and tags goroutines.
type instr struct {
	fset    *token.FileSet
	src     []byte
	globals map[string]bool
	off     func(token.Pos) int
	sel     []edit
	out     []edit
	n       int
}

func (in *instr) text(n ast.Node) string {
	lo, hi := in.off(n.Pos()), in.off(n.End())
	var es []edit
	for _, e := range in.sel {
		if e.off >= lo && e.off+e.del <= hi {
			e.off -= lo
			es = append(es, e)
		}
	}
	return string(applyEdits(append([]byte(nil), in.src[lo:hi]...), es))
}

// textI is the instrumented text of a node.
func (in *instr) textI(n ast.Node) string {
	lo, hi := in.off(n.Pos()), in.off(n.End())
	sub := &instr{fset: in.fset, src: in.src, globals: in.globals, off: in.off, n: in.n}
	for _, e := range in.sel {
		if e.off >= lo && e.off+e.del <= hi {
			sub.out = append(sub.out, e)
			sub.sel = append(sub.sel, e)
		}
	}
	ast.Inspect(n, sub.visit)
	in.n = sub.n
	es := sub.out
	for i := range es {
		es[i].off -= lo
	}
	return string(applyEdits(append([]byte(nil), in.src[lo:hi]...), es))
}

func (in *instr) file(f *ast.File) {
	in.out = append(in.out, in.sel...)
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			ast.Inspect(fd.Body, in.visit)
		}
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			ast.Inspect(gd, in.visit)
		}
	}
}

func (in *instr) visit(n ast.Node) bool {
	switch x := n.(type) {
	case *ast.BlockStmt:
		return in.list(x.List, x)
	case *ast.CaseClause:
		for _, e := range x.List {
			ast.Inspect(e, in.visit)
		}
		return in.list(x.Body, nil)
	case *ast.CommClause:
		return in.list(x.Body, nil)
	}
	return true
}

func (in *instr) list(ss []ast.Stmt, b *ast.BlockStmt) bool {
	for _, s := range ss {
		in.stmt(s)
	}
	return false
}

func (in *instr) ins(p token.Pos, s string) { in.out = append(in.out, edit{off: in.off(p), ins: s}) }

// replace drops every edit inside the node and replaces the text.
func (in *instr) replace(n ast.Node, s string) {
	lo, hi := in.off(n.Pos()), in.off(n.End())
	var k []edit
	for _, e := range in.out {
		if e.off >= lo && e.off < hi {
			continue
		}
		k = append(k, e)
	}
	in.out = append(k, edit{off: lo, del: hi - lo, ins: s})
}

func (in *instr) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.CaseClause, *ast.CommClause:
		in.visit(s)
		return
	case *ast.GoStmt:
		in.goStmt(x)
		return
	case *ast.AssignStmt:
		if in.split(x) {
			return
		}
	case *ast.IncDecStmt:
		if in.shared(x.X) && !hasCall(x.X) {
			in.n++
			t := fmt.Sprintf("zzt%d", in.n)
			l := in.text(x.X)
			op := "+"
			if x.Tok == token.DEC {
				op = "-"
			}
			in.replace(x, fmt.Sprintf("{ zzverif.Point(); %s := %s; zzverif.Point(); %s = %s %s 1 }", t, l, l, t, op))
			return
		}
	case *ast.LabeledStmt:
		ast.Inspect(x.Stmt, in.visit)
		return
	case *ast.BlockStmt:
		ast.Inspect(x, in.visit)
		return
	case *ast.ForStmt:
		if x.Cond != nil && in.shared(x.Cond) {
			in.ins(x.Pos(), "zzverif.Point(); ")
			ast.Inspect(x.Body, in.visit)
			in.ins(x.Body.Rbrace, "; zzverif.Point() ")
			return
		}
	}
	if in.shared(s) {
		in.ins(s.Pos(), "zzverif.Point(); ")
	}
	// nested blocks and function literals
	ast.Inspect(s, func(n ast.Node) bool {
		if n == s {
			return true
		}
		return in.visit(n)
	})
}

func hasCall(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(n ast.Node) bool {
		if _, ok := n.(*ast.CallExpr); ok {
			r = true
		}
		return !r
	})
	return r
}

// shared says whether evaluating n's own expressions (not nested blocks) may touch shared state.
func (in *instr) shared(n ast.Node) bool {
	r := false
	ast.Inspect(n, func(m ast.Node) bool {
		if r {
			return false
		}
		switch x := m.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return m == n
		case *ast.CaseClause:
			for _, e := range x.List {
				if in.shared(e) {
					r = true
				}
			}
			return false
		case *ast.CommClause:
			if x.Comm != nil {
				r = true
			}
			return false
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.SendStmt, *ast.SelectStmt:
			r = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r = true
			}
		case *ast.CallExpr:
			r = true
		case *ast.Ident:
			if x.Obj == nil && in.globals[x.Name] || x.Obj != nil && x.Obj.Kind == ast.Var && in.globals[x.Name] {
				r = true
			}
		}
		return !r
	})
	return r
}

func (in *instr) split(x *ast.AssignStmt) bool {
	if len(x.Lhs) != 1 || len(x.Rhs) != 1 || x.Tok == token.DEFINE {
		return false
	}
	if !in.shared(x.Lhs[0]) || hasCall(x.Lhs[0]) {
		return false
	}
	if id, ok := x.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
		return false
	}
	hasLit := false
	ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			hasLit = true
		}
		return true
	})
	if hasLit {
		return false
	}
	l := in.text(x.Lhs[0])
	rt := in.text(x.Rhs[0])
	in.n++
	t := fmt.Sprintf("zzt%d", in.n)
	switch x.Tok {
	case token.ASSIGN:
		if !in.shared(x.Rhs[0]) {
			return false
		}
		in.replace(x, fmt.Sprintf("{ zzverif.Point(); %s := %s; zzverif.Point(); %s = %s }", t, rt, l, t))
	default:
		op := strings.TrimSuffix(x.Tok.String(), "=")
		in.replace(x, fmt.Sprintf("{ zzverif.Point(); %s := %s %s (%s); zzverif.Point(); %s = %s }", t, l, op, rt, l, t))
	}
	return true
}

// constLike: a constant expression as far as the syntax shows.
func constLike(e ast.Expr) bool {
	switch y := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return y.Name == "nil" || y.Name == "true" || y.Name == "false" || y.Obj != nil && y.Obj.Kind == ast.Con
	case *ast.UnaryExpr:
		return y.Op != token.ARROW && y.Op != token.AND && constLike(y.X)
	case *ast.ParenExpr:
		return constLike(y.X)
	case *ast.BinaryExpr:
		return constLike(y.X) && constLike(y.Y)
	}
	return false
}

func (in *instr) goStmt(x *ast.GoStmt) {
	in.n++
	g := fmt.Sprintf("zzg%d", in.n)
	if fl, ok := x.Call.Fun.(*ast.FuncLit); ok {
		in.ins(x.Pos(), fmt.Sprintf("{ zzverif.Point(); %s := zzverif.Spawn(); ", g))
		in.ins(fl.Body.Lbrace+1, fmt.Sprintf(" zzverif.Enter(%s); defer zzverif.Exit(%s); ", g, g))
		in.ins(x.End(), " }")
		ast.Inspect(fl.Body, in.visit)
		return
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "{ zzverif.Point(); %s := zzverif.Spawn(); %sf := %s; ", g, g, in.textI(x.Call.Fun))
	var args []string
	for i, a := range x.Call.Args {
		t := in.textI(a)
		if constLike(a) {
			args = append(args, t)
			continue
		}
		v := fmt.Sprintf("%sa%d", g, i)
		fmt.Fprintf(&sb, "%s := %s; ", v, t)
		args = append(args, v)
	}
	dots := ""
	if x.Call.Ellipsis != token.NoPos {
		dots = "..."
	}
	fmt.Fprintf(&sb, "go func() { zzverif.Enter(%s); defer zzverif.Exit(%s); %sf(%s%s) }() }", g, g, g, strings.Join(args, ", "), dots)
	in.replace(x, sb.String())
}

// prepare builds the overlay of a unit.
func (e *Engine) prepare() error {
	e.overlay = map[string][]byte{}
	zv, err := os.ReadFile(filepath.Join(verifDir, "gosym", "rt", "zzverif.go.txt"))
	if err != nil {
		return err
	}
	e.overlay[filepath.Join(e.repo, "zzverif", "zzverif.go")] = zv
	u := e.unit
	instr := map[string]bool{}
	for _, p := range u.Instrument {
		instr[p] = true
	}
	dirs := map[string]bool{}
	for p := range u.Rewrite {
		dirs[p] = true
	}
	for p := range instr {
		dirs[p] = true
	}
	for p := range u.Consts {
		dirs[p] = true
	}
	files := map[string][]string{u.Pkg: u.Files}
	for p, fs := range u.Extra {
		files[p] = append(files[p], fs...)
	}
	for _, d := range sortedKeys(dirs) {
		ents, err := os.ReadDir(filepath.Join(e.repo, d))
		if err != nil {
			return err
		}
		globals := map[string]bool{}
		srcs := map[string][]byte{}
		pkgName := ""
		for _, en := range ents {
			n := en.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(e.repo, d, n))
			if err != nil {
				return err
			}
			if b, err = scaleConsts(n, b, u.Consts[d]); err != nil {
				return err
			}
			srcs[n] = b
			f, err := parser.ParseFile(token.NewFileSet(), n, b, 0)
			if err != nil {
				return err
			}
			pkgName = f.Name.Name
			for _, dc := range f.Decls {
				if gd, ok := dc.(*ast.GenDecl); ok && gd.Tok == token.VAR {
					for _, sp := range gd.Specs {
						for _, id := range sp.(*ast.ValueSpec).Names {
							globals[id.Name] = true
						}
					}
				}
			}
		}
		own := e.harnessDecls(files[d])
		for _, n := range sortedKeys(srcs) {
			out, err := e.transform(n, srcs[n], u.Rewrite[d], instr[d], globals, own)
			if err != nil {
				return err
			}
			e.overlay[filepath.Join(e.repo, d, n)] = out
		}
		// every requested stub exists, whether or not the code still uses it
		if len(u.Rewrite[d]) > 0 {
			var sb strings.Builder
			fmt.Fprintf(&sb, "package %s\n\nimport (\n", pkgName)
			al := map[string]string{}
			for _, s := range u.Rewrite[d] {
				p, n := splitSel(s)
				if own[stubName(p[strings.LastIndexByte(p, '/')+1:]+"."+n)] != ast.Bad {
					continue
				}
				if al[p] == "" {
					al[p] = fmt.Sprintf("zzi%d", len(al))
					fmt.Fprintf(&sb, "\t%s %q\n", al[p], p)
				}
			}
			sb.WriteString(")\n\n")
			for _, s := range u.Rewrite[d] {
				p, n := splitSel(s)
				base := p[strings.LastIndexByte(p, '/')+1:]
				if own[stubName(base+"."+n)] != ast.Bad {
					continue
				}
				fmt.Fprintf(&sb, "var %s = %s.%s\n", stubName(base+"."+n), al[p], n)
			}
			e.overlay[filepath.Join(e.repo, d, "zz_stubs.go")] = []byte(sb.String())
		}
	}
	for d, fs := range files {
		for _, fn := range fs {
			b, err := os.ReadFile(filepath.Join(e.dir, fn))
			if err != nil {
				return err
			}
			src, err := e.transformHarness(fn, b, len(u.Instrument) > 0)
			if err != nil {
				return err
			}
			e.overlay[filepath.Join(e.repo, d, "zz_verif_"+strings.TrimSuffix(filepath.Base(fn), ".txt"))] = src
		}
	}
	// existing tests stay out of the replay binary
	ents, _ := os.ReadDir(filepath.Join(e.repo, u.Pkg))
	for _, en := range ents {
		if strings.HasSuffix(en.Name(), "_test.go") {
			e.remove = append(e.remove, filepath.Join(e.repo, u.Pkg, en.Name()))
		}
	}
	return nil
}

// harnessDecls returns the package-level names that harness files declare; a stub that a
// harness declares itself may have a type of its own.
func (e *Engine) harnessDecls(files []string) map[string]ast.ObjKind {
	names := map[string]ast.ObjKind{}
	for _, fn := range files {
		f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(e.dir, fn), nil, 0)
		if err != nil {
			continue
		}
		for n, o := range f.Scope.Objects {
			names[n] = o.Kind
		}
	}
	return names
}

// scaleConsts replaces the values of top-level integer constants; a constant that does not
// exist (any more) is left alone.
func scaleConsts(name string, src []byte, vals map[string]string) ([]byte, error) {
	if len(vals) == 0 {
		return src, nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var es []edit
	for _, dc := range f.Decls {
		gd, ok := dc.(*ast.GenDecl)
		if !ok || gd.Tok != token.CONST && gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			for i, id := range vs.Names {
				if v, ok := vals[id.Name]; ok && i < len(vs.Values) {
					lo, hi := fset.Position(vs.Values[i].Pos()).Offset, fset.Position(vs.Values[i].End()).Offset
					es = append(es, edit{off: lo, del: hi - lo, ins: v})
				}
			}
		}
	}
	return applyEdits(src, es), nil
}

// transformHarness tags the goroutines a harness starts.
func (e *Engine) transformHarness(name string, src []byte, tag bool) ([]byte, error) {
	if !tag {
		return src, nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	in := &instr{fset: fset, src: src, globals: map[string]bool{}, off: func(p token.Pos) int { return fset.Position(p).Offset }}
	ast.Inspect(f, func(n ast.Node) bool {
		if g, ok := n.(*ast.GoStmt); ok {
			if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
				in.n++
				v := fmt.Sprintf("zzh%d", in.n)
				in.ins(g.Pos(), fmt.Sprintf("{ zzverif.Point(); %s := zzverif.Spawn(); ", v))
				in.ins(fl.Body.Lbrace+1, fmt.Sprintf(" zzverif.Enter(%s); defer zzverif.Exit(%s); ", v, v))
				in.ins(g.End(), " }")
				return true
			}
			in.goStmt(g)
			return false
		}
		return true
	})
	return applyEdits(src, in.out), nil
}

func (e *Engine) load() error {
	if err := e.prepare(); err != nil {
		return err
	}
	e.fset = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: e.repo, Fset: e.fset, Overlay: e.overlay,
		Env: goEnv()}
	pkgs, err := packages.Load(cfg, "./"+e.unit.Pkg)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, er := range p.Errors {
				errs = append(errs, er.Error())
			}
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("harness or code does not compile: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.pkg = spkgs[0]
	e.sizes = types.SizesFor("gc", "amd64")
	e.fnCache = map[string]*ssa.Function{}
	e.typCache = map[string]types.Type{}
	e.initNotes = map[string]string{}
	e.allowGlobals = map[string]bool{"internal/cpu": true, "internal/bytealg": true}
	e.noop = map[string]bool{}
	for _, n := range e.unit.Noop {
		e.noop[n] = true
	}
	if t := e.findType("errors", "errorString"); t != nil {
		e.errorStringPtr = types.NewPointer(t)
	}
	if t := e.findType("fmt", "wrapError"); t != nil {
		e.wrapErrorPtr = types.NewPointer(t)
	}
	// initialisation order
	want := map[string]bool{}
	for _, p := range append(append([]string{}, defaultInit...), e.unit.Init...) {
		want[p] = true
	}
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		ims := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(ims, func(i, j int) bool { return ims[i].Path() < ims[j].Path() })
		for _, im := range ims {
			visit(im)
		}
		ok := want[p.Path()] || strings.HasPrefix(p.Path(), modPath)
		for k := range want {
			if strings.HasSuffix(k, "/...") && strings.HasPrefix(p.Path(), strings.TrimSuffix(k, "...")) {
				ok = true
			}
		}
		if ok {
			if sp := prog.Package(p); sp != nil {
				e.initOrder = append(e.initOrder, sp)
			}
		}
	}
	visit(e.pkg.Pkg)
	return nil
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// writeOverlay stores the overlay for the go command and returns the JSON file.
func (e *Engine) writeOverlay(harnesses []string) (string, error) {
	rep := map[string]string{}
	i := 0
	put := func(path string, b []byte) error {
		f := filepath.Join(e.tmp, fmt.Sprintf("ov%d_%s", i, filepath.Base(path)))
		i++
		rep[path] = f
		return os.WriteFile(f, b, 0o644)
	}
	for _, p := range sortedKeys(e.overlay) {
		if err := put(p, e.overlay[p]); err != nil {
			return "", err
		}
	}
	for _, p := range e.remove {
		rep[p] = ""
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\tzzverif %q\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tzzverif.Main(map[string]func(){\n", e.pkg.Pkg.Name(), zvPath)
	for _, h := range harnesses {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", h, h)
	}
	sb.WriteString("\t})\n}\n")
	if err := put(filepath.Join(e.repo, e.unit.Pkg, "zz_replay_test.go"), []byte(sb.String())); err != nil {
		return "", err
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": rep}, "", " ")
	f := filepath.Join(e.tmp, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}
