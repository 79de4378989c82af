package main

// Loading the program under proof, package initialisation, contract discovery.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoMod      = "github.com/twuillemin/modes"
	contractsMod = "verif/contracts"
	vcPath       = "verif/contracts/vc"
)

type Engine struct {
	start        time.Time
	prog         *ssa.Program
	pkgs         []*packages.Package
	globals      map[*ssa.Global]*Object
	globOf       map[*Object]*ssa.Global
	initMem      *layer
	initDone     map[*ssa.Package]bool
	initPhase    bool
	wtoCache     map[*ssa.Function][]*wtoNode
	loopPC       map[*ssa.BasicBlock]*Term
	errorStringT types.Type
	smt          *smtSolver
	contracts    []*Contract
	byFn         map[*ssa.Function]*Contract
	relCache     map[string]string
	repoDir      string
	enumCount    uint64
	tab          *tabulator
	debug        bool
	prop         string
	broken       map[string]string          // contract packages that do not fit the code
	brokenProps  map[string]map[string]bool // and the properties they speak about
	crossSolver  string
	crossNative  []string
}

var propRE = regexp.MustCompile(`\bP[0-9]{2}\b`)

type Contract struct {
	ID      string
	Pkg     string
	Props   []string
	Kind    string // contract, field, lemma
	Pos     string
	Target  *ssa.Function
	Spec    *ssa.Function
	Lens    map[string][]int    // slice parameter -> lengths (-1: any other)
	Splits  map[string][2]int64 // scalar parameter -> concrete range
	BitFrom int
	BitTo   int
	Scale   bool
	Opts    map[string]bool
	Params  []string
	Err     string

	proving bool
	done    bool
	res     *Result
}

func loadEngine(repoDir, contractsDir string) (*Engine, error) {
	tmp, err := os.MkdirTemp("", "load")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        contractsDir,
		Env:        goEnv(),
		BuildFlags: modArgs(options{repo: repoDir, verif: filepath.Dir(contractsDir)}, tmp),
	}
	pkgs, err := packages.Load(cfg, "./...", repoMod+"/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	broken := map[string]string{}
	brokenProps := map[string]map[string]bool{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.HasPrefix(p.PkgPath, contractsMod+"/") {
				broken[p.PkgPath] += e.Error() + "\n"
				ps := map[string]bool{}
				for _, f := range p.GoFiles {
					raw, _ := os.ReadFile(f)
					for _, m := range propRE.FindAllString(string(raw), -1) {
						ps[m] = true
					}
				}
				brokenProps[p.PkgPath] = ps
				continue
			}
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not type-check:\n  %s", strings.Join(errs, "\n  "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: pkgs, globals: map[*ssa.Global]*Object{}, globOf: map[*Object]*ssa.Global{}, initMem: newLayer(nil),
		initDone: map[*ssa.Package]bool{}, wtoCache: map[*ssa.Function][]*wtoNode{}, loopPC: map[*ssa.BasicBlock]*Term{},
		byFn: map[*ssa.Function]*Contract{}, relCache: map[string]string{}, repoDir: repoDir, broken: broken, brokenProps: brokenProps}
	e.smt = &smtSolver{}
	ep := prog.ImportedPackage("errors")
	if ep == nil {
		return nil, fmt.Errorf("package errors not loaded")
	}
	e.errorStringT = ep.Type("errorString").Type()
	e.initGlobals()
	if err := e.discover(); err != nil {
		return nil, err
	}
	return e, nil
}

func (e *Engine) relFile(f string) string {
	if r, err := filepath.Rel(e.repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	if i := strings.Index(f, "/contracts/"); i >= 0 {
		return f[i+1:]
	}
	return filepath.Base(f)
}

func (e *Engine) fnName(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), repoMod+"/", ""), contractsMod+"/", "contracts/")
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if fn.Origin() != nil {
		return fn.Origin().Pkg
	}
	return nil
}

func pkgPathOf(fn *ssa.Function) string {
	if p := pkgOf(fn); p != nil {
		return p.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (e *Engine) isRepo(fn *ssa.Function) bool {
	p := pkgPathOf(fn)
	return p == repoMod || strings.HasPrefix(p, repoMod+"/")
}

var stdInline = map[string]bool{"errors": true, "strings": true, "strconv": true, "math": true, "math/bits": true, "unicode/utf8": true,
	"encoding/binary": true, "bytes": true, "slices": true, "cmp": true, "sort": true, "internal/stringslite": true, "internal/bytealg": true, "internal/byteorder": true}

func (e *Engine) mayInline(fn *ssa.Function) bool {
	p := pkgPathOf(fn)
	return e.isRepo(fn) || strings.HasPrefix(p, contractsMod) || stdInline[p] || p == ""
}

func (e *Engine) wtoOf(fn *ssa.Function) []*wtoNode {
	w, ok := e.wtoCache[fn]
	if !ok {
		w = wto(fn)
		e.wtoCache[fn] = w
	}
	return w
}

var globN int

func (e *Engine) globalObj(g *ssa.Global) *Object {
	o, ok := e.globals[g]
	if !ok {
		globN++
		o = &Object{ID: -globN, Name: "the package variable " + g.String(), T: g.Type().(*types.Pointer).Elem(), Glob: true}
		e.globals[g] = o
		e.globOf[o] = g
	}
	return o
}

// globalInit returns the value a global has after package initialisation.
func (e *Engine) globalInit(o *Object) Value {
	if v := e.initMem.get(o); v != nil && !e.initPhase {
		return v
	}
	g := e.globOf[o]
	if g == nil {
		return nil
	}
	if !e.initPhase && !e.initDone[g.Pkg] {
		e.runInit(g.Pkg)
		if v := e.initMem.get(o); v != nil {
			return v
		}
	}
	v := zeroVal(o.T)
	e.initMem.m[o] = v
	return v
}

func (e *Engine) runInit(p *ssa.Package) {
	if e.initDone[p] {
		return
	}
	e.initDone[p] = true
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	save := e.initPhase
	e.initPhase = true
	defer func() { e.initPhase = save }()
	ex := &Exec{eng: e, objN: -1000000 - 100000*len(e.initDone)}
	// straight-line interpretation: an initialiser that is not supported only
	// makes the variables it defines unusable.
	st := &State{True, e.initMem}
	env := map[ssa.Value]Value{}
	fr := &frame{fn: fn, env: env}
	b := fn.Blocks[0]
	seen := map[*ssa.BasicBlock]bool{}
	for b != nil && !seen[b] {
		seen[b] = true
		var next *ssa.BasicBlock
		for _, ins := range b.Instrs {
			switch t := ins.(type) {
			case *ssa.If:
				// the init guard: go to the initialiser
				next = b.Succs[0]
				if len(b.Succs) == 2 && len(b.Succs[0].Instrs) <= 1 {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
			default:
				e.initInstr(ex, fr, t, st)
			}
		}
		b = next
	}
	for o := range e.initMem.m {
		o.Glob = true
	}
}

func (e *Engine) initInstr(ex *Exec, fr *frame, ins ssa.Instruction, st *State) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if u, ok := r.(unsupported); ok {
				msg = u.msg
			}
			if v, ok := ins.(ssa.Value); ok {
				fr.env[v] = &Bad{"initialiser: " + msg}
			}
			if s, ok := ins.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					e.initMem.m[e.globalObj(g)] = &Bad{"initialiser of " + g.Name() + ": " + msg}
				}
			}
		}
	}()
	n := len(ex.obls)
	if c, ok := ins.(*ssa.Call); ok {
		if f, ok := c.Call.Value.(*ssa.Function); ok {
			if f.Name() == "init" && f.Synthetic != "" {
				return // another package
			}
			if pkgPathOf(f) == vcPath {
				fr.env[c] = &Bad{"a registration"}
				return
			}
		}
	}
	ex.exec(fr, ins, st)
	e.initMem = flatten(st.mem)
	st.mem = e.initMem
	if len(ex.obls) > n {
		unsup("initialiser: %s", ex.obls[n].Name())
	}
}

func flatten(l *layer) *layer {
	if l.parent == nil {
		return l
	}
	out := newLayer(nil)
	var ls []*layer
	for ; l != nil; l = l.parent {
		ls = append(ls, l)
	}
	for i := len(ls) - 1; i >= 0; i-- {
		for k, v := range ls[i].m {
			out.m[k] = v
		}
	}
	return out
}

func (e *Engine) initGlobals() {
	// dependency order is not needed across packages except for references to
	// other packages' variables; run imports first.
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if strings.HasPrefix(p.Path(), repoMod) || strings.HasPrefix(p.Path(), contractsMod) {
			if sp := e.prog.Package(p); sp != nil && p.Path() != vcPath && p.Path() != contractsMod+"/replay" && p.Name() != "main" {
				e.runInit(sp)
			}
		}
	}
	for _, p := range e.pkgs {
		if p.Types != nil {
			visit(p.Types)
		}
	}
}

// ---------- discovery

func (e *Engine) discover() error {
	for _, p := range e.pkgs {
		if !strings.HasPrefix(p.PkgPath, contractsMod) || p.PkgPath == vcPath || broken(p) {
			continue
		}
		sp := e.prog.Package(p.Types)
		lits := map[token.Pos]*ssa.Function{}
		var addAnon func(f *ssa.Function)
		addAnon = func(f *ssa.Function) {
			for _, a := range f.AnonFuncs {
				lits[a.Pos()] = a
				addAnon(a)
			}
		}
		if f := sp.Func("init"); f != nil {
			addAnon(f)
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || gd.Tok != token.VAR {
					continue
				}
				for _, s := range gd.Specs {
					vs := s.(*ast.ValueSpec)
					for _, v := range vs.Values {
						c, ok := v.(*ast.CallExpr)
						if !ok {
							continue
						}
						if err := e.register(p, c, lits); err != nil {
							return err
						}
					}
				}
			}
		}
	}
	sort.SliceStable(e.contracts, func(i, j int) bool { return e.contracts[i].ID < e.contracts[j].ID })
	return nil
}

func callee(info *types.Info, c *ast.CallExpr) *types.Func {
	f := ast.Unparen(c.Fun)
	switch x := f.(type) {
	case *ast.IndexExpr:
		f = x.X
	case *ast.IndexListExpr:
		f = x.X
	}
	switch x := f.(type) {
	case *ast.SelectorExpr:
		if fn, ok := info.Uses[x.Sel].(*types.Func); ok {
			return fn
		}
	case *ast.Ident:
		if fn, ok := info.Uses[x].(*types.Func); ok {
			return fn
		}
	}
	return nil
}

func (e *Engine) register(p *packages.Package, c *ast.CallExpr, lits map[token.Pos]*ssa.Function) error {
	info := p.TypesInfo
	fn := callee(info, c)
	if fn == nil || fn.Pkg() == nil || fn.Pkg().Path() != vcPath {
		return nil
	}
	pos := e.prog.Fset.Position(c.Pos())
	at := fmt.Sprintf("%s/%s:%d", filepath.Base(filepath.Dir(pos.Filename)), filepath.Base(pos.Filename), pos.Line)
	str := func(x ast.Expr) string {
		if tv := info.Types[x]; tv.Value != nil {
			return constant.StringVal(tv.Value)
		}
		return ""
	}
	num := func(x ast.Expr) int64 {
		tv := info.Types[x]
		if tv.Value == nil {
			return 0
		}
		v, _ := constant.Int64Val(constant.ToInt(tv.Value))
		return v
	}
	ct := &Contract{Pos: at, Pkg: p.PkgPath, Lens: map[string][]int{}, Splits: map[string][2]int64{}, Opts: map[string]bool{}}
	props := func(s string) {
		for _, x := range strings.Split(s, ",") {
			ct.Props = append(ct.Props, strings.TrimSpace(x))
		}
	}
	target := func(x ast.Expr) error {
		var obj *types.Func
		switch y := ast.Unparen(x).(type) {
		case *ast.SelectorExpr:
			if sel := info.Selections[y]; sel != nil {
				obj, _ = sel.Obj().(*types.Func)
			} else {
				obj, _ = info.Uses[y.Sel].(*types.Func)
			}
		case *ast.Ident:
			obj, _ = info.Uses[y].(*types.Func)
		}
		if obj == nil {
			return fmt.Errorf("%s: the target of the contract is not a function", at)
		}
		ct.Target = e.prog.FuncValue(obj)
		if ct.Target == nil {
			return fmt.Errorf("%s: no code for %s", at, obj.FullName())
		}
		return nil
	}
	spec := func(x ast.Expr) error {
		fl, ok := ast.Unparen(x).(*ast.FuncLit)
		if !ok {
			return fmt.Errorf("%s: the specification is not a function literal", at)
		}
		ct.Spec = lits[fl.Type.Func]
		if ct.Spec == nil {
			return fmt.Errorf("%s: no code for the specification", at)
		}
		for _, q := range ct.Spec.Params {
			ct.Params = append(ct.Params, q.Name())
		}
		return nil
	}
	var opts []ast.Expr
	switch fn.Name() {
	case "Contract":
		ct.Kind = "contract"
		props(str(c.Args[0]))
		if err := target(c.Args[1]); err != nil {
			return err
		}
		if err := spec(c.Args[2]); err != nil {
			return err
		}
		opts = c.Args[3:]
		ct.ID = e.fnName(ct.Target)
	case "Field":
		ct.Kind = "field"
		props(str(c.Args[0]))
		if err := target(c.Args[1]); err != nil {
			return err
		}
		ct.BitFrom, ct.BitTo = int(num(c.Args[2])), int(num(c.Args[3]))
		opts = c.Args[4:]
		ct.ID = e.fnName(ct.Target)
		ct.Params = []string{"data", "result"}
	case "Lemma":
		ct.Kind = "lemma"
		props(str(c.Args[0]))
		ct.ID = "lemma " + str(c.Args[1])
		if err := spec(c.Args[2]); err != nil {
			return err
		}
		opts = c.Args[3:]
	default:
		return nil
	}
	for _, o := range opts {
		oc, ok := o.(*ast.CallExpr)
		if !ok {
			continue
		}
		of := callee(info, oc)
		if of == nil {
			continue
		}
		switch of.Name() {
		case "Len":
			nm := str(oc.Args[0])
			for _, a := range oc.Args[1:] {
				ct.Lens[nm] = append(ct.Lens[nm], int(num(a)))
			}
		case "Range":
			ct.Splits[str(oc.Args[0])] = [2]int64{num(oc.Args[1]), num(oc.Args[2])}
		default:
			ct.Opts[of.Name()] = true
		}
	}
	if ct.Kind == "field" && len(ct.Lens) == 0 {
		ct.Lens["data"] = []int{7}
	}
	if prev := e.byFn[ct.Target]; ct.Target != nil && prev != nil {
		ct.ID += " #" + at
	} else if ct.Target != nil {
		e.byFn[ct.Target] = ct
	}
	e.contracts = append(e.contracts, ct)
	return nil
}

func broken(p *packages.Package) bool { return len(p.Errors) > 0 || p.IllTyped }

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}
