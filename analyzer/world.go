package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/corywalker/expreduce"

const (
	pkgAPI     = modPath + "/pkg/expreduceapi"
	pkgAtoms   = modPath + "/expreduce/atoms"
	pkgMatcher = modPath + "/expreduce/matcher"
	pkgParser  = modPath + "/expreduce/parser"
	pkgParens  = modPath + "/expreduce/parser/parens"
	pkgIter    = modPath + "/expreduce/iterspec"
	pkgStream  = modPath + "/expreduce/streammanager"
	pkgTime    = modPath + "/expreduce/timecounter"
	pkgGraph   = modPath + "/expreduce/graphics"
	pkgLog     = modPath + "/expreduce/logging"
	pkgCore    = modPath + "/expreduce"
)

// The one package whose source is missing from the pinned tree; it only has to
// type-check. See DESIGN.md.
const rubiStub = `package rubi_snapshot

import "errors"

func Asset(name string) ([]byte, error) { return nil, errors.New("Asset not found: " + name) }
`

// World is the loaded, type-checked program.
type World struct {
	madeIface []types.Type
	Repo      string
	Fset      *token.FileSet
	Pkgs      []*packages.Package
	ByPath    map[string]*packages.Package
	Prog      *ssa.Program
	SSA       map[string]*ssa.Package
	// Funcs are all functions with source in the repository (methods, closures
	// and init functions included), in a deterministic order.
	Funcs   []*ssa.Function
	inScope map[*ssa.Function]bool

	callersOf map[*ssa.Function][]ssa.CallInstruction
	addrTaken map[*ssa.Function][]ssa.Instruction
	implCache map[string][]*ssa.Function
	namedRepo []*types.Named
	globalsMu sync.Mutex
	globalsC  map[string]aMem
	builtinC  map[string]*builtin
}

func LoadWorld(repo string) (*World, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles |
			packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo,
		Env: env,
	}
	stub := filepath.Join(repo, "expreduce/rubi_snapshot/rubi_resources.go")
	if _, err := os.Stat(stub); os.IsNotExist(err) {
		cfg.Overlay = map[string][]byte{stub: []byte(rubiStub)}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", repo)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "; "))
	}
	w := &World{
		Repo: repo, Pkgs: pkgs, ByPath: map[string]*packages.Package{},
		SSA: map[string]*ssa.Package{}, inScope: map[*ssa.Function]bool{},
		implCache: map[string][]*ssa.Function{},
	}
	w.Fset = pkgs[0].Fset
	for _, p := range pkgs {
		w.ByPath[p.PkgPath] = p
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	for _, sp := range spkgs {
		if sp != nil {
			w.SSA[sp.Pkg.Path()] = sp
		}
	}
	w.collect()
	return w, nil
}

func (w *World) collect() {
	var addFn func(f *ssa.Function)
	addFn = func(f *ssa.Function) {
		if f == nil || w.inScope[f] || len(f.Blocks) == 0 {
			return
		}
		w.inScope[f] = true
		w.Funcs = append(w.Funcs, f)
		for _, a := range f.AnonFuncs {
			addFn(a)
		}
	}
	var paths []string
	for p := range w.SSA {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		sp := w.SSA[p]
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			switch m := sp.Members[n].(type) {
			case *ssa.Function:
				addFn(m)
			case *ssa.Type:
				named, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				w.namedRepo = append(w.namedRepo, named)
				for i := 0; i < named.NumMethods(); i++ {
					addFn(w.Prog.FuncValue(named.Method(i)))
				}
			}
		}
	}
	// Call graph over resolved callees.
	w.callersOf = map[*ssa.Function][]ssa.CallInstruction{}
	w.addrTaken = map[*ssa.Function][]ssa.Instruction{}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, isCall := in.(ssa.CallInstruction)
				if isCall {
					for _, callee := range w.Callees(call) {
						w.callersOf[callee] = append(w.callersOf[callee], call)
					}
				}
				for oi, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					var fn *ssa.Function
					switch x := (*op).(type) {
					case *ssa.Function:
						fn = x
					case *ssa.MakeClosure:
						continue
					}
					if fn == nil {
						continue
					}
					if isCall && oi == 0 && call.Common().Value == *op && !call.Common().IsInvoke() {
						continue
					}
					if _, isMC := in.(*ssa.MakeClosure); isMC && oi == 0 {
						// the closure value itself: address taken unless called directly
						w.addrTaken[fn] = append(w.addrTaken[fn], in)
						continue
					}
					w.addrTaken[fn] = append(w.addrTaken[fn], in)
				}
			}
		}
	}
}

// Callees resolves a call: the static callee, or for interface calls every
// method of a repository type implementing the interface, or for closures
// called where they are made, the closure.
func (w *World) Callees(call ssa.CallInstruction) []*ssa.Function {
	c := call.Common()
	if c.IsInvoke() {
		return w.Impls(c.Value.Type(), c.Method)
	}
	if f := c.StaticCallee(); f != nil {
		return []*ssa.Function{unthunk(f)}
	}
	return nil
}

// unthunk maps synthetic wrappers ($bound, $thunk, promoted methods) to nothing
// special: ssa keeps them as functions with bodies that call the target.
func unthunk(f *ssa.Function) *ssa.Function {
	if f.Synthetic != "" && f.Object() != nil {
		if fn, ok := f.Object().(*types.Func); ok {
			if t := f.Prog.FuncValue(fn); t != nil {
				return t
			}
		}
	}
	return f
}

// Impls returns the repository methods an interface method call may reach.
func (w *World) Impls(t types.Type, m *types.Func) []*ssa.Function {
	iface, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := types.TypeString(t, nil) + "." + m.Name()
	if r, ok := w.implCache[key]; ok {
		return r
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, n := range w.namedRepo {
		if types.IsInterface(n) {
			continue
		}
		for _, cand := range []types.Type{types.NewPointer(n), n} {
			if !types.Implements(cand, iface) {
				continue
			}
			sel := types.NewMethodSet(cand).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				sel = types.NewMethodSet(cand).Lookup(nil, m.Name())
			}
			if sel == nil {
				continue
			}
			fn, _ := sel.Obj().(*types.Func)
			if fn == nil {
				continue
			}
			f := w.Prog.FuncValue(fn)
			if f != nil && !seen[f] && len(f.Blocks) > 0 {
				seen[f] = true
				out = append(out, f)
			}
			break
		}
	}
	w.implCache[key] = out
	return out
}

// Pos renders a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	pos := w.Fset.Position(p)
	rel, err := filepath.Rel(w.Repo, pos.Filename)
	if err != nil {
		rel = pos.Filename
	}
	return fmt.Sprintf("%s:%d", rel, pos.Line)
}

// At renders where an instruction is.
func (w *World) At(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			for _, ref := range *orEmpty(v.Referrers()) {
				if ref.Pos().IsValid() {
					p = ref.Pos()
					break
				}
			}
		}
	}
	if !p.IsValid() && in.Parent() != nil {
		p = in.Parent().Pos()
	}
	return w.Pos(p) + " in " + fname(in.Parent())
}

func orEmpty(r *[]ssa.Instruction) *[]ssa.Instruction {
	if r == nil {
		return &[]ssa.Instruction{}
	}
	return r
}

// fname is a short stable function name: pkg.Func or pkg.(*T).Method.
func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/expreduce/", "")
	s = strings.ReplaceAll(s, modPath+"/pkg/", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// Fn finds a package-level function or method: "Name" or "T.Name".
// Fn finds a function ("Name" or "Type.Method"); a missing anchor makes the
// property undecided.
func (w *World) Fn(pkg, name string) *ssa.Function {
	f := w.fnOpt(pkg, name)
	if f == nil {
		panic("unresolved anchor: " + pkg + "." + name)
	}
	return f
}

func (w *World) fnOpt(pkg, name string) *ssa.Function {
	sp := w.SSA[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		t, ok := sp.Members[name[:i]].(*ssa.Type)
		if !ok {
			return nil
		}
		named, ok := t.Type().(*types.Named)
		if !ok {
			return nil
		}
		for k := 0; k < named.NumMethods(); k++ {
			if named.Method(k).Name() == name[i+1:] {
				return w.Prog.FuncValue(named.Method(k))
			}
		}
		return nil
	}
	f, _ := sp.Members[name].(*ssa.Function)
	return f
}

// Type finds a named type of a package.
func (w *World) Type(pkg, name string) *types.Named {
	p := w.ByPath[pkg]
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// need panics (caught and reported as undecided) if an anchor is missing.
func need[T any](v *T, what string) *T {
	if v == nil {
		panic("unresolved anchor: " + what)
	}
	return v
}

func isPkgFunc(f *types.Func, pkg, name string) bool {
	return f != nil && f.Pkg() != nil && f.Pkg().Path() == pkg && f.Name() == name
}

// calleeObj is the types.Func a call resolves to (static or interface method).
func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	if f := c.StaticCallee(); f != nil {
		o, _ := f.Object().(*types.Func)
		return o
	}
	return nil
}

// fileOf returns the syntax file that contains pos.
func (w *World) fileOf(pos token.Pos) *ast.File {
	for _, p := range w.Pkgs {
		for _, f := range p.Syntax {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}

// namedOf strips pointers and returns the named type, if any.
func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

// Kinds are the types of the values ever put into the interface.
func (w *World) Kinds(it *types.Interface) []types.Type {
	if w.madeIface == nil {
		w.madeIface = []types.Type{}
		seen := map[string]bool{}
		for _, f := range w.Funcs {
			instrs(f, func(in ssa.Instruction) {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					k := types.TypeString(mi.X.Type(), nil)
					if !seen[k] {
						seen[k] = true
						w.madeIface = append(w.madeIface, mi.X.Type())
					}
				}
			})
		}
	}
	var out []types.Type
	for _, t := range w.madeIface {
		if types.Implements(t, it) {
			out = append(out, t)
		}
	}
	return out
}
