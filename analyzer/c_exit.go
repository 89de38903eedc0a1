package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C38", Title: "No input ends the process", Run: runExit,
		Explain: "Enumerates every call that ends the process (os.Exit, log.Fatal*, log.Panic*, syscall.Exit, runtime.Goexit) and every explicit panic in the interpreter's packages. None may remain except: in code only the documentation and the test tables use; a panic whose value is of a type that a deferred recover of a function on every way to it turns into a result (re-raising only other types); the re-raise in such a recover; the report of a builtin name registered twice, if all registered names are distinct constants; and the panic of a lookup for a missing definition, if on every way to every call of the lookup the key was stored or found before.",
		Assume: []string{
			"Panics raised by library functions or by the runtime are the subject of other properties (C28, C29, C30, C37).",
			"No other goroutine removes a definition between the test and the lookup.",
		}})
}

func exits(o *types.Func) bool {
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() {
	case "os", "syscall":
		return o.Name() == "Exit"
	case "log":
		return strings.HasPrefix(o.Name(), "Fatal") || strings.HasPrefix(o.Name(), "Panic")
	case "runtime":
		return o.Name() == "Goexit"
	}
	return false
}

func runExit(w *World, r *Report) {
	b := NewBnd(w)
	for _, f := range w.Funcs {
		if !coreFunc(f) {
			continue
		}
		r.count("functions", 1)
		doc := docOnly(w, f, 0)
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case ssa.CallInstruction:
				o := calleeObj(x.Common())
				if !exits(o) {
					return
				}
				r.count("process-ending calls", 1)
				cons := fname(f) + "|" + o.FullName()
				switch {
				case doc:
					r.ok("exit", cons, w.At(in), "only reached from the description of builtins")
				case b.duplicateName(in) && distinctNames(w, r):
					r.ok("exit", cons, w.At(in), "only if a builtin is registered twice, and all names are distinct")
				default:
					r.bad("exit", cons, w.At(in), "%s ends the process%s", o.FullName(), reachedFrom(w, f))
				}
			case *ssa.Panic:
				r.count("panics", 1)
				cons := fname(f) + "|panic"
				switch {
				case doc:
					r.ok("panic", cons, w.At(in), "only reached from the description of builtins")
				case reraise(x):
					r.ok("panic", cons, w.At(in), "raises again what was recovered")
				default:
					if why := caught(w, f, x, map[*ssa.Function]bool{}); why == "" {
						r.ok("panic", cons, w.At(in), "recovered on every way")
						return
					} else if why2 := b.missingKey(x); why2 == "" {
						r.ok("panic", cons, w.At(in), "the key is present at every call")
					} else if why2 != "-" {
						r.bad("panic", cons, w.At(in), "%s", why2)
					} else {
						r.bad("panic", cons, w.At(in), "%s", why)
					}
				}
			}
		})
	}
	r.atLeast("functions", 600)
}

func reachedFrom(w *World, f *ssa.Function) string {
	s, seen := "", map[*ssa.Function]bool{}
	for i := 0; i < 4 && !seen[f]; i++ {
		seen[f] = true
		cs := w.callersOf[f]
		if len(cs) == 0 {
			break
		}
		f = cs[0].Parent()
		s += ", called from " + fname(f)
	}
	return s
}

// duplicateName: reached only if a name of a builtin was found in a table.
func (b *Bnd) duplicateName(in ssa.Instruction) bool {
	for v, t := range b.factsAt(in.Block()).bool {
		if !t {
			continue
		}
		var lk *ssa.Lookup
		switch x := v.(type) {
		case *ssa.Extract:
			lk, _ = x.Tuple.(*ssa.Lookup)
		case *ssa.Lookup:
			lk = x
		}
		if lk == nil {
			continue
		}
		var fv *types.Var
		switch k := lk.Index.(type) {
		case *ssa.Field:
			fv = fieldVar(k.X.Type(), k.Field)
		case *ssa.UnOp:
			if fa, ok := k.X.(*ssa.FieldAddr); ok {
				fv = fieldVar(fa.X.Type(), fa.Field)
			}
		}
		if fv != nil && fv == nameField(b.w) {
			return true
		}
	}
	return false
}

func nameField(w *World) *types.Var {
	t := w.Type(modPath+"/expreduce", "Definition")
	if t == nil {
		return nil
	}
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Name" {
			return st.Field(i)
		}
	}
	return nil
}

func distinctNames(w *World, r *Report) bool {
	nf := nameField(w)
	seen := map[string]string{}
	ok := true
	for _, f := range w.Funcs {
		if !coreFunc(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			st, is := in.(*ssa.Store)
			if !is {
				return
			}
			fa, is := st.Addr.(*ssa.FieldAddr)
			if !is || fieldVar(fa.X.Type(), fa.Field) != nf {
				return
			}
			if derivedName(st.Val, nf, 0) {
				return // of a definition that has a name already
			}
			cv, isC := st.Val.(*ssa.Const)
			if !isC || cv.Value == nil {
				r.bad("distinct-names", fname(f), w.At(in), "a builtin is registered under a name that is not a constant")
				ok = false
				return
			}
			n := constant.StringVal(cv.Value)
			r.count("builtin names", 1)
			if at, dup := seen[n]; dup {
				r.bad("distinct-names", n, w.At(in), "builtin %s is registered twice (also at %s): every start of the interpreter ends the process", n, at)
				ok = false
				return
			}
			seen[n] = w.At(in)
		})
	}
	return ok
}

// derivedName: computed from the name of a definition.
func derivedName(v ssa.Value, nf *types.Var, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		return derivedName(x.X, nf, d+1) || derivedName(x.Y, nf, d+1)
	case *ssa.UnOp:
		fa, ok := x.X.(*ssa.FieldAddr)
		return ok && fieldVar(fa.X.Type(), fa.Field) == nf
	case *ssa.Field:
		return fieldVar(x.X.Type(), x.Field) == nf
	}
	return false
}

// reraise: the panic of what recover returned.
func reraise(p *ssa.Panic) bool {
	c, ok := p.X.(*ssa.Call)
	if !ok {
		return false
	}
	bi, ok := c.Call.Value.(*ssa.Builtin)
	return ok && bi.Name() == "recover"
}

// caught returns "" if every way to the function passes a function that
// recovers panics of this type.
func caught(w *World, f *ssa.Function, p *ssa.Panic, seen map[*ssa.Function]bool) string {
	mi, ok := p.X.(*ssa.MakeInterface)
	if !ok {
		return "panics with a value of unknown type"
	}
	if seen[f] {
		return ""
	}
	seen[f] = true
	if catches(f, mi.X.Type()) {
		return ""
	}
	if len(w.addrTaken[f]) > 0 {
		return "may be called as a function value without a recover: " + fname(f)
	}
	if len(w.callersOf[f]) == 0 || f.Signature.Recv() == nil && ast_exported(f) {
		return "panics, and nothing recovers from it on the way from " + fname(f)
	}
	for _, c := range w.callersOf[f] {
		if _, g := c.(*ssa.Go); g {
			return "panics in a goroutine started by " + fname(c.Parent())
		}
		if why := caught(w, c.Parent(), p, seen); why != "" {
			return why
		}
	}
	return ""
}

// catches: the function defers a closure that recovers, before anything else,
// and raises again only values that are not of the type.
func catches(f *ssa.Function, t types.Type) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	found := false
	for _, in := range f.Blocks[0].Instrs {
		if d, ok := in.(*ssa.Defer); ok {
			var g *ssa.Function
			switch v := d.Call.Value.(type) {
			case *ssa.MakeClosure:
				g, _ = v.Fn.(*ssa.Function)
			case *ssa.Function:
				g = v
			}
			if g != nil && recovers(g, t) {
				found = true
			}
			break
		}
		if _, call := in.(*ssa.Call); call {
			return false
		}
	}
	return found
}

func recovers(g *ssa.Function, t types.Type) bool {
	rec, bad := false, false
	instrs(g, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
				rec = true
			} else if exits(calleeObj(&x.Call)) {
				bad = true
			}
		case *ssa.Panic:
			// only where the type assertion to t failed
			ok := false
			for b := in.Block(); b != nil && !ok; b = b.Idom() {
				for _, p := range b.Preds {
					iff, is := p.Instrs[len(p.Instrs)-1].(*ssa.If)
					if !is || len(b.Preds) != 1 {
						continue
					}
					truth := p.Succs[0] == b
					c := iff.Cond
					if u, is := c.(*ssa.UnOp); is {
						c, truth = u.X, !truth
					}
					ex, is := c.(*ssa.Extract)
					if !is || truth {
						continue
					}
					if ta, is := ex.Tuple.(*ssa.TypeAssert); is && types.Identical(ta.AssertedType, t) {
						ok = true
					}
				}
			}
			bad = bad || !ok
		}
	})
	return rec && !bad
}

// missingKey: the panic is raised when a definition is missing; "" if every
// call of the lookup comes after the key was found or stored, "-" if the panic
// is of another kind.
func (b *Bnd) missingKey(p *ssa.Panic) string {
	f := p.Parent()
	var key *ssa.Parameter
	var fails []*ssa.Extract
	for v, t := range b.factsAt(p.Block()).bool {
		if ex, ok := v.(*ssa.Extract); ok && !t {
			fails = append(fails, ex)
		}
	}
	for d := p.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		iff, ok := d.Preds[0].Instrs[len(d.Preds[0].Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if cmp, ok := iff.Cond.(*ssa.BinOp); ok && isErr(cmp.X.Type()) && isNilConst(cmp.Y) && (cmp.Op == token.NEQ) == (d.Preds[0].Succs[0] == d) {
			if ex, ok := cmp.X.(*ssa.Extract); ok {
				fails = append(fails, ex)
			}
		}
	}
	for _, ex := range fails {
		if c, ok := ex.Tuple.(*ssa.Call); ok {
			for _, a := range c.Call.Args {
				if pa, ok := a.(*ssa.Parameter); ok && isStringOrBytes(pa.Type()) {
					key = pa
				}
			}
		}
	}
	if key == nil {
		return "-"
	}
	idx := -1
	for i, q := range f.Params {
		if q == key {
			idx = i
		}
	}
	for _, call := range b.w.callersOf[f] {
		c := call.Common()
		if cv, ok := c.Args[len(c.Args)-1].(*ssa.Const); ok && len(c.Args) == 1 && f.Signature.Recv() == nil && b.tableKey(f, cv) {
			continue
		}
		i := idx
		if c.IsInvoke() {
			i--
		}
		if why := b.keyKnown(call, c.Args[i]); why != "" {
			return why
		}
	}
	return ""
}

// tableKey: the constant is a key of a table that the package fills.
func (b *Bnd) tableKey(f *ssa.Function, cv *ssa.Const) bool {
	if cv.Value == nil || cv.Value.Kind() != constant.String || f.Pkg == nil {
		return false
	}
	ini := f.Pkg.Func("init")
	found := false
	if ini != nil {
		instrs(ini, func(in ssa.Instruction) {
			if mu, ok := in.(*ssa.MapUpdate); ok {
				if k, ok := mu.Key.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == constant.StringVal(cv.Value) {
					found = true
				}
			}
		})
	}
	return found
}

func (b *Bnd) keyKnown(call ssa.CallInstruction, key ssa.Value) string {
	k := b.key(b.pathOf(key))
	same := func(v ssa.Value) bool { return v == key || b.key(b.pathOf(v)) == k }
	// has: a call that tells whether the key is present
	tells := func(v ssa.Value) bool {
		var c *ssa.Call
		switch x := v.(type) {
		case *ssa.Call:
			c = x
		case *ssa.Extract:
			c, _ = x.Tuple.(*ssa.Call)
			if c != nil && x.Index != c.Call.Signature().Results().Len()-1 {
				return false
			}
		}
		if c == nil {
			return false
		}
		hit := false
		for i, a := range c.Call.Args {
			if same(a) {
				hit = b.isPresence(c, i)
			}
		}
		return hit
	}
	stores := func(in ssa.Instruction) bool {
		c, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		o := calleeObj(&c.Call)
		if o == nil || o.Name() != "Set" {
			return false
		}
		for i, a := range c.Call.Args {
			if i == len(c.Call.Args)-2 && same(a) {
				return true
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(blk *ssa.BasicBlock, upto ssa.Instruction) bool
	back = func(blk *ssa.BasicBlock, upto ssa.Instruction) bool {
		for _, in := range blk.Instrs {
			if in == upto {
				break
			}
			if stores(in) {
				return true
			}
		}
		if upto == nil {
			if seen[blk] {
				return true
			}
			seen[blk] = true
		}
		if len(blk.Preds) == 0 {
			return false
		}
		for _, p := range blk.Preds {
			f := b.pf(bpoint{blk: p, to: blk})
			known := false
			for v, t := range f.bool {
				if t && tells(v) {
					known = true
				}
			}
			if !known && !back(p, nil) {
				return false
			}
		}
		return true
	}
	if back(call.Block(), call) {
		return ""
	}
	return "a definition is looked up at " + b.w.At(call) + " on a way on which it was neither found nor stored, and a missing one panics"
}

// isPresence: the last result of the call is true only if the key is in the
// definition map.
func (b *Bnd) isPresence(c *ssa.Call, arg int) bool {
	o := calleeObj(&c.Call)
	if o == nil {
		return false
	}
	if o.Name() == "Get" && c.Call.IsInvoke() && isNamed(c.Call.Value.Type(), pkgAPI, "DefinitionMap") {
		return true
	}
	for _, g := range b.w.Callees(c) {
		if len(g.Blocks) == 0 {
			return false
		}
		i := arg
		if c.Call.IsInvoke() {
			i++
		}
		if i >= len(g.Params) {
			return false
		}
		for _, blk := range g.Blocks {
			ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			ex, ok := ret.Results[len(ret.Results)-1].(*ssa.Extract)
			if !ok {
				if cv, isC := ret.Results[len(ret.Results)-1].(*ssa.Const); isC && cv.Value != nil && cv.Value.Kind() == constant.Bool && !constant.BoolVal(cv.Value) {
					continue
				}
				return false
			}
			ic, ok := ex.Tuple.(*ssa.Call)
			if !ok || ex.Index != ic.Call.Signature().Results().Len()-1 {
				return false
			}
			hit := false
			for j, a := range ic.Call.Args {
				if a == g.Params[i] {
					hit = b.isPresence(ic, j)
				}
			}
			if !hit {
				return false
			}
		}
	}
	return len(b.w.Callees(c)) > 0
}
