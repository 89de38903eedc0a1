package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C21", Title: "No failure is swallowed", Run: runErrors,
		Explain: "Every call in the interpreter's packages that returns an error must have the error looked at: returned, passed on, or compared with nil. Where it is known not to be nil, every way on must end in an outcome that tells: a return of a non-nil error, of false, of nil, of the failure symbol or an unevaluated expression that the other way does not return, or a message. Calls whose error cannot occur (writes to memory buffers and hashes, formatted printing to the terminal) are listed and exempt.",
		Assume:  []string{"Writers in memory (bytes.Buffer, strings.Builder, hash.Hash) never fail, as documented."}})
}

// neverFails: library calls whose error is documented never to occur, or whose
// failure has nobody left to be told.
func neverFails(o *types.Func, c *ssa.CallCommon) bool {
	if o == nil || o.Pkg() == nil {
		return false
	}
	n := o.FullName()
	switch {
	case o.Name() == "GobEncode" && o.Pkg().Path() == "math/big":
		return true
	case o.Name() == "Asset" && strings.HasPrefix(o.Pkg().Path(), modPath):
		return true // tells whether a resource is there
	case strings.HasPrefix(n, "(*bytes.Buffer)."), strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "fmt.Print"):
		return true
	case strings.HasPrefix(n, "(io.Writer).Write"):
		t := c.Value.Type()
		nt, ok := t.(*types.Named)
		return ok && nt.Obj().Pkg() != nil && (nt.Obj().Pkg().Path() == "hash")
	case strings.HasPrefix(n, "fmt.Fprint"):
		return len(c.Args) > 0 && memoryWriter(c.Args[0])
	}
	return false
}

func memoryWriter(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		t := types.TypeString(mi.X.Type(), nil)
		return t == "*bytes.Buffer" || t == "*strings.Builder"
	}
	if ld, ok := v.(*ssa.UnOp); ok {
		if g, ok := ld.X.(*ssa.Global); ok && g.Pkg.Pkg.Path() == "os" {
			return true // the terminal
		}
	}
	return false
}

func runErrors(w *World, r *Report) {
	for _, f := range w.Funcs {
		if !coreFunc(f) || docOnly(w, f, 0) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			c := call.Common()
			res := c.Signature().Results()
			ei := -1
			for i := 0; i < res.Len(); i++ {
				if isErr(res.At(i).Type()) {
					ei = i
				}
			}
			if ei < 0 {
				return
			}
			o := calleeObj(c)
			name := "a function value"
			if o != nil {
				name = o.FullName()
			}
			cons := fname(f) + "|" + name
			if neverFails(o, c) {
				r.count("calls that cannot fail", 1)
				return
			}
			r.count("calls that can fail", 1)
			v, isV := in.(*ssa.Call)
			if !isV {
				// deferred or in a goroutine: nobody can look at the error
				if o != nil && o.Name() == "Close" && readOnlyClose(f, c) {
					r.ok("error", cons, w.At(in), "closing what was only read")
					return
				}
				r.bad("error", cons, w.At(in), "the error of %s is dropped (the call is deferred)", name)
				return
			}
			var ev ssa.Value = v
			if res.Len() > 1 {
				ev = nil
				for _, ref := range *orEmpty(v.Referrers()) {
					if ex, ok := ref.(*ssa.Extract); ok && ex.Index == ei {
						ev = ex
					}
				}
			}
			if ev == nil || !used(ev) {
				if o != nil && o.Name() == "Close" && readOnlyClose(f, c) {
					r.ok("error", cons, w.At(in), "closing what was only read")
					return
				}
				r.bad("error", cons, w.At(in), "the error of %s is dropped", name)
				return
			}
			if why := told(ev, map[ssa.Value]bool{}); why != "" {
				r.bad("error", cons, w.At(in), "the failure of %s is swallowed: %s", name, why)
				return
			}
			r.ok("error", cons, w.At(in), "looked at")
		})
	}
	r.atLeast("calls that can fail", 8)
}

func used(v ssa.Value) bool {
	for _, r := range *orEmpty(v.Referrers()) {
		if _, dbg := r.(*ssa.DebugRef); !dbg {
			return true
		}
	}
	return false
}

// readOnlyClose: the file closed was opened for reading.
func readOnlyClose(f *ssa.Function, c *ssa.CallCommon) bool {
	var v ssa.Value
	if c.IsInvoke() {
		v = c.Value
	} else if len(c.Args) > 0 {
		v = c.Args[0]
	}
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.Extract:
			if cl, ok := x.Tuple.(*ssa.Call); ok {
				o := calleeObj(&cl.Call)
				return o != nil && (o.FullName() == "os.Open" || strings.HasSuffix(o.Name(), "NewReader"))
			}
		case *ssa.Call:
			o := calleeObj(&x.Call)
			return o != nil && strings.HasSuffix(o.Name(), "NewReader")
		}
		return false
	}
}

// told: every use of the error passes it on or decides on it with an outcome.
func told(ev ssa.Value, seen map[ssa.Value]bool) string {
	if seen[ev] {
		return ""
	}
	seen[ev] = true
	good := false
	why := "it is not looked at"
	for _, ref := range *orEmpty(ev.Referrers()) {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Return, *ssa.MapUpdate, *ssa.Send, *ssa.Panic:
			good = true
		case *ssa.Store:
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				// a named result or a captured variable
				for _, r2 := range *orEmpty(al.Referrers()) {
					if ld, ok := r2.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if told(ld, seen) == "" {
							good = true
						}
					}
				}
				continue
			}
			good = true
		case *ssa.Phi, *ssa.ChangeInterface, *ssa.TypeAssert:
			if told(x.(ssa.Value), seen) == "" {
				good = true
			}
		case ssa.CallInstruction:
			if classifies(x, ev, seen) {
				why = "only some kinds of it are looked at"
				continue
			}
			good = true
		case *ssa.BinOp:
			if !isNilConst(x.X) && !isNilConst(x.Y) {
				why = "it is only compared with one particular error"
				continue
			}
			if w := decides(x); w != "" {
				why = w
				// the comparison alone is not an outcome
			} else {
				good = true
			}
		}
	}
	if good {
		return ""
	}
	return why
}

// classifies: the call only tells whether the error is of some kind.
func classifies(call ssa.CallInstruction, ev ssa.Value, seen map[ssa.Value]bool) bool {
	c := call.Common()
	res := c.Signature().Results()
	if res.Len() != 1 {
		return false
	}
	if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return false
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Blocks == nil || f.Pkg != nil && (f.Pkg.Pkg.Path() == "os" || f.Pkg.Pkg.Path() == "errors") {
		return true
	}
	for i, a := range c.Args {
		if a == ev && i < len(f.Params) && told(f.Params[i], seen) != "" {
			return true
		}
	}
	return false
}

// decides: the comparison of an error with nil leads to an outcome that differs.
func decides(cmp *ssa.BinOp) string {
	why := "the comparison with nil has no effect"
	for _, ref := range *orEmpty(cmp.Referrers()) {
		switch x := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			bad := x.Block().Succs[0]
			ok := x.Block().Succs[1]
			if cmp.Op == token.EQL {
				bad, ok = ok, bad
			}
			if outcome(x.Block(), bad, ok) || attempt(x.Block(), bad, ok) {
				return ""
			}
			why = "where it is not nil nothing is done about it"
		case *ssa.Return, *ssa.Phi, *ssa.UnOp, *ssa.Store, ssa.CallInstruction:
			return ""
		}
	}
	return why
}

// outcome: on the failing way something is reported or returned that says so.
func outcome(from, bad, ok *ssa.BasicBlock) bool {
	if len(bad.Preds) > 1 {
		// the failing way goes straight to a join: the values that differ there
		// must tell
		for i, p := range bad.Preds {
			if p != from {
				continue
			}
			for _, in := range bad.Instrs {
				ph, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				if failureValue(ph.Edges[i]) {
					return true
				}
			}
		}
		return bad != ok && failingReturn(bad)
	}
	// the blocks only reached by failing
	for _, b := range from.Parent().Blocks {
		if !bad.Dominates(b) {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				return true
			case ssa.CallInstruction:
				if o := calleeObj(x.Common()); o != nil && (strings.HasPrefix(o.FullName(), "fmt.") || strings.HasPrefix(o.FullName(), "log.") || strings.Contains(o.FullName(), "rint")) {
					return true
				}
			case *ssa.Return:
				if failingReturn(b) {
					return true
				}
			}
		}
		for _, s := range b.Succs {
			if bad.Dominates(s) {
				continue
			}
			for i, p := range s.Preds {
				if p != b {
					continue
				}
				for _, in := range s.Instrs {
					if ph, isPhi := in.(*ssa.Phi); isPhi && failureValue(ph.Edges[i]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// attempt: success returns at once, and failure goes on to something else that
// can end in a failing return.
func attempt(from, bad, ok *ssa.BasicBlock) bool {
	if len(ok.Preds) > 1 {
		return false
	}
	returns := false
	for _, b := range from.Parent().Blocks {
		if !ok.Dominates(b) {
			continue
		}
		if _, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			returns = returns || !failingReturn(b)
		}
		for _, s := range b.Succs {
			if !ok.Dominates(s) {
				return false
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		if seen[b] || ok.Dominates(b) {
			return false
		}
		seen[b] = true
		if failingReturn(b) {
			return true
		}
		for _, s := range b.Succs {
			if reach(s) {
				return true
			}
		}
		return false
	}
	return returns && reach(bad)
}

func failingReturn(b *ssa.BasicBlock) bool {
	ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok {
		return false
	}
	for _, v := range ret.Results {
		if failureValue(v) {
			return true
		}
		if isErr(v.Type()) && !isNilConst(v) {
			return true
		}
	}
	return false
}

// failureValue: false, nil of a pointer or expression, the failure symbol, or an
// expression given back as it came.
func failureValue(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return !isErr(x.Type())
		}
		return x.Value != nil && x.Value.Kind() == constant.Bool && !constant.BoolVal(x.Value)
	case *ssa.MakeInterface:
		if isErr(x.Type()) {
			return true
		}
		return failureValue(x.X)
	case *ssa.ChangeInterface:
		return failureValue(x.X)
	case *ssa.Parameter:
		return true
	case *ssa.Call:
		for _, a := range x.Call.Args {
			if c, ok := a.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && strings.HasSuffix(constant.StringVal(c.Value), "$Failed") {
				return true
			}
		}
	}
	return false
}
