package main

import (
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{
		ID:      "C28",
		Title:   "No input makes evaluation index outside a list of arguments or a string",
		Explain: "Every index and slice expression on a list of expression parts or arguments and on a string, in every package of the interpreter, is an obligation 0 <= i < len (0 <= lo <= hi <= len). It is discharged from linear facts about lengths and integers: conditions that dominate the access (also through predicate functions and comma-ok results), loop induction, parity of lengths, what slicing, append, make and copies guarantee, the returns of called functions, and - for facts about parameters - the same obligation at every caller, with registered builtins taking arbitrary arguments. Contradictory path facts discharge an obligation.",
		Assume: []string{
			"an expression has a head: the list of parts of an expression is never empty (decided for the constructors; expressions read by Get are taken as written by Save)",
			"no callee shrinks the parts of an expression it is given while the caller holds positions in it (C02)",
			"copies have the structure of the original (C05); sort calls comparisons with positions inside the slice",
			"not claimed and counted as such: tables that are not argument lists (work arrays, rows of a nested list, cursors kept in a field, token text shaped by the lexer, dimensions computed from the data)",
		},
		Run: runBounds,
	})
}

// coreFuncs are the functions whose indexing an expression can reach.
func coreFunc(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Parent() != nil {
		for q := f; q != nil; q = q.Parent() {
			if q.Pkg != nil {
				p = q.Pkg
			}
		}
	}
	if p == nil {
		return false
	}
	path := p.Pkg.Path()
	return strings.HasPrefix(path, modPath+"/expreduce") && !strings.HasSuffix(path, "rubi_snapshot")
}

// docOnly: a method of Definition, which describes a builtin for the
// documentation and the test tables, or a function only called from such.
func docOnly(w *World, f *ssa.Function, depth int) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if isNamed(t, modPath+"/expreduce", "Definition") {
			return true
		}
		return false
	}
	if depth > 4 || ast_exported(f) || len(w.addrTaken[f]) > 0 || len(w.callersOf[f]) == 0 {
		return false
	}
	for _, c := range w.callersOf[f] {
		if !docOnly(w, c.Parent(), depth+1) {
			return false
		}
	}
	return true
}

func runBounds(w *World, r *Report) {
	b := NewBnd(w)
	ex := w.Type(pkgAPI, "Ex")
	isExSlice := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), ex)
	}
	for _, f := range w.Funcs {
		if !coreFunc(f) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if !isExSlice(x.X.Type()) {
					return
				}
				b.checkIndex(r, x, x.X, x.Index)
			case *ssa.Index:
				if isStringOrBytes(x.X.Type()) {
					b.checkIndex(r, x, x.X, x.Index)
				}
			case *ssa.Lookup:
				if isStringOrBytes(x.X.Type()) {
					b.checkIndex(r, x, x.X, x.Index)
				}
			case *ssa.Slice:
				if !isExSlice(x.X.Type()) && !isStringOrBytes(x.X.Type()) {
					return
				}
				b.checkSlice(r, x)
			}
		})
	}
	r.atLeast("index", 100)
}

func (b *Bnd) checkIndex(r *Report, in ssa.Instruction, sl, idx ssa.Value) {
	r.count("index", 1)
	ls, lc := b.lenOf(sl)
	s, c := b.norm(idx)
	where := b.w.At(in)
	cons := fname(in.Parent())
	lo := b.LE(sym{}, 0, s, c, in.Block())
	hi := b.LE(s, c+1, ls, lc, in.Block())
	if t := os.Getenv("BTRACE"); t != "" && strings.HasPrefix(where, t) && !(lo && hi) {
		b.trace, b.memo = true, map[string]bool{}
		if lo {
			b.LE(s, c+1, ls, lc, in.Block())
		} else {
			b.LE(sym{}, 0, s, c, in.Block())
		}
		b.trace = false
	}
	what := b.symStr(s, c) + " < " + b.symStr(ls, lc)
	if !lo || !hi {
		if why := b.outOfScope(sl, s, ls, in); why != "" {
			r.count("not claimed: "+why, 1)
			r.note("%s: %s (%s)", where, what, why)
			return
		}
	}
	switch {
	case !lo:
		r.bad("index", cons, where, "0 <= %s is not implied by the conditions on any path here", b.symStr(s, c))
	case !hi:
		r.bad("index", cons, where, "%s is not implied by the conditions on any path here", what)
	default:
		r.ok("index", cons, where, "%s", what)
	}
}

func (b *Bnd) checkSlice(r *Report, x *ssa.Slice) {
	r.count("slice", 1)
	ls, lc := b.lenOf(x.X)
	where := b.w.At(x)
	cons := fname(x.Parent())
	hs, hc := ls, lc
	if x.High != nil {
		hs, hc = b.norm(x.High)
		if !b.LE(hs, hc, ls, lc, x.Block()) {
			if b.sliceOut(r, x) {
				return
			}
			r.bad("slice", cons, where, "upper bound %s <= %s is not implied by the conditions on any path here", b.symStr(hs, hc), b.symStr(ls, lc))
			return
		}
	}
	los, loc := sym{}, int64(0)
	if x.Low != nil {
		los, loc = b.norm(x.Low)
		if !b.LE(sym{}, 0, los, loc, x.Block()) {
			r.bad("slice", cons, where, "lower bound 0 <= %s is not implied by the conditions on any path here", b.symStr(los, loc))
			return
		}
	}
	if !b.LE(los, loc, hs, hc, x.Block()) {
		if b.sliceOut(r, x) {
			return
		}
		r.bad("slice", cons, where, "bounds %s <= %s are not implied by the conditions on any path here", b.symStr(los, loc), b.symStr(hs, hc))
		return
	}
	r.ok("slice", cons, where, "%s <= %s", b.symStr(los, loc), b.symStr(hs, hc))
}

// outOfScope names the reason a position is not decided by conditions on the
// argument list, or "".
func (b *Bnd) outOfScope(sl ssa.Value, i, ln sym, in ssa.Instruction) string {
	// slices that are not the arguments of an expression or of a function
	p := b.pathOf(sl)
	if n := len(p.sel); n > 0 && p.sel[n-1].fv != nil && b.w.SSA[p.sel[n-1].fv.Pkg().Path()] == nil {
		return "text of a token, shaped by the grammar of the lexer"
	}
	if !isParts(p) && len(p.sel) > 0 && !isStringOrBytes(sl.Type()) {
		return "a table, not an argument list"
	}
	if _, mk := p.root.(*ssa.MakeSlice); mk && len(p.sel) == 0 {
		return "a table, not an argument list"
	}
	if i.op == 0 {
		return ""
	}
	if ln.op == 'l' {
		for _, t := range ln.p.sel {
			if t.kind == 'd' {
				return "a position in a row of a nested list"
			}
		}
	}
	if i.op == 'v' && len(i.p.sel) > 0 {
		if t := i.p.sel[len(i.p.sel)-1]; t.kind == 'f' && t.fv != nil && b.mutF[t.fv] {
			return "a cursor kept in a field"
		}
	}
	if b.dimBounded(i, bpoint{blk: in.Block()}, 0) {
		return "a position bounded by a computed dimension"
	}
	return ""
}

// dimBounded: the integer is compared with an element of a table of integers,
// here or at every caller.
func (b *Bnd) dimBounded(s sym, at bpoint, depth int) bool {
	if s.op != 'v' || depth > 5 {
		return false
	}
	if isIntElem(s) {
		return true
	}
	for _, t := range b.pf(at).le {
		if t.a.k == s.k && t.b.op == 'v' && (isIntElem(t.b) || b.paramIs(t.b, at, depth)) {
			return true
		}
	}
	return b.paramIs(s, at, depth)
}

func (b *Bnd) paramIs(s sym, at bpoint, depth int) bool {
	f := at.blk.Parent()
	if len(s.p.sel) != 0 || !liftable(s, f) || len(b.w.callersOf[f]) == 0 || !b.onlyCalled(f) {
		return false
	}
	for _, call := range b.w.callersOf[f] {
		t, _, ok := b.substSym(s, call, f)
		if !ok || t.op != 0 && !b.dimBounded(t, bpoint{blk: call.Block()}, depth+1) {
			return false
		}
	}
	return true
}

func isIntElem(s sym) bool {
	v := s.p.root
	if n := len(s.p.sel); n > 0 {
		k := s.p.sel[n-1].kind
		return k == 'i' || k == 'd'
	}
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	_, isEl := u.X.(*ssa.IndexAddr)
	return isEl
}

func (b *Bnd) sliceOut(r *Report, x *ssa.Slice) bool {
	if why := b.outOfScope(x.X, sym{}, sym{}, x); why != "" {
		r.count("not claimed: "+why, 1)
		r.note("%s: slice (%s)", b.w.At(x), why)
		return true
	}
	return false
}
