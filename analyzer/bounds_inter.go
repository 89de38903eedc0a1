package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Interprocedural steps of the bounds analysis.

const maxHops = 10

// inter carries a goal out of its function: to the callers, to the returns of a
// callee, to the stores of a field or to the places elements of a type come from.
func (b *Bnd) inter(a, c sym, k int64, at bpoint, depth, hops int, f *facts) bool {
	if b.ihops > maxHops {
		return false
	}
	b.ihops++
	defer func() { b.ihops-- }()
	if t, d, ok := b.made(c); ok && b.prove(a, t, k+d, at, depth+1, hops+1) {
		return true
	}
	if t, d, ok := b.callSym(c); ok && b.prove(a, t, k+d, at, depth+1, hops+1) {
		return true
	}
	if b.viaElems(a, c, k) {
		return true
	}
	if b.viaReturns(a, c, k, at) {
		return true
	}
	if b.viaFields(a, c, k, at) {
		return true
	}
	return b.viaCallers(a, c, k, at)
}

// liftable: the symbol only mentions parameters of f.
func liftable(s sym, f *ssa.Function) bool {
	if s.op == 0 {
		return true
	}
	own := func(v ssa.Value) bool {
		p, ok := v.(*ssa.Parameter)
		return ok && p.Parent() == f
	}
	if !own(s.p.root) {
		return false
	}
	for _, t := range s.p.sel {
		if t.kind == 'd' && !own(t.v) {
			return false
		}
	}
	return true
}

// outer: the symbol only mentions values of functions that enclose f.
func outer(s sym, f *ssa.Function) bool {
	if s.op == 0 {
		return true
	}
	in := func(v ssa.Value) bool {
		p := v.Parent()
		return p != nil && p != f && encloses(p, f)
	}
	if !in(s.p.root) {
		return false
	}
	for _, t := range s.p.sel {
		if t.kind == 'd' && !in(t.v) {
			return false
		}
	}
	return true
}

func encloses(p, f *ssa.Function) bool {
	for q := f.Parent(); q != nil; q = q.Parent() {
		if q == p {
			return true
		}
	}
	return false
}

func (b *Bnd) viaCallers(a, c sym, k int64, at bpoint) bool {
	f := at.blk.Parent()
	if f.Parent() != nil && outer(a, f) && outer(c, f) {
		// values of the enclosing function: where the closure is made
		n := 0
		good := true
		instrs(f.Parent(), func(in ssa.Instruction) {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == f {
				n++
				if good && !b.sub(a, c, k, bpoint{blk: m.Block()}) {
					good = false
				}
			}
		})
		return good && n > 0
	}
	if f.Parent() != nil && (liftable(a, f) || outer(a, f)) && (liftable(c, f) || outer(c, f)) && !(liftable(a, f) && liftable(c, f)) {
		// a closure called where it is made, given some of its own arguments
		if !b.onlyCalled(f) || len(b.w.callersOf[f]) == 0 {
			return false
		}
		for _, call := range b.w.callersOf[f] {
			if call.Parent() != f.Parent() {
				return false
			}
			side := func(s sym) (sym, int64, bool) {
				if outer(s, f) {
					return s, 0, true
				}
				return b.substSym(s, call, f)
			}
			a2, da, ok1 := side(a)
			c2, dc, ok2 := side(c)
			if !ok1 || !ok2 || !b.sub(a2, c2, k+dc-da, bpoint{blk: call.Block()}) {
				return false
			}
		}
		return true
	}
	if !liftable(a, f) || !liftable(c, f) {
		return false
	}
	if n := len(b.ctx); n > 0 && b.ctx[n-1].f == f {
		// we came here through this very call
		top := b.ctx[n-1]
		saved := b.ctx
		b.ctx = b.ctx[:n-1]
		r := b.atCaller(a, c, k, top.call, f)
		b.ctx = saved
		return r
	}
	savedCtx := b.ctx
	b.ctx = nil
	defer func() { b.ctx = savedCtx }()
	if f.Signature.Recv() == nil || true {
		if !b.onlyCalled(f) {
			return b.viaFuncValue(f, a, c, k)
		}
	}
	hk := "F" + a.k + "<=" + c.k
	if old, busy := b.active[hk]; busy && k >= old {
		return true // every earlier call satisfied it
	} else if busy {
		return false
	}
	b.active[hk] = k
	defer delete(b.active, hk)
	cs := b.w.callersOf[f]
	if len(cs) == 0 {
		return !ast_exported(f) && f.Parent() == nil
	}
	for _, call := range cs {
		ok := b.atCaller(a, c, k, call, f)
		if !ok {
			return false
		}
	}
	return true
}

func (b *Bnd) atCaller(a, c sym, k int64, call ssa.CallInstruction, f *ssa.Function) bool {
	a2, da, ok1 := b.substSym(a, call, f)
	c2, dc, ok2 := b.substSym(c, call, f)
	if !ok1 || !ok2 {
		return false
	}
	return b.sub(a2, c2, k+dc-da, bpoint{blk: call.Block()})
}

func ast_exported(f *ssa.Function) bool {
	n := f.Name()
	return n != "" && n[0] >= 'A' && n[0] <= 'Z'
}

// onlyCalled: the function is never used as a value except to call it there.
func (b *Bnd) onlyCalled(f *ssa.Function) bool {
	for _, in := range b.w.addrTaken[f] {
		mc, ok := in.(*ssa.MakeClosure)
		if !ok {
			return false
		}
		for _, r := range *orEmpty(mc.Referrers()) {
			if _, dbg := r.(*ssa.DebugRef); dbg {
				continue
			}
			c, ok := r.(ssa.CallInstruction)
			if !ok || c.Common().Value != mc {
				return false
			}
			for _, a := range c.Common().Args {
				if a == mc {
					return false
				}
			}
		}
	}
	return true
}

// viaFuncValue: the goal of a function used as a value. Only comparison
// closures handed to sort, whose parameters are positions of the sorted slice.
func (b *Bnd) viaFuncValue(f *ssa.Function, a, c sym, k int64) bool {
	return false
}

// sub proves a goal at another program point, remembering verdicts; a goal met
// again while it is being decided holds coinductively along call cycles.
func (b *Bnd) sub(a, c sym, k int64, at bpoint) bool {
	key := fmt.Sprintf("%s<=%s+%d@%p>%p", a.k, c.k, k, at.blk, at.to)
	for _, fr := range b.ctx {
		key += fmt.Sprintf("/%p", fr.call)
	}
	if v, ok := b.memo[key]; ok {
		return v
	}
	if _, busy := b.active["S"+key]; busy {
		return true
	}
	b.active["S"+key] = 1
	saved := b.active
	// hypotheses of the outer point do not carry over
	n := map[string]int64{}
	for kk, v := range saved {
		if kk[0] == 'S' || kk[0] == 'F' {
			n[kk] = v
		}
	}
	b.active = n
	r := b.prove(a, c, k, at, 0, 0)
	b.active = saved
	delete(b.active, "S"+key)
	if !r || b.ihops <= 1 {
		b.memo[key] = r
	}
	if !r && b.steps > maxSteps {
		delete(b.memo, key)
	}
	return r
}

// resultOf is the call a path is rooted at, and which result.
func resultOf(v ssa.Value) (*ssa.Call, int, bool) {
	switch x := v.(type) {
	case *ssa.Call:
		if _, bi := x.Call.Value.(*ssa.Builtin); bi {
			return nil, 0, false
		}
		return x, 0, true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return c, x.Index, true
		}
	}
	return nil, 0, false
}

// rebase gives the symbol for rest below a value.
func (b *Bnd) rebase(op byte, v ssa.Value, rest []tok) (sym, int64) {
	if len(rest) == 0 {
		if op == 'l' {
			return b.lenOf(v)
		}
		return b.norm(v)
	}
	p := b.pathOf(v)
	for i, t := range rest {
		if t.kind == 'i' && i == 1 && b.elemChanged(v, t.n) {
			p = apath{root: v, sel: []tok{{kind: 'f', name: "?changed"}}}
		}
		p = withTok(p, t)
	}
	if n := len(p.sel); op == 'l' && n > 0 && p.sel[n-1].kind == 's' {
		return b.mk('l', apath{p.root, p.sel[:n-1]}), -p.sel[n-1].n
	}
	return b.mk(op, p), 0
}

func staticSel(sel []tok) bool {
	for _, t := range sel {
		if t.kind == 'd' {
			return false
		}
	}
	return true
}

// viaReturns: a goal about the result of a call holds if it holds at every
// return of every callee that this point can follow.
func (b *Bnd) viaReturns(a, c sym, k int64, at bpoint) bool {
	var call *ssa.Call
	onA := false
	if c.op != 0 {
		if cl, _, ok := resultOf(c.p.root); ok && staticSel(c.p.sel) {
			call = cl
		}
	}
	if call == nil && a.op != 0 {
		if cl, _, ok := resultOf(a.p.root); ok && staticSel(a.p.sel) {
			call, onA = cl, true
		}
	}
	if call == nil {
		return false
	}
	cs := b.w.Callees(call)
	if len(cs) == 0 {
		return false
	}
	f := b.pf(at)
	for _, callee := range cs {
		if len(callee.Blocks) == 0 {
			return false
		}
		conv := func(s sym, ret *ssa.Return) (sym, int64, bool) {
			if s.op == 0 {
				return s, 0, true
			}
			if cl, i, ok := resultOf(s.p.root); ok && cl == call {
				if i >= len(ret.Results) {
					return s, 0, false
				}
				t, d := b.rebase(s.op, ret.Results[i], s.p.sel)
				return t, d, true
			}
			// the other side must be something the call was given
			for j, prm := range callee.Params {
				arg := argFor(call, callee, j)
				if arg == nil {
					continue
				}
				ap := b.pathOf(arg)
				if rest, ok := pathRest(b, s.p, ap); ok && staticSel(rest) {
					t, d := b.rebase(s.op, prm, rest)
					return t, d, true
				}
			}
			return s, 0, false
		}
		for _, blk := range callee.Blocks {
			ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok {
				continue
			}
			if b.excluded(ret, call, f) {
				continue
			}
			main := c
			if onA {
				main = a
			}
			_, i, _ := resultOf(main.p.root)
			if i < len(ret.Results) && isNilConst(ret.Results[i]) && len(main.p.sel) > 0 {
				continue // a nil object has no parts to index
			}
			s, d, ok1 := conv(a, ret)
			t, e, ok2 := conv(c, ret)
			if !ok1 || !ok2 {
				return false
			}
			b.ctx = append(b.ctx[:len(b.ctx):len(b.ctx)], ctxFrame{call, callee})
			r := b.sub(s, t, k+e-d, bpoint{blk: blk})
			b.ctx = b.ctx[:len(b.ctx)-1]
			if !r {
				return false
			}
		}
	}
	return true
}

// excluded: the caller knows a boolean result of the call that this return does
// not give.
func (b *Bnd) excluded(ret *ssa.Return, call *ssa.Call, f *facts) bool {
	for v, truth := range f.bool {
		cl, i, ok := resultOf(v)
		if !ok || cl != call || i >= len(ret.Results) {
			continue
		}
		if cv, isC := ret.Results[i].(*ssa.Const); isC && cv.Value != nil && cv.Value.Kind() == constant.Bool && constant.BoolVal(cv.Value) != truth {
			return true
		}
	}
	// a result known not nil
	for i, r := range ret.Results {
		if !isNilConst(r) {
			continue
		}
		for _, ref := range *orEmpty(call.Referrers()) {
			ex, ok := ref.(*ssa.Extract)
			if ok && ex.Index == i && f.nn[b.key(b.pathOf(ex))] {
				return true
			}
		}
		if len(ret.Results) == 1 && f.nn[b.key(b.pathOf(call))] {
			return true
		}
	}
	// an error result known nil
	for i, r := range ret.Results {
		for _, ref := range *orEmpty(call.Referrers()) {
			ex, ok := ref.(*ssa.Extract)
			if ok && ex.Index == i && f.isnil[b.key(b.pathOf(ex))] {
				if _, mk := r.(*ssa.MakeInterface); mk {
					return true
				}
				if b.factsAt(ret.Block()).nn[b.key(b.pathOf(r))] {
					return true
				}
				if cl, isCall := r.(*ssa.Call); isCall {
					if g := cl.Call.StaticCallee(); g != nil && (g.RelString(nil) == "errors.New" || g.RelString(nil) == "fmt.Errorf") {
						return true
					}
				}
			}
		}
	}
	return false
}

// pathRest: p is base followed by the returned tokens.
func pathRest(b *Bnd, p, base apath) ([]tok, bool) {
	if p.root != base.root || len(p.sel) < len(base.sel) {
		return nil, false
	}
	if b.key(apath{p.root, p.sel[:len(base.sel)]}) != b.key(base) {
		return nil, false
	}
	return p.sel[len(base.sel):], true
}

// viaFields: a goal about what a struct field holds is an invariant of every
// store to the field.
func (b *Bnd) viaFields(a, c sym, k int64, at bpoint) bool {
	try := func(s sym, other sym, lower bool) bool {
		if s.op == 0 || other.op != 0 {
			return false
		}
		var fv *types.Var
		var rest []tok
		// the last field token other than Parts
		for i := len(s.p.sel) - 1; i >= 0; i-- {
			t := s.p.sel[i]
			if t.kind == 'f' && t.fv != nil && !b.isPartsVar(t.fv) {
				fv, rest = t.fv, s.p.sel[i+1:]
				break
			}
		}
		if fv == nil {
			if u, ok := s.p.root.(*ssa.UnOp); ok && u.Op == token.MUL {
				if fa, ok := u.X.(*ssa.FieldAddr); ok {
					fv, rest = fieldVar(fa.X.Type(), fa.Field), s.p.sel
				}
			}
		}
		if fv == nil || b.isPartsVar(fv) || !staticSel(rest) {
			return false
		}
		if fv.Pkg() == nil || b.w.SSA[fv.Pkg().Path()] == nil {
			return false
		}
		sts := b.fstores[fv]
		if b.trace {
			fmt.Println("  field", fv, len(sts), b.fieldEscapes(fv))
		}
		if len(sts) == 0 || b.fieldEscapes(fv) {
			return false
		}
		if len(rest) == 0 && lower && k < 0 && !b.alwaysSet(fv) {
			return false
		}
		hk := fmt.Sprintf("F.%p%s%v", fv, b.key(apath{nil, rest}), lower)
		kk := k
		if old, busy := b.active[hk]; busy {
			return kk >= old // held at every earlier store
		}
		b.active[hk] = kk
		defer delete(b.active, hk)
		savedCtx := b.ctx
		b.ctx = nil
		defer func() { b.ctx = savedCtx }()
		for _, st := range sts {
			if isNilConst(st.Val) && len(rest) > 0 {
				continue
			}
			t, d := b.rebase(s.op, st.Val, rest)
			if lower {
				if !b.sub(other, t, k+d, bpoint{blk: st.Block()}) {
					return false
				}
			} else if !b.sub(t, other, k-d, bpoint{blk: st.Block()}) {
				return false
			}
		}
		return true
	}
	return try(c, a, true) || try(a, c, false)
}

// fieldEscapes: the address of the field is used other than to load or store.
func (b *Bnd) fieldEscapes(fv *types.Var) bool {
	if b.fesc == nil {
		b.fesc = map[*types.Var]bool{}
		for _, f := range b.w.Funcs {
			instrs(f, func(in ssa.Instruction) {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					return
				}
				v := fieldVar(fa.X.Type(), fa.Field)
				for _, r := range *orEmpty(fa.Referrers()) {
					switch x := r.(type) {
					case *ssa.UnOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.IndexAddr:
					case *ssa.Store:
						if x.Addr != fa {
							b.fesc[v] = true
						}
					default:
						b.fesc[v] = true
					}
				}
			})
		}
	}
	return b.fesc[fv]
}

// alwaysSet: every place that makes the struct stores the field.
func (b *Bnd) alwaysSet(fv *types.Var) bool {
	for _, f := range b.w.Funcs {
		bad := false
		instrs(f, func(in ssa.Instruction) {
			al, ok := in.(*ssa.Alloc)
			if !ok {
				return
			}
			st, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
			if !ok {
				return
			}
			has := false
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == fv {
					has = true
				}
			}
			if !has {
				return
			}
			set := false
			for _, r := range *orEmpty(al.Referrers()) {
				if fa, ok := r.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
					for _, r2 := range *orEmpty(fa.Referrers()) {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == fa {
							set = true
						}
					}
				}
				if s, ok := r.(*ssa.Store); ok && s.Addr == al {
					set = true // a copy of an existing value
				}
				if c, ok := r.(*ssa.Call); ok && len(c.Call.Args) > 0 && c.Call.Args[0] == al && b.setsField(c.Call.StaticCallee(), fv, 0) {
					set = true // by a method that prepares the new value
				}
			}
			if !set && !b.onlyToLibrary(al) {
				bad = true
			}
		})
		if bad {
			return false
		}
	}
	return true
}

// onlyToLibrary: the zero value is only shown to library functions (a
// prototype for registration).
func (b *Bnd) onlyToLibrary(al *ssa.Alloc) bool {
	n := 0
	for _, r := range *orEmpty(al.Referrers()) {
		mi, ok := r.(*ssa.MakeInterface)
		if !ok {
			return false
		}
		for _, r2 := range *orEmpty(mi.Referrers()) {
			c, ok := r2.(*ssa.Call)
			if !ok || c.Call.IsInvoke() || c.Call.StaticCallee() == nil || b.w.inScope[c.Call.StaticCallee()] {
				return false
			}
			n++
		}
	}
	return n > 0
}

// setsField: the function stores the field of its receiver on every path.
func (b *Bnd) setsField(f *ssa.Function, fv *types.Var, depth int) bool {
	if f == nil || len(f.Blocks) == 0 || len(f.Params) == 0 || depth > 3 {
		return false
	}
	set := false
	instrs(f, func(in ssa.Instruction) {
		hit := false
		switch x := in.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			hit = ok && fa.X == f.Params[0] && fieldVar(fa.X.Type(), fa.Field) == fv
		case *ssa.Call:
			hit = len(x.Call.Args) > 0 && x.Call.Args[0] == f.Params[0] && b.setsField(x.Call.StaticCallee(), fv, depth+1)
		}
		if !hit {
			return
		}
		for _, blk := range f.Blocks {
			if _, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && !in.Block().Dominates(blk) {
				return
			}
		}
		set = true
	})
	return set
}

// ---- predicate summaries ----

type predKey struct {
	f     *ssa.Function
	i     int
	truth bool
}

// predFacts are inequalities over the parameters of f that hold whenever its
// i-th (boolean) result has the given truth value.
func (b *Bnd) predFacts(f *ssa.Function, i int, truth bool) predSum {
	k := predKey{f, i, truth}
	if r, ok := b.predC[k]; ok {
		return r
	}
	b.predC[k] = predSum{} // recursion: no facts
	if f == nil || len(f.Blocks) == 0 {
		return predSum{}
	}
	var acc map[string]bfact
	var accT map[string]tyfact
	for _, blk := range f.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		r := ret.Results[i]
		alts := []bpoint{{blk: blk}}
		vals := []ssa.Value{r}
		if ph, isPhi := r.(*ssa.Phi); isPhi && ph.Block() == blk {
			alts, vals = nil, nil
			for j, e := range ph.Edges {
				alts = append(alts, bpoint{blk: blk.Preds[j], to: blk})
				vals = append(vals, e)
			}
		}
		for j, v := range vals {
			if cv, isC := v.(*ssa.Const); isC {
				if cv.Value == nil || constant.BoolVal(cv.Value) != truth {
					continue
				}
			}
			g := b.pf(alts[j])
			if g.contra {
				continue
			}
			h := newFacts()
			h.join(g)
			h.bool = map[ssa.Value]bool{}
			if _, isC := v.(*ssa.Const); !isC {
				b.addCond(h, v, truth, 1)
			}
			cur := map[string]bfact{}
			for _, t := range h.le {
				if !liftable(t.a, f) || !liftable(t.b, f) {
					continue
				}
				kk := t.a.k + "<=" + t.b.k
				if o, ok := cur[kk]; !ok || t.c < o.c {
					cur[kk] = t
				}
			}
			curT := map[string]tyfact{}
			for _, t := range h.typ {
				if liftablePath(t.p, f) {
					curT[t.k+" is "+types.TypeString(t.t, nil)] = t
				}
			}
			for _, p := range h.nnp {
				if liftablePath(p, f) {
					k := b.key(p)
					curT[k+" not nil"] = tyfact{p, k, nil}
				}
			}
			if acc == nil {
				acc, accT = cur, curT
				continue
			}
			for kk, t := range acc {
				o, ok := cur[kk]
				if !ok {
					delete(acc, kk)
				} else if o.c > t.c {
					acc[kk] = o
				}
			}
			for kk := range accT {
				if _, ok := curT[kk]; !ok {
					delete(accT, kk)
				}
			}
		}
	}
	var out predSum
	for _, t := range acc {
		out.le = append(out.le, t)
	}
	for _, t := range accT {
		out.ty = append(out.ty, t)
	}
	sort.Slice(out.le, func(i, j int) bool {
		x, y := out.le[i], out.le[j]
		return x.a.k < y.a.k || x.a.k == y.a.k && (x.b.k < y.b.k || x.b.k == y.b.k && x.c < y.c)
	})
	sort.Slice(out.ty, func(i, j int) bool { return out.ty[i].k < out.ty[j].k })
	b.predC[k] = out
	return out
}

type predSum struct {
	le []bfact
	ty []tyfact // t == nil: not nil
}

func liftablePath(p apath, f *ssa.Function) bool {
	return liftable(sym{op: 'v', p: p}, f)
}

// addPred adds what a call's boolean result says about its arguments.
func (b *Bnd) addPred(f *facts, call *ssa.Call, i int, truth bool) {
	cs := b.w.Callees(call)
	if len(cs) != 1 {
		return
	}
	sum := b.predFacts(cs[0], i, truth)
	for _, t := range sum.ty {
		p, ok := b.subst(t.p, call, cs[0])
		if !ok {
			continue
		}
		if t.t == nil {
			b.setNN(f, p)
			f.nnv = append(f.nnv, nnfact{b.key(p), call})
		} else {
			f.typ = append(f.typ, tyfact{p, b.key(p), t.t})
		}
	}
	for _, t := range sum.le {
		a, da, ok1 := b.substSym(t.a, call, cs[0])
		c, dc, ok2 := b.substSym(t.b, call, cs[0])
		if ok1 && ok2 {
			f.le = append(f.le, bfact{a, c, t.c + dc - da})
		}
	}
}

// sortContract: sort calls Less and Swap with positions below Len.
func (b *Bnd) sortContract(fs *facts, f *ssa.Function) {
	if f.Signature.Recv() == nil || len(f.Params) != 3 || (f.Name() != "Less" && f.Name() != "Swap") {
		return
	}
	if len(b.w.callersOf[f]) > 0 {
		return
	}
	ms := b.w.Prog.MethodSets.MethodSet(f.Signature.Recv().Type())
	sel := ms.Lookup(f.Pkg.Pkg, "Len")
	if sel == nil {
		return
	}
	ln := b.w.Prog.MethodValue(sel)
	if ln == nil || len(ln.Blocks) == 0 {
		return
	}
	for _, p := range f.Params[1:] {
		s, c := b.norm(p)
		fs.le = append(fs.le, bfact{sym{}, s, c})
	}
	n := 0
	for _, blk := range ln.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || len(ret.Results) != 1 {
			continue
		}
		n++
		s, c := b.norm(ret.Results[0])
		if n > 1 || s.op != 'l' || s.p.root != ln.Params[0] || !staticSel(s.p.sel) {
			return
		}
		t := b.mk('l', apath{f.Params[0], s.p.sel})
		for _, p := range f.Params[1:] {
			ps, pc := b.norm(p)
			fs.le = append(fs.le, bfact{ps, t, c - 1 - pc})
		}
	}
}

// made looks through the construction of a value: what a composite literal
// stores in a field or element. It gives a lower bound only, since the object
// may be extended afterwards.
func (b *Bnd) made(s sym) (sym, int64, bool) {
	if s.op == 0 || len(s.p.sel) == 0 || !staticSel(s.p.sel) {
		return s, 0, false
	}
	t := s.p.sel[0]
	rest := s.p.sel[1:]
	switch x := s.p.root.(type) {
	case *ssa.Slice:
		al, ok := x.X.(*ssa.Alloc)
		if !ok || t.kind != 'i' || x.Low != nil {
			return s, 0, false
		}
		if v := arrayElem(al, t.n); v != nil {
			u, d := b.rebase(s.op, v, rest)
			return u, d, true
		}
		return s, 0, false
	case *ssa.MakeSlice:
		src := b.copiedWhole(x)
		if src == nil || t.kind != 'i' {
			return s, 0, false
		}
		u, d := b.rebase(s.op, src, s.p.sel)
		return u, d, true
	}
	if t.kind == 'f' {
		var val ssa.Value
		for _, r := range *orEmpty(s.p.root.Referrers()) {
			fa, ok := r.(*ssa.FieldAddr)
			if !ok || fieldVar(fa.X.Type(), fa.Field) != t.fv {
				continue
			}
			for _, r2 := range *orEmpty(fa.Referrers()) {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
					if val != nil {
						return s, 0, false
					}
					val = st.Val
				}
			}
		}
		if val != nil {
			u, d := b.rebase(s.op, val, rest)
			return u, d, true
		}
	}
	if x, isCall := s.p.root.(*ssa.Call); isCall {
		bi, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "append" || t.kind != 'i' {
			return s, 0, false
		}
		ls, n := b.lenOf(x.Call.Args[0])
		if ls.op != 0 {
			return s, 0, false
		}
		if t.n < n {
			u, d := b.rebase(s.op, x.Call.Args[0], s.p.sel)
			return u, d, true
		}
		u, d := b.rebase(s.op, x.Call.Args[1], append([]tok{{kind: 'i', n: t.n - n}}, rest...))
		return u, d, true
	}
	return s, 0, false
}

// copiedWhole is the slice that is copied into a new slice of the same length,
// which nothing else is stored into by the function that makes it.
func (b *Bnd) copiedWhole(m *ssa.MakeSlice) ssa.Value {
	names := []ssa.Value{m}
	for _, r := range *orEmpty(m.Referrers()) {
		st, ok := r.(*ssa.Store)
		if !ok || st.Val != m {
			continue
		}
		fa, ok := st.Addr.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		// loads of the field after the store, in the same block
		after := false
		for _, in := range st.Block().Instrs {
			if in == st {
				after = true
			} else if st2, ok := in.(*ssa.Store); after && ok {
				if fa2, ok := st2.Addr.(*ssa.FieldAddr); ok && fa2.X == fa.X && fa2.Field == fa.Field {
					break
				}
			} else if ld, ok := in.(*ssa.UnOp); after && ok && ld.Op == token.MUL {
				if fa2, ok := ld.X.(*ssa.FieldAddr); ok && fa2.X == fa.X && fa2.Field == fa.Field {
					names = append(names, ld)
				}
			}
		}
	}
	var src ssa.Value
	for _, n := range names {
		for _, r := range *orEmpty(n.Referrers()) {
			switch x := r.(type) {
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && x.Call.Args[0] == n {
					if src != nil {
						return nil
					}
					src = x.Call.Args[1]
				}
			case *ssa.IndexAddr:
				for _, r2 := range *orEmpty(x.Referrers()) {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == x {
						return nil
					}
				}
			case *ssa.Slice:
				for _, r2 := range *orEmpty(x.Referrers()) {
					if c, ok := r2.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" && c.Call.Args[0] == x {
							return nil
						}
					}
				}
			}
		}
	}
	if src == nil {
		return nil
	}
	a, da := b.lenOf(m)
	c, dc := b.lenOf(src)
	if a.k != c.k || da != dc {
		return nil
	}
	return src
}

// arrayElem is the value a literal stores at a constant index.
func arrayElem(al *ssa.Alloc, n int64) ssa.Value {
	var val ssa.Value
	for _, r := range *orEmpty(al.Referrers()) {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		i, isC := constInt(ia.Index)
		if !isC {
			return nil
		}
		if i != n {
			continue
		}
		for _, r2 := range *orEmpty(ia.Referrers()) {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				if val != nil {
					return nil
				}
				val = st.Val
			}
		}
	}
	return val
}

// ctxFrame: the analysis entered f to look at what this call returns.
type ctxFrame struct {
	call *ssa.Call
	f    *ssa.Function
}

// callSym expresses a length below a call's result over the caller's values.
func (b *Bnd) callSym(s sym) (sym, int64, bool) {
	if s.op == 0 || !staticSel(s.p.sel) {
		return s, 0, false
	}
	call, i, ok := resultOf(s.p.root)
	if !ok {
		return s, 0, false
	}
	cs := b.w.Callees(call)
	if len(cs) != 1 || len(cs[0].Blocks) == 0 {
		return s, 0, false
	}
	f := cs[0]
	var ret *ssa.Return
	for _, blk := range f.Blocks {
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			if ret != nil {
				return s, 0, false
			}
			ret = r
		}
	}
	if ret == nil || i >= len(ret.Results) {
		return s, 0, false
	}
	u, d := b.rebase(s.op, ret.Results[i], s.p.sel)
	for n := 0; n < 6 && !liftable(u, f); n++ {
		v, e, ok := b.made(u)
		if !ok {
			v, e, ok = b.callSym(u)
		}
		if !ok {
			return s, 0, false
		}
		u, d = v, d+e
	}
	if !liftable(u, f) {
		return s, 0, false
	}
	v, e, ok := b.substSym(u, call, f)
	return v, d + e, ok
}

// viaElems: a lower bound on what an element of a []ExpressionInterface holds
// is an invariant of everything put into such slices.
func (b *Bnd) viaElems(a, c sym, k int64) bool {
	if a.op != 0 || c.op == 0 || len(c.p.sel) == 0 {
		return false
	}
	// the last element token of such a slice
	var rest []tok
	if u, ok := c.p.root.(*ssa.UnOp); ok && u.Op == token.MUL && b.exprElem(u.X) {
		rest = c.p.sel
	}
	if rest == nil {
		for i, t := range c.p.sel {
			if t.kind != 'i' && t.kind != 'd' || i == len(c.p.sel)-1 {
				continue
			}
			if b.elemTypeAt(c.p, i) {
				rest = c.p.sel[i+1:]
			}
		}
	}
	if rest == nil || !staticSel(rest) {
		return false
	}
	hk := "E" + b.key(apath{nil, rest})
	if old, busy := b.active["F"+hk]; busy {
		return k >= old
	}
	b.active["F"+hk] = k
	defer delete(b.active, "F"+hk)
	savedCtx := b.ctx
	b.ctx = nil
	defer func() { b.ctx = savedCtx }()
	n := 0
	for _, f := range b.w.Funcs {
		good := true
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok || !good || !b.exprElem(st.Addr) {
				return
			}
			n++
			if isNilConst(st.Val) {
				return
			}
			t, d := b.rebase(c.op, st.Val, rest)
			if !b.sub(a, t, k+d, bpoint{blk: st.Block()}) {
				good = false
			}
		})
		if !good {
			return false
		}
	}
	return n > 0
}

// exprElem: the address is of an element of a slice or array of expressions
// (not of arguments).
func (b *Bnd) exprElem(v ssa.Value) bool {
	ia, ok := v.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	return isNamed(ia.Type().Underlying().(*types.Pointer).Elem(), pkgAPI, "ExpressionInterface")
}

// elemTypeAt: the i-th token of the path selects from a slice of expressions.
func (b *Bnd) elemTypeAt(p apath, i int) bool {
	t := p.root.Type()
	for j := 0; j < i; j++ {
		tk := p.sel[j]
		switch tk.kind {
		case 'f':
			if tk.fv == nil {
				return false
			}
			t = tk.fv.Type()
		case 'i', 'd':
			s, ok := t.Underlying().(*types.Slice)
			if !ok {
				return false
			}
			t = s.Elem()
		}
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), pkgAPI, "ExpressionInterface")
}
