package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Demand-driven bounds analysis. Integers and lengths are named by access paths
// (canonical over repeated getter calls, type assertions and helper results);
// facts come from the branch conditions that dominate a point; loop variables
// are decided inductively; a goal about parameters becomes a goal at every
// caller, a goal about a call's result a goal at every return, and a goal about
// a struct field a goal at every store to the field.

type tok struct {
	kind byte // 'f' field, 'i' constant index, 'd' dynamic index, 's' slice offset
	name string
	n    int64
	v    ssa.Value
	fv   *types.Var
}

type apath struct {
	root ssa.Value
	sel  []tok
}

type sym struct {
	op byte // 0 constant, 'v' integer at path, 'l' length of the slice or string at path
	p  apath
	k  string // key
}

type bfact struct {
	a, b sym
	c    int64 // a <= b + c
}

type bneq struct {
	a, b sym
	c    int64 // a != b + c
}

type bmod struct {
	s    sym
	off  int64
	m, r int64 // (s + off) % m == r
}

type facts struct {
	le     []bfact
	ne     []bneq
	mod    []bmod
	bool   map[ssa.Value]bool
	nn     map[string]bool // paths known not nil
	isnil  map[string]bool // paths known nil
	nnp    []apath         // the paths of nn
	typ    []tyfact        // values known to be of a type
	nnv    []nnfact        // fields that were not nil when the instruction ran
	contra bool            // the point cannot be reached
}

type nnfact struct {
	k  string
	at ssa.Instruction
}

type tyfact struct {
	p apath
	k string
	t types.Type
}

func (f *facts) join(g *facts) {
	f.le = append(f.le, g.le...)
	f.ne = append(f.ne, g.ne...)
	f.mod = append(f.mod, g.mod...)
	f.nnp = append(f.nnp, g.nnp...)
	f.typ = append(f.typ, g.typ...)
	f.nnv = append(f.nnv, g.nnv...)
	for k, v := range g.bool {
		f.bool[k] = v
	}
	for k := range g.nn {
		f.nn[k] = true
	}
	for k := range g.isnil {
		f.isnil[k] = true
	}
	f.contra = f.contra || g.contra
}

func newFacts() *facts {
	return &facts{bool: map[ssa.Value]bool{}, nn: map[string]bool{}, isnil: map[string]bool{}}
}

func (b *Bnd) setNN(f *facts, p apath) {
	f.nn[b.key(p)] = true
	f.nnp = append(f.nnp, p)
}

type Bnd struct {
	w       *World
	ids     map[ssa.Value]int
	factsC  map[*ssa.BasicBlock]*facts
	memo    map[string]bool
	active  map[string]int64
	steps   int
	pathC   map[ssa.Value]*apath
	pathBsy map[ssa.Value]bool
	retC    map[retKey]*apath
	retBusy map[retKey]bool
	mutF    map[*types.Var]bool // fields assigned other than at construction
	mutP    map[*ssa.Function]map[string]byte
	fstores map[*types.Var][]*ssa.Store
	callers map[*ssa.Function]int
	Why     string
	writers map[*ssa.Function]*wr
	predC   map[predKey]predSum
	fesc    map[*types.Var]bool
	ihops   int
	gmut    map[*ssa.Global]bool
	ctx     []ctxFrame
	trace   bool
	splits  int
}

type retKey struct {
	f *ssa.Function
	i int
}

func NewBnd(w *World) *Bnd {
	b := &Bnd{w: w, ids: map[ssa.Value]int{}, factsC: map[*ssa.BasicBlock]*facts{}, memo: map[string]bool{}, active: map[string]int64{},
		pathC: map[ssa.Value]*apath{}, pathBsy: map[ssa.Value]bool{}, retC: map[retKey]*apath{}, retBusy: map[retKey]bool{},
		mutF: map[*types.Var]bool{}, mutP: map[*ssa.Function]map[string]byte{}, fstores: map[*types.Var][]*ssa.Store{}, callers: map[*ssa.Function]int{},
		writers: map[*ssa.Function]*wr{}, predC: map[predKey]predSum{}}
	for _, f := range w.Funcs {
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			fv := fieldVar(fa.X.Type(), fa.Field)
			if fv == nil {
				return
			}
			b.fstores[fv] = append(b.fstores[fv], st)
			if _, fresh := fa.X.(*ssa.Alloc); !fresh {
				b.mutF[fv] = true
			}
		})
	}
	return b
}

func fieldVar(t types.Type, i int) *types.Var {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || i >= st.NumFields() {
		return nil
	}
	return st.Field(i)
}

func (b *Bnd) id(v ssa.Value) int {
	n, ok := b.ids[v]
	if !ok {
		n = len(b.ids) + 1
		b.ids[v] = n
	}
	return n
}

func (b *Bnd) key(p apath) string {
	var sb strings.Builder
	if p.root != nil {
		fmt.Fprintf(&sb, "%d", b.id(p.root))
	}
	for _, t := range p.sel {
		switch t.kind {
		case 'f':
			sb.WriteString("." + t.name)
		case 'i':
			fmt.Fprintf(&sb, "[%d]", t.n)
		case 'd':
			fmt.Fprintf(&sb, "[#%d+%d]", b.id(t.v), t.n)
		case 's':
			fmt.Fprintf(&sb, "[%d:]", t.n)
		}
	}
	return sb.String()
}

func (b *Bnd) str(p apath) string {
	var sb strings.Builder
	if p.root == nil {
		return "?"
	}
	switch x := p.root.(type) {
	case *ssa.Parameter:
		sb.WriteString(x.Name())
	case *ssa.Call:
		sb.WriteString("result of " + callName(x))
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			sb.WriteString("result of " + callName(c))
		} else {
			sb.WriteString(p.root.Name())
		}
	default:
		sb.WriteString(p.root.Name())
	}
	for _, t := range p.sel {
		switch t.kind {
		case 'f':
			sb.WriteString("." + t.name)
		case 'i':
			fmt.Fprintf(&sb, "[%d]", t.n)
		case 'd':
			fmt.Fprintf(&sb, "[%s]", t.v.Name())
		case 's':
			fmt.Fprintf(&sb, "[%d:]", t.n)
		}
	}
	return sb.String()
}

func (b *Bnd) mk(op byte, p apath) sym {
	return sym{op, p, string(op) + b.key(p)}
}

func (b *Bnd) symStr(s sym, c int64) string {
	t := ""
	switch s.op {
	case 0:
		return fmt.Sprint(c)
	case 'l':
		t = "len(" + b.str(s.p) + ")"
	default:
		t = b.str(s.p)
	}
	if c != 0 {
		t += fmt.Sprintf("%+d", c)
	}
	return t
}

func withTok(p apath, t tok) apath {
	sel := append([]tok{}, p.sel...)
	if n := len(sel); n > 0 && sel[n-1].kind == 's' {
		off := sel[n-1].n
		switch t.kind {
		case 'i', 'd', 's':
			sel = sel[:n-1]
			t.n += off
		}
	}
	return apath{p.root, append(sel, t)}
}

func (b *Bnd) isPartsVar(v *types.Var) bool {
	return v != nil && v.Name() == "Parts" && v.Pkg() != nil && v.Pkg().Path() == pkgAtoms
}

// pathOf names the object or slice a value denotes.
func (b *Bnd) pathOf(v ssa.Value) apath {
	if p, ok := b.pathC[v]; ok {
		return *p
	}
	if b.pathBsy[v] {
		return apath{root: v}
	}
	b.pathBsy[v] = true
	p := b.pathOf1(v)
	delete(b.pathBsy, v)
	b.pathC[v] = &p
	return p
}

func (b *Bnd) pathOf1(v ssa.Value) apath {
	self := apath{root: v}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return b.pathOf(x.X)
	case *ssa.ChangeInterface:
		return b.pathOf(x.X)
	case *ssa.ChangeType:
		return b.pathOf(x.X)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			return b.pathOf(x.X)
		}
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if x.Index == 0 {
				return b.pathOf(t.X)
			}
		case *ssa.Call:
			if p, ok := b.callPath(t, x.Index); ok {
				return p
			}
		}
	case *ssa.Call:
		if r := copiedFrom(&x.Call); r != nil {
			return b.pathOf(r)
		}
		if p, ok := b.callPath(x, 0); ok {
			return p
		}
	case *ssa.Field:
		fv := fieldVar(x.X.Type(), x.Field)
		return withTok(b.pathOf(x.X), tok{kind: 'f', name: fv.Name(), fv: fv})
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return self
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			if b.constGlobal(a) {
				return apath{root: a}
			}
		case *ssa.FieldAddr:
			fv := fieldVar(a.X.Type(), a.Field)
			if fv == nil {
				return self
			}
			base := b.addrPath(a.X)
			p := withTok(base, tok{kind: 'f', name: fv.Name(), fv: fv})
			if b.isPartsVar(fv) {
				if b.unstable(x, p) {
					return self
				}
				return p
			}
			if b.mutF[fv] && !b.localStable(x, fv) {
				return self
			}
			return p
		case *ssa.IndexAddr:
			base := b.pathOf(a.X)
			if b.unstableElem(x, base) {
				return self
			}
			s, c := b.norm(a.Index)
			if s.op == 0 {
				return withTok(base, tok{kind: 'i', n: c})
			}
			if s.op == 'v' && len(s.p.sel) == 0 {
				return withTok(base, tok{kind: 'd', v: s.p.root, n: c})
			}
			return self
		case *ssa.Alloc:
			if sv := singleStore(a); sv != nil {
				return b.pathOf(sv)
			}
		case *ssa.FreeVar:
			if bind := b.binding(a); bind != nil {
				if al, ok := bind.(*ssa.Alloc); ok {
					if sv := singleStore(al); sv != nil {
						return b.pathOf(sv)
					}
				}
			}
		}
	case *ssa.Alloc:
		return self
	case *ssa.Slice:
		if x.High == nil && x.Max == nil {
			if _, isPtr := x.X.Type().Underlying().(*types.Pointer); isPtr {
				return self
			}
			if x.Low == nil {
				return b.pathOf(x.X)
			}
			if c, ok := constInt(x.Low); ok {
				return withTok(b.pathOf(x.X), tok{kind: 's', n: c})
			}
		}
	case *ssa.Phi:
		var first *apath
		k := ""
		for _, e := range x.Edges {
			if e == x {
				continue
			}
			if c, isC := e.(*ssa.Const); isC && c.IsNil() {
				return self
			}
			p := b.pathOf(e)
			if first == nil {
				first, k = &p, b.key(p)
			} else if b.key(p) != k {
				return self
			}
		}
		if first != nil {
			return *first
		}
	case *ssa.Convert:
		if isStringOrBytes(x.X.Type()) && isStringOrBytes(x.Type()) {
			return self
		}
	}
	return self
}

// addrPath is the path of the struct an address points to.
func (b *Bnd) addrPath(v ssa.Value) apath {
	switch x := v.(type) {
	case *ssa.FieldAddr: // embedded struct value
		fv := fieldVar(x.X.Type(), x.Field)
		return withTok(b.addrPath(x.X), tok{kind: 'f', name: fv.Name(), fv: fv})
	case *ssa.IndexAddr:
		base := b.pathOf(x.X)
		s, c := b.norm(x.Index)
		if s.op == 0 {
			return withTok(base, tok{kind: 'i', n: c})
		}
		if s.op == 'v' && len(s.p.sel) == 0 {
			return withTok(base, tok{kind: 'd', v: s.p.root, n: c})
		}
	case *ssa.Alloc:
		if sv := singleStore(x); sv != nil {
			return b.pathOf(sv)
		}
	}
	return b.pathOf(v)
}

func singleStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		for _, r := range *orEmpty(v.Referrers()) {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					if val != nil {
						return false
					}
					val = x.Val
				} else {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				// reads of fields only
				for _, r2 := range *orEmpty(x.Referrers()) {
					if _, isLoad := r2.(*ssa.UnOp); !isLoad {
						return false
					}
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, bd := range x.Bindings {
					if bd == v {
						if !visit(fn.FreeVars[i]) {
							return false
						}
					}
				}
			default:
				return false
			}
		}
		return true
	}
	if !visit(a) {
		return nil
	}
	return val
}

// binding is the value a free variable is bound to, if its closure is made at
// one place.
func (b *Bnd) binding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	var mc *ssa.MakeClosure
	if fn.Parent() == nil {
		return nil
	}
	n := 0
	instrs(fn.Parent(), func(in ssa.Instruction) {
		if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
			mc = m
			n++
		}
	})
	if n != 1 {
		return nil
	}
	for i, f := range fn.FreeVars {
		if f == fv {
			bind := mc.Bindings[i]
			if f2, ok := bind.(*ssa.FreeVar); ok {
				return b.binding(f2)
			}
			return bind
		}
	}
	return nil
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Value)
}

func isStringOrBytes(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		bt, ok := u.Elem().Underlying().(*types.Basic)
		return ok && bt.Kind() == types.Byte
	}
	return false
}

// Structural writes of one function, by the path of the written object.
type wr struct {
	parts []wrote // Parts reassigned (shorter perhaps)
	elems []wrote // elements stored
}

type wrote struct {
	apath
	in  ssa.Instruction
	idx int64 // constant index, or -1
}

func (b *Bnd) writesOf(f *ssa.Function) *wr {
	if w, ok := b.writers[f]; ok {
		return w
	}
	w := &wr{}
	b.writers[f] = w
	instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			switch a := x.Addr.(type) {
			case *ssa.FieldAddr:
				if b.isPartsVar(fieldVar(a.X.Type(), a.Field)) {
					w.parts = append(w.parts, wrote{b.rawPath(a.X), in, -1})
				}
			case *ssa.IndexAddr:
				idx := int64(-1)
				if n, ok := constInt(a.Index); ok {
					idx = n
				}
				w.elems = append(w.elems, wrote{b.rawPath(a.X), in, idx})
			}
		case ssa.CallInstruction:
			c := x.Common()
			if o := calleeObj(c); o != nil && o.Name() == "SetParts" {
				r := c.Value
				if !c.IsInvoke() {
					if len(c.Args) == 0 {
						return
					}
					r = c.Args[0]
				}
				w.parts = append(w.parts, wrote{b.rawPath(r), in, -1})
			}
		}
	})
	return w
}

// rawPath ignores instability (used to name what is written).
func (b *Bnd) rawPath(v ssa.Value) apath { return b.stripRoot(v) }

// stripRoot finds the ultimate root of an object, coarsely.
func (b *Bnd) stripRoot(v ssa.Value) apath {
	seen := map[ssa.Value]bool{}
	for !seen[v] {
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				v = ta.X
				continue
			}
			if c, ok := x.Tuple.(*ssa.Call); ok {
				if p, ok := b.callPath(c, x.Index); ok && len(p.sel) == 0 {
					v = p.root
					continue
				}
			}
			return apath{root: v}
		case *ssa.Call:
			if o := calleeObj(x.Common()); o != nil && (o.Name() == "GetParts") {
				if x.Common().IsInvoke() {
					v = x.Common().Value
				} else {
					v = x.Common().Args[0]
				}
				continue
			}
			if r := copiedFrom(&x.Call); r != nil {
				v = r
				continue
			}
			return apath{root: v}
		case *ssa.UnOp:
			if a, ok := x.X.(*ssa.FieldAddr); ok && b.isPartsVar(fieldVar(a.X.Type(), a.Field)) {
				v = a.X
				continue
			}
			if a, ok := x.X.(*ssa.Alloc); ok {
				if sv := singleStore(a); sv != nil {
					v = sv
					continue
				}
			}
			return apath{root: v}
		default:
			return apath{root: v}
		}
	}
	return apath{root: v}
}

// unstable: the parts slice of this object is reassigned in this function.
func (b *Bnd) unstable(at ssa.Instruction, p apath) bool {
	f := at.Parent()
	if f == nil || len(p.sel) == 0 {
		return false
	}
	w := b.writesOf(f)
	obj := apath{p.root, p.sel[:len(p.sel)-1]}
	for _, q := range w.parts {
		if len(obj.sel) > 0 || q.root == obj.root {
			if (q.root == obj.root || len(q.sel) > 0) && reaches(q.in, at) {
				return true
			}
		}
	}
	return false
}

// unstableElem: elements of this slice are stored in this function.
func (b *Bnd) unstableElem(at ssa.Instruction, base apath) bool {
	f := at.Parent()
	if f == nil {
		return false
	}
	for _, q := range b.writesOf(f).elems {
		if q.root == base.root && reaches(q.in, at) {
			return true
		}
	}
	return false
}

// localStable: a field that is assigned somewhere, read here: stable if neither
// this function nor (conservatively) anything it calls can assign it.
func (b *Bnd) localStable(at ssa.Instruction, fv *types.Var) bool {
	f := at.Parent()
	// fields of expressions are not assigned while an expression is used,
	// except by the function at hand (the ownership properties)
	ofExpr := fv.Pkg() != nil && fv.Pkg().Path() == pkgAtoms
	for _, st := range b.fstores[fv] {
		if _, fresh := st.Addr.(*ssa.FieldAddr).X.(*ssa.Alloc); fresh {
			continue
		}
		g := st.Parent()
		if ofExpr && g != f {
			continue
		}
		if g == f || g == nil {
			return false
		}
		for p := g; p != nil; p = p.Parent() {
			if p == f {
				return false
			}
		}
		if b.mayCall(f, g, map[*ssa.Function]bool{}) {
			return false
		}
	}
	return true
}

func (b *Bnd) mayCall(f, g *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	found := false
	instrs(f, func(in ssa.Instruction) {
		if found {
			return
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			if c.Common().StaticCallee() == nil && !c.Common().IsInvoke() {
				if _, isB := c.Common().Value.(*ssa.Builtin); !isB {
					found = true
					return
				}
			}
			for _, cal := range b.w.Callees(c) {
				if cal == g || b.mayCall(cal, g, seen) {
					found = true
					return
				}
			}
		}
	})
	return found
}

// fieldKey names a field of a struct, whatever it holds at the moment.
func (b *Bnd) fieldKey(fa *ssa.FieldAddr) string {
	fv := fieldVar(fa.X.Type(), fa.Field)
	if fv == nil {
		return ""
	}
	return b.key(withTok(b.addrPath(fa.X), tok{kind: 'f', name: fv.Name(), fv: fv}))
}

// unchanged: no assignment of the field can happen between the two points.
func (b *Bnd) unchanged(from, to ssa.Instruction, fv *types.Var) bool {
	f := from.Parent()
	if f != to.Parent() {
		return false
	}
	if !(from.Block() == to.Block() && instrIndex(from) < instrIndex(to)) && !(from.Block() != to.Block() && from.Block().Dominates(to.Block())) {
		return false
	}
	ok := true
	instrs(f, func(in ssa.Instruction) {
		if !ok || in == from || in == to {
			return
		}
		may := false
		switch x := in.(type) {
		case *ssa.Store:
			fa, is := x.Addr.(*ssa.FieldAddr)
			may = is && fieldVar(fa.X.Type(), fa.Field) == fv
		case ssa.CallInstruction:
			if _, isB := x.Common().Value.(*ssa.Builtin); isB {
				return
			}
			cs := b.w.Callees(x)
			if len(cs) == 0 && x.Common().StaticCallee() == nil && !x.Common().IsInvoke() {
				may = true
			}
			for _, c := range cs {
				for _, st := range b.fstores[fv] {
					if g := st.Parent(); g == c || b.mayCall(c, g, map[*ssa.Function]bool{}) {
						may = true
					}
				}
			}
		}
		if may && reaches(from, in) && reachesAvoiding(in, to, from) {
			ok = false
		}
	})
	return ok
}

// reachesAvoiding: there is a path between two instructions that does not pass
// the third.
func reachesAvoiding(from, to, avoid ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(blk *ssa.BasicBlock, i int) bool
	walk = func(blk *ssa.BasicBlock, i int) bool {
		for ; i < len(blk.Instrs); i++ {
			if blk.Instrs[i] == to {
				return true
			}
			if blk.Instrs[i] == avoid {
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block(), instrIndex(from)+1)
}

// ---- call summaries ----

// retPath is the path of a function's i-th result in terms of its parameters.
func (b *Bnd) retPath(f *ssa.Function, i int) (apath, bool) {
	k := retKey{f, i}
	if p, ok := b.retC[k]; ok {
		if p == nil {
			return apath{}, false
		}
		return *p, true
	}
	if b.retBusy[k] {
		return apath{}, false
	}
	b.retBusy[k] = true
	defer delete(b.retBusy, k)
	var res *apath
	key := ""
	for _, blk := range f.Blocks {
		ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(ret.Results) {
			continue
		}
		r := ret.Results[i]
		if c, isC := r.(*ssa.Const); isC && c.IsNil() {
			continue
		}
		if !refType(r.Type()) {
			b.retC[k] = nil
			return apath{}, false
		}
		p := b.pathOf(r)
		if _, isParam := p.root.(*ssa.Parameter); !isParam {
			b.retC[k] = nil
			return apath{}, false
		}
		for _, t := range p.sel {
			if t.kind == 'd' {
				if _, isP := t.v.(*ssa.Parameter); !isP {
					b.retC[k] = nil
					return apath{}, false
				}
			}
		}
		if res == nil {
			res, key = &p, b.key(p)
		} else if b.key(p) != key {
			b.retC[k] = nil
			return apath{}, false
		}
	}
	b.retC[k] = res
	if res == nil {
		return apath{}, false
	}
	return *res, true
}

func refType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Slice, *types.Signature, *types.Map:
		return true
	}
	return false
}

// callPath is the path a call's result has by its callees' summaries.
func (b *Bnd) callPath(call *ssa.Call, i int) (apath, bool) {
	cs := b.w.Callees(call)
	if len(cs) == 0 {
		return apath{}, false
	}
	var res *apath
	key := ""
	for _, c := range cs {
		p, ok := b.retPath(c, i)
		if !ok {
			return apath{}, false
		}
		q, ok := b.subst(p, call, c)
		if !ok {
			return apath{}, false
		}
		if res == nil {
			res, key = &q, b.key(q)
		} else if key != b.key(q) {
			return apath{}, false
		}
	}
	// instability of parts
	for j, t := range res.sel {
		if t.kind == 'f' && t.name == "Parts" && b.unstable(call, apath{res.root, res.sel[:j+1]}) {
			return apath{}, false
		}
		if (t.kind == 'i' || t.kind == 'd') && b.unstableElem(call, apath{res.root, res.sel[:j]}) {
			return apath{}, false
		}
	}
	return *res, true
}

// argOf is the argument that a call passes for a parameter.
func argOf(call ssa.CallInstruction, f *ssa.Function, idx int) ssa.Value {
	return argFor(call, f, idx)
}

// subst rewrites a callee path over its parameters to the caller.
func (b *Bnd) subst(p apath, call ssa.CallInstruction, callee *ssa.Function) (apath, bool) {
	prm, ok := p.root.(*ssa.Parameter)
	if !ok {
		return apath{}, false
	}
	a := argOf(call, callee, paramIndex(callee, prm))
	if a == nil {
		return apath{}, false
	}
	q := b.pathOf(a)
	for _, t := range p.sel {
		if t.kind == 'd' {
			pp, ok := t.v.(*ssa.Parameter)
			if !ok {
				return apath{}, false
			}
			av := argOf(call, callee, paramIndex(callee, pp))
			if av == nil {
				return apath{}, false
			}
			s, c := b.norm(av)
			switch {
			case s.op == 0:
				t = tok{kind: 'i', n: c + t.n}
			case s.op == 'v' && len(s.p.sel) == 0:
				t = tok{kind: 'd', v: s.p.root, n: c + t.n}
			default:
				return apath{}, false
			}
		}
		q = withTok(q, t)
	}
	return q, true
}

func (b *Bnd) substSym(s sym, call ssa.CallInstruction, callee *ssa.Function) (sym, int64, bool) {
	if s.op == 0 {
		return s, 0, true
	}
	if s.op == 'v' && len(s.p.sel) == 0 {
		prm, ok := s.p.root.(*ssa.Parameter)
		if !ok {
			return s, 0, false
		}
		a := argOf(call, callee, paramIndex(callee, prm))
		if a == nil {
			return s, 0, false
		}
		n, c := b.norm(a)
		return n, c, true
	}
	if s.op == 'l' && len(s.p.sel) == 0 {
		prm, ok := s.p.root.(*ssa.Parameter)
		if !ok {
			return s, 0, false
		}
		a := argOf(call, callee, paramIndex(callee, prm))
		if a == nil {
			return s, 0, false
		}
		n, c := b.lenOf(a)
		return n, c, true
	}
	q, ok := b.subst(s.p, call, callee)
	if !ok {
		return s, 0, false
	}
	if n := len(q.sel); s.op == 'l' && n > 0 && q.sel[n-1].kind == 's' {
		return b.mk('l', apath{q.root, q.sel[:n-1]}), -q.sel[n-1].n, true
	}
	return b.mk(s.op, q), 0, true
}

// ---- integers ----

func isInt(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	return ok && bt.Info()&types.IsInteger != 0
}

// norm writes an integer as symbol + constant.
func (b *Bnd) norm(v ssa.Value) (sym, int64) {
	switch x := v.(type) {
	case *ssa.Const:
		if n, ok := constInt(x); ok {
			return sym{}, n
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.ADD:
			if n, ok := constInt(x.Y); ok {
				s, c := b.norm(x.X)
				return s, c + n
			}
			if n, ok := constInt(x.X); ok {
				s, c := b.norm(x.Y)
				return s, c + n
			}
			if s, c := b.norm(x.Y); s.op == 0 {
				t, d := b.norm(x.X)
				return t, c + d
			}
		case token.SUB:
			if n, ok := constInt(x.Y); ok {
				s, c := b.norm(x.X)
				return s, c - n
			}
			if s, c := b.norm(x.Y); s.op == 0 {
				t, d := b.norm(x.X)
				return t, d - c
			}
		}
	case *ssa.Convert:
		if isInt(x.X.Type()) && isInt(x.Type()) {
			return b.norm(x.X)
		}
	case *ssa.ChangeType:
		return b.norm(x.X)
	case *ssa.Phi:
		if s, c, ok := b.samePhi(x); ok {
			return s, c
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return b.lenOf(x.Call.Args[0])
		}
		if g := x.Call.StaticCallee(); g != nil && g.RelString(nil) == "(*math/big.Int).Int64" {
			// reading the value of an integer expression twice gives the same
			p := b.pathOf(x.Call.Args[0])
			return b.mk('v', withTok(p, tok{kind: 'f', name: "Int64()"})), 0
		}
		if s, c, ok := b.intRet(x); ok {
			return s, c
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			p := b.pathOf(x)
			if p.root != v {
				if len(p.sel) == 0 && isInt(p.root.Type()) {
					return b.norm(p.root)
				}
				return b.mk('v', p), 0
			}
		}
	case *ssa.Field, *ssa.Extract:
		return b.mk('v', b.pathOf(v)), 0
	}
	return b.mk('v', apath{root: v}), 0
}

func (b *Bnd) samePhi(x *ssa.Phi) (sym, int64, bool) {
	for i, e := range x.Edges {
		if e == x {
			continue
		}
		if _, isPhi := e.(*ssa.Phi); isPhi {
			return sym{}, 0, false
		}
		if i > 0 && e != x.Edges[0] {
			return sym{}, 0, false
		}
	}
	if x.Edges[0] == x {
		return sym{}, 0, false
	}
	s, c := b.norm(x.Edges[0])
	return s, c, true
}

// intRet: a call whose integer result is a parameter expression plus a constant.
func (b *Bnd) intRet(call *ssa.Call) (sym, int64, bool) {
	if !isInt(call.Type()) {
		return sym{}, 0, false
	}
	cs := b.w.Callees(call)
	if len(cs) == 0 {
		return sym{}, 0, false
	}
	var rs sym
	var rc int64
	for i, c := range cs {
		k := retKey{c, -1}
		if b.retBusy[k] {
			return sym{}, 0, false
		}
		var s sym
		var n int64
		rets := 0
		b.retBusy[k] = true
		for _, blk := range c.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				s, n = b.norm(ret.Results[0])
				rets++
			}
		}
		delete(b.retBusy, k)
		if rets != 1 {
			return sym{}, 0, false
		}
		if s.op != 0 {
			if _, isP := s.p.root.(*ssa.Parameter); !isP {
				return sym{}, 0, false
			}
		}
		t, d, ok := b.substSym(s, call, c)
		if !ok {
			return sym{}, 0, false
		}
		if i == 0 {
			rs, rc = t, n+d
		} else if rs.k != t.k || rc != n+d {
			return sym{}, 0, false
		}
	}
	return rs, rc, true
}

// lenOf writes the length of a slice or string as symbol + constant.
func (b *Bnd) lenOf(v ssa.Value) (sym, int64) {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return sym{}, 0
		}
		if x.Value.Kind() == constant.String {
			return sym{}, int64(len(constant.StringVal(x.Value)))
		}
	case *ssa.MakeSlice:
		return b.norm(x.Len)
	case *ssa.ChangeType:
		return b.lenOf(x.X)
	case *ssa.Convert:
		if isStringOrBytes(x.X.Type()) && isStringOrBytes(x.Type()) {
			return b.lenOf(x.X)
		}
	case *ssa.Slice:
		lo, loConst := int64(0), true
		if x.Low != nil {
			lo, loConst = constInt(x.Low)
		}
		if x.High != nil {
			if loConst {
				s, c := b.norm(x.High)
				return s, c - lo
			}
			hs, hc := b.norm(x.High)
			ls, lc := b.norm(x.Low)
			if hs.k == ls.k {
				return sym{}, hc - lc
			}
			break
		}
		var s sym
		var c int64
		if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			c = p.Elem().Underlying().(*types.Array).Len()
		} else {
			s, c = b.lenOf(x.X)
		}
		if loConst {
			return s, c - lo
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && extPkg(f) == "slices" && f.Object().Name() == "Clone" {
			return b.lenOf(x.Call.Args[0])
		}
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			s, c := b.lenOf(x.Call.Args[0])
			t, d := b.lenOf(x.Call.Args[1])
			if t.op == 0 {
				return s, c + d
			}
			if s.op == 0 {
				return t, c + d
			}
			return b.mk('l', apath{root: v}), 0
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			s, c := b.lenOf(x.X)
			t, d := b.lenOf(x.Y)
			if t.op == 0 {
				return s, c + d
			}
			if s.op == 0 {
				return t, c + d
			}
		}
	case *ssa.Phi:
		p := b.pathOf(v)
		if p.root == v {
			return b.mk('l', p), 0
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a, ok := x.X.(*ssa.Alloc); ok {
				if sv := singleStore(a); sv != nil {
					return b.lenOf(sv)
				}
			}
			if fv, ok := x.X.(*ssa.FreeVar); ok {
				if al, ok := b.binding(fv).(*ssa.Alloc); ok {
					if sv := singleStore(al); sv != nil {
						return b.lenOf(sv)
					}
				}
			}
		}
	}
	p := b.pathOf(v)
	if n := len(p.sel); n > 0 && p.sel[n-1].kind == 's' {
		return b.mk('l', apath{p.root, p.sel[:n-1]}), -p.sel[n-1].n
	}
	if len(p.sel) == 0 && p.root != v {
		return b.lenOf(p.root)
	}
	return b.mk('l', p), 0
}

// ---- facts ----

func (b *Bnd) factsAt(blk *ssa.BasicBlock) *facts {
	if f, ok := b.factsC[blk]; ok {
		return f
	}
	f := newFacts()
	b.factsC[blk] = f
	b.sortContract(f, blk.Parent())
	for d := blk; d != nil; d = d.Idom() {
		dom := d.Idom()
		if dom == nil {
			break
		}
		b.edgeFacts(f, dom, d)
	}
	return f
}

// edgeFacts adds what holds at d because the branch that ends dom led to it.
func (b *Bnd) edgeFacts(f *facts, dom, d *ssa.BasicBlock) {
	iff, ok := dom.Instrs[len(dom.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	for i, s := range dom.Succs {
		if s == d && len(d.Preds) == 1 && dom.Succs[0] != dom.Succs[1] {
			b.addCond(f, iff.Cond, i == 0, 0)
		}
	}
}

// addCond adds the facts of a condition with a known truth value.
func (b *Bnd) addCond(f *facts, cond ssa.Value, truth bool, depth int) {
	if depth > 6 {
		return
	}
	if old, ok := f.bool[cond]; ok {
		if old != truth {
			f.contra = true
		}
		return
	}
	if cv, ok := cond.(*ssa.Const); ok && cv.Value != nil && constant.BoolVal(cv.Value) != truth {
		f.contra = true
		return
	}
	f.bool[cond] = truth
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			b.addCond(f, x.X, !truth, depth+1)
		}
	case *ssa.Phi:
		// a stored && or ||: exactly one edge may produce this truth value
		var only *ssa.BasicBlock
		var val ssa.Value
		n := 0
		for i, e := range x.Edges {
			if c, isC := e.(*ssa.Const); isC && c.Value != nil && constant.BoolVal(c.Value) != truth {
				continue
			}
			n++
			only, val = x.Block().Preds[i], e
		}
		if n == 1 && !x.Block().Dominates(only) {
			g := b.factsAt(only)
			f.join(g)
			b.edgeFactsTo(f, only, x.Block())
			if _, isC := val.(*ssa.Const); !isC {
				b.addCond(f, val, truth, depth+1)
			}
		}
	case *ssa.BinOp:
		op := x.Op
		if !truth {
			switch op {
			case token.LSS:
				op = token.GEQ
			case token.LEQ:
				op = token.GTR
			case token.GTR:
				op = token.LEQ
			case token.GEQ:
				op = token.LSS
			case token.EQL:
				op = token.NEQ
			case token.NEQ:
				op = token.EQL
			default:
				return
			}
		}
		if isInt(x.X.Type()) {
			if call, ok := x.X.(*ssa.Call); ok {
				if k, isC := constInt(x.Y); isC {
					b.bigRange(f, call, op, k, true)
				}
			} else if call, ok := x.Y.(*ssa.Call); ok {
				if k, isC := constInt(x.X); isC {
					b.bigRange(f, call, mirror(op), k, true)
				}
			}
			if r, ok := x.X.(*ssa.BinOp); ok && r.Op == token.REM {
				m, ok1 := constInt(r.Y)
				k, ok2 := constInt(x.Y)
				if ok1 && ok2 && m > 0 {
					s, off := b.norm(r.X)
					if op == token.EQL {
						f.mod = append(f.mod, bmod{s, off, m, k})
					} else if op == token.NEQ && m == 2 {
						f.mod = append(f.mod, bmod{s, off, 2, 1 - k})
					}
				}
			}
			s, c := b.norm(x.X)
			t, d := b.norm(x.Y)
			le := func(p sym, pc int64, q sym, qc int64) { f.le = append(f.le, bfact{p, q, qc - pc}) }
			switch op {
			case token.LSS:
				le(s, c, t, d-1)
			case token.LEQ:
				le(s, c, t, d)
			case token.GTR:
				le(t, d, s, c-1)
			case token.GEQ:
				le(t, d, s, c)
			case token.EQL:
				le(s, c, t, d)
				le(t, d, s, c)
			case token.NEQ:
				f.ne = append(f.ne, bneq{s, t, d - c})
			}
			return
		}
		if isStringOrBytes(x.X.Type()) && op == token.NEQ {
			if cv, ok := x.Y.(*ssa.Const); ok && cv.Value != nil && constant.StringVal(cv.Value) == "" {
				s, c := b.lenOf(x.X)
				f.le = append(f.le, bfact{sym{}, s, c - 1})
			}
		}
		if isStringOrBytes(x.X.Type()) && op == token.EQL {
			if cv, ok := x.Y.(*ssa.Const); ok && cv.Value != nil {
				n := int64(len(constant.StringVal(cv.Value)))
				s, c := b.lenOf(x.X)
				f.le = append(f.le, bfact{sym{}, s, c - n}, bfact{s, sym{}, n - c})
			}
		}
		if refType(x.X.Type()) {
			nilY := isNilConst(x.Y)
			if nilY && op == token.NEQ {
				b.setNN(f, b.pathOf(x.X))
				if ld, ok := x.X.(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok {
						f.nnv = append(f.nnv, nnfact{b.fieldKey(fa), ld})
					}
				}
			}
			if nilY && op == token.EQL {
				f.isnil[b.key(b.pathOf(x.X))] = true
			}
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			b.addPred(f, call, x.Index, truth)
		}
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && truth && x.Index == 1 {
			b.memberFact(f, lk)
		}
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && truth {
			p := b.pathOf(ta.X)
			f.typ = append(f.typ, tyfact{p, b.key(p), ta.AssertedType})
		}
	case *ssa.Lookup:
		if truth && !x.CommaOk {
			b.memberFact(f, x)
		}
	case *ssa.Call:
		b.addPred(f, x, 0, truth)
		b.bigRange(f, x, token.EQL, 0, truth)
		if truth {
			if callee := x.Call.StaticCallee(); callee != nil && callee.RelString(nil) == "strings.HasPrefix" {
				s, c := b.lenOf(x.Call.Args[0])
				t, d := b.lenOf(x.Call.Args[1])
				f.le = append(f.le, bfact{t, s, c - d})
			}
		}
	}
}

// memberFact: a key found in a fixed package table is one of its constant
// keys, so it is at least as long as the shortest.
func (b *Bnd) memberFact(f *facts, lk *ssa.Lookup) {
	if !isStringOrBytes(lk.Index.Type()) {
		return
	}
	ld, ok := lk.X.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return
	}
	keys := fixedTableKeys(b.w, g)
	if len(keys) == 0 {
		return
	}
	least := int64(len(keys[0]))
	for _, k := range keys {
		least = min(least, int64(len(k)))
	}
	s, c := b.lenOf(lk.Index)
	f.le = append(f.le, bfact{sym{}, s, c - least})
}

var tableKeys = map[*ssa.Global][]string{}

// fixedTableKeys gives the keys of a package-level map of strings that only
// the package initialiser fills, with constants, and that is afterwards only
// looked up, ranged over or measured. It gives nothing for any other map.
func fixedTableKeys(w *World, g *ssa.Global) []string {
	if ks, ok := tableKeys[g]; ok {
		return ks
	}
	tableKeys[g] = nil
	if g.Object() != nil && g.Object().Exported() {
		return nil
	}
	var keys []string
	stores := 0
	for _, fn := range w.Funcs {
		if fn.Pkg != g.Pkg {
			continue
		}
		for _, blk := range fn.Blocks {
			for _, in := range blk.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						mk, ok := x.Val.(*ssa.MakeMap)
						if !ok || x.Addr != ssa.Value(g) || fn.Name() != "init" || fn.Synthetic == "" {
							return nil
						}
						stores++
						for _, r := range *mk.Referrers() {
							switch u := r.(type) {
							case *ssa.MapUpdate:
								c, ok := u.Key.(*ssa.Const)
								if !ok || c.Value == nil || c.Value.Kind() != constant.String || u.Map != ssa.Value(mk) {
									return nil
								}
								keys = append(keys, constant.StringVal(c.Value))
							case *ssa.Store, *ssa.DebugRef:
							default:
								return nil
							}
						}
					case *ssa.UnOp:
						for _, r := range *x.Referrers() {
							switch u := r.(type) {
							case *ssa.Lookup:
								if u.X != ssa.Value(x) {
									return nil
								}
							case *ssa.Range, *ssa.DebugRef:
							case *ssa.Call:
								if bl, ok := u.Call.Value.(*ssa.Builtin); !ok || bl.Name() != "len" {
									return nil
								}
							default:
								return nil
							}
						}
					case *ssa.DebugRef:
					default:
						return nil
					}
				}
			}
		}
	}
	if stores == 1 {
		tableKeys[g] = keys
	}
	return tableKeys[g]
}

// edgeFactsTo adds the condition of the branch from p to s, if p ends in one.
func (b *Bnd) edgeFactsTo(f *facts, p, s *ssa.BasicBlock) {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return
	}
	for i, x := range p.Succs {
		if x == s {
			b.addCond(f, iff.Cond, i == 0, 1)
		}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// ---- proof search ----

// A point is a block, with an optional edge out of it.
type bpoint struct {
	blk *ssa.BasicBlock
	to  *ssa.BasicBlock
	x   *[]bcond
}

// bcond is a condition known to hold where the question came from.
type bcond struct {
	v     ssa.Value
	truth bool
	nn    bool // not about a condition: the value is not nil
}

func (b *Bnd) pf(p bpoint) *facts {
	f := b.factsAt(p.blk)
	if p.to == nil && p.x == nil {
		return f
	}
	g := newFacts()
	g.join(f)
	if p.to != nil {
		b.edgeFactsTo(g, p.blk, p.to)
	}
	if p.x != nil {
		for _, c := range *p.x {
			if c.nn {
				b.setNN(g, b.pathOf(c.v))
				continue
			}
			b.addCond(g, c.v, c.truth, 1)
		}
	}
	return g
}

// LE decides a+ac <= c2+cc at a point.
func (b *Bnd) LE(a sym, ac int64, c sym, cc int64, at *ssa.BasicBlock) bool {
	b.steps = 0
	return b.prove(a, c, cc-ac, bpoint{blk: at}, 0, 0)
}

const maxSteps = 60000

func (b *Bnd) prove(a, c sym, k int64, at bpoint, depth, hops int) bool {
	if a.k == c.k {
		return k >= 0
	}
	if a.op == 0 && c.op == 0 {
		return k >= 0
	}
	b.steps++
	if b.trace {
		fmt.Printf("%*s%s <= %s %+d @%v>%v %s\n", depth+2*b.ihops, "", b.symStr(a, 0), b.symStr(c, 0), k, at.blk, at.to, fname(at.blk.Parent()))
	}
	if depth > 14 || b.steps > maxSteps {
		return false
	}
	// induction hypothesis or useless cycle
	hk := a.k + "<=" + c.k
	if old, ok := b.active["H"+hk]; ok && k >= old {
		return true
	}
	tk := fmt.Sprintf("%s|%d|%p|%p", hk, k, at.blk, at.to)
	if at.x != nil {
		for _, c := range *at.x {
			tk += fmt.Sprintf("|%d%v", b.id(c.v), c.truth)
		}
	}
	if _, ok := b.active["T"+tk]; ok {
		return false
	}
	b.active["T"+tk] = 1
	defer delete(b.active, "T"+tk)

	for _, t := range []sym{a, c} {
		if t.op != 0 && len(t.p.sel) > 0 && isNilConst(t.p.root) {
			return true // there is no such object
		}
	}
	// axioms
	if a.op == 0 && c.op == 'l' {
		if k >= 0 {
			return true
		}
		if k >= -1 && isParts(c.p) {
			return true
		}
		if k >= -1 {
			if call, ok := c.p.root.(*ssa.Call); ok && len(c.p.sel) == 0 {
				if cal := call.Call.StaticCallee(); cal != nil {
					switch cal.RelString(nil) {
					case "strings.Split", "strings.SplitN", "(*big.Int).String":
						return true
					}
				}
			}
		}
	}
	f := b.pf(at)
	if f.contra {
		return true
	}
	// tighten by disequalities
	if hops < 40 {
		for _, n := range f.ne {
			// a <= c + k+1 and a != c + k+1 gives a <= c + k
			if (n.a.k == a.k && n.b.k == c.k && n.c == k+1) || (n.a.k == c.k && n.b.k == a.k && -n.c == k+1) {
				if b.prove(a, c, k+1, at, depth+1, hops+1) {
					return true
				}
			}
		}
	}
	// parity
	for _, m1 := range f.mod {
		if m1.m != 2 || m1.s.k != c.k {
			continue
		}
		// c + off = r mod 2; want a <= c+k: known if a <= c+k+1 and parities differ
		if pa, ok := b.parity(a, f, 0); ok {
			pc := ((m1.r-m1.off)%2 + 2) % 2
			if (pa-(pc+k+1))%2 != 0 && b.prove(a, c, k+1, at, depth+1, hops+1) {
				return true
			}
		}
	}
	for _, t := range f.le {
		if t.a.k == a.k && t.b.k != a.k {
			if t.b.k == c.k && t.c <= k {
				return true
			}
		}
		if t.b.k == c.k && a.op == 0 && t.a.op == 0 && t.c <= k {
			return true
		}
	}
	for _, t := range f.le {
		if t.a.k == a.k && t.b.k != a.k && t.b.k != c.k {
			if b.prove(t.b, c, k-t.c, at, depth+1, hops+1) {
				return true
			}
		}
	}
	if a.op == 0 || c.op == 'l' {
		for _, t := range f.le {
			if t.b.k == c.k && t.a.k != c.k && t.a.k != a.k && t.a.op != 0 {
				if b.prove(a, t.a, k-t.c, at, depth+1, hops+1) {
					return true
				}
			}
		}
	}
	// definitions
	if b.defUpper(a, c, k, at, depth, hops) || b.defLower(a, c, k, at, depth, hops) {
		return true
	}
	if b.inter(a, c, k, at, depth, hops, f) {
		return true
	}
	return b.split(a, c, k, at, depth, hops)
}

// split decides a goal at a join on each way in. The ways back round a loop
// have been through the join before, so they add nothing for values defined
// outside the loop.
func (b *Bnd) split(a, c sym, k int64, at bpoint, depth, hops int) bool {
	blk := at.blk
	for len(blk.Preds) < 2 {
		if blk.Idom() == nil || b.mentions(a, blk) || b.mentions(c, blk) {
			return false
		}
		blk = blk.Idom()
	}
	if b.mentions(a, blk) || b.mentions(c, blk) || b.splits > 4 {
		return false
	}
	b.splits++
	defer func() { b.splits-- }()
	n := 0
	for _, p := range blk.Preds {
		if blk.Dominates(p) {
			continue
		}
		n++
		if !b.prove(a, c, k, bpoint{p, blk, b.carry(at, blk)}, depth+1, hops+1) {
			return false
		}
	}
	return n > 0
}

// carry keeps the conditions known at a point that were decided before a join
// above it.
func (b *Bnd) carry(at bpoint, join *ssa.BasicBlock) *[]bcond {
	var out []bcond
	for v, t := range b.pf(at).bool {
		in, ok := v.(ssa.Instruction)
		if !ok || in.Block() == nil {
			continue
		}
		if in.Block() != join && in.Parent() == join.Parent() && in.Block().Dominates(join) {
			out = append(out, bcond{v: v, truth: t})
		}
	}
	if len(out) == 0 {
		return nil
	}
	sort.Slice(out, func(i, j int) bool { return b.id(out[i].v) < b.id(out[j].v) })
	return &out
}

// carryPhi adds, for one way into a block, what the booleans merged there were.
func (b *Bnd) carryPhi(at bpoint, x *ssa.Phi, edge int) *[]bcond {
	blk := x.Block()
	for _, p := range blk.Preds {
		if blk.Dominates(p) {
			return nil
		}
	}
	if at.blk.Parent() != blk.Parent() || !blk.Dominates(at.blk) {
		return nil
	}
	var out []bcond
	if base := b.carry(at, blk); base != nil {
		out = *base
	}
	fs := b.pf(at)
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t, known := fs.bool[ph]; known {
			out = append(out, bcond{v: ph.Edges[edge], truth: t})
		}
	}
	if len(out) == 0 {
		return nil
	}
	return &out
}

// mentions: the symbol names a value computed in the block.
func (b *Bnd) mentions(s sym, blk *ssa.BasicBlock) bool {
	if s.op == 0 {
		return false
	}
	in := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && i.Block() == blk
	}
	if in(s.p.root) {
		return true
	}
	for _, t := range s.p.sel {
		if t.kind == 'd' && in(t.v) {
			return true
		}
	}
	return false
}

func isParts(p apath) bool {
	n := len(p.sel)
	return n > 0 && p.sel[n-1].kind == 'f' && p.sel[n-1].name == "Parts"
}

func (b *Bnd) parity(a sym, f *facts, depth int) (int64, bool) {
	for _, m := range f.mod {
		if m.s.k == a.k && m.m == 2 {
			return ((m.r-m.off)%2 + 2) % 2, true
		}
	}
	if a.op != 'v' || len(a.p.sel) != 0 || depth > 3 {
		return 0, false
	}
	ph, ok := a.p.root.(*ssa.Phi)
	if !ok {
		return 0, false
	}
	res, have := int64(0), false
	for _, e := range ph.Edges {
		s, c := b.norm(e)
		if s.k == a.k {
			if c%2 != 0 {
				return 0, false
			}
			continue
		}
		var p int64
		if s.op == 0 {
			p = ((c % 2) + 2) % 2
		} else {
			q, ok := b.parity(s, f, depth+1)
			if !ok {
				return 0, false
			}
			p = ((q+c)%2 + 2) % 2
		}
		if have && p != res {
			return 0, false
		}
		res, have = p, true
	}
	return res, have
}

// invariantFor: the symbol does not change while the loop of blk runs.
func (b *Bnd) invariantFor(s sym, blk *ssa.BasicBlock) bool {
	if s.op == 0 {
		return true
	}
	ok := func(v ssa.Value) bool {
		in, isIn := v.(ssa.Instruction)
		if !isIn {
			return true
		}
		if in.Parent() != blk.Parent() {
			return true
		}
		if in.Block() == blk {
			_, isPhi := v.(*ssa.Phi)
			return isPhi == false && false
		}
		return in.Block().Dominates(blk)
	}
	if !ok(s.p.root) {
		return false
	}
	for _, t := range s.p.sel {
		if t.kind == 'd' && !ok(t.v) {
			return false
		}
	}
	return true
}

// defUpper uses how a is defined to bound it from above.
func (b *Bnd) defUpper(a, c sym, k int64, at bpoint, depth, hops int) bool {
	if a.op == 0 {
		return false
	}
	if _, isPhi := a.p.root.(*ssa.Phi); len(a.p.sel) != 0 && !(isPhi && staticSel(a.p.sel)) {
		return false
	}
	switch x := a.p.root.(type) {
	case *ssa.Phi:
		if !b.invariantFor(c, x.Block()) {
			return b.pair(a, c, k, x, depth, hops)
		}
		hk := "H" + a.k + "<=" + c.k
		if _, busy := b.active[hk]; busy {
			return false
		}
		b.active[hk] = k
		defer delete(b.active, hk)
		for i, e := range x.Edges {
			var s sym
			var d int64
			if isNilConst(e) && len(a.p.sel) > 0 {
				continue
			}
			s, d = b.rebase(a.op, e, a.p.sel)
			if !b.prove(s, c, k-d, bpoint{x.Block().Preds[i], x.Block(), b.carryPhi(at, x, i)}, depth+1, hops+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if a.op != 'v' {
			return false
		}
		switch x.Op {
		case token.ADD:
			s, d := b.norm(x.X)
			t, e := b.norm(x.Y)
			if b.prove(t, sym{}, -e, at, depth+1, hops+1) && b.prove(s, c, k-d, at, depth+1, hops+1) {
				return true
			}
			if b.prove(s, sym{}, -d, at, depth+1, hops+1) && b.prove(t, c, k-e, at, depth+1, hops+1) {
				return true
			}
		case token.REM:
			if m, ok := constInt(x.Y); ok && m > 0 && b.prove(sym{}, c, k-(m-1), at, depth+1, hops+1) {
				return true
			}
			// x % n < n for n > 0
			s, d := b.norm(x.Y)
			if b.prove(s, c, k-d+1, at, depth+1, hops+1) && b.prove(sym{}, s, d-1, at, depth+1, hops+1) {
				return true
			}
		case token.SUB:
			// x - y <= c  from  x - c <= y
			xs, xc := b.norm(x.X)
			ys, yc := b.norm(x.Y)
			for _, t := range b.pf(at).le {
				if t.a.op != 'v' || len(t.a.p.sel) != 0 {
					continue
				}
				z, isZ := t.a.p.root.(*ssa.BinOp)
				if !isZ || z.Op != token.SUB {
					continue
				}
				p, pc := b.norm(z.X)
				q, qc := b.norm(z.Y)
				// p+pc - q-qc <= t.b + t.c
				if p.k == xs.k && q.k == c.k && t.b.k == ys.k && xc-pc+qc+t.c-yc <= k {
					return true
				}
			}
			s, d := b.norm(x.Y)
			if xs.k == c.k {
				// x - y <= x + k needs y >= -k
				return b.prove(sym{}, s, d-xc+k, at, depth+1, hops+1)
			}
			if b.prove(sym{}, s, d, at, depth+1, hops+1) {
				t, e := b.norm(x.X)
				return b.prove(t, c, k-e, at, depth+1, hops+1)
			}
		case token.MUL:
			// x*m with x <= y/m + d gives x*m <= y + m*d
			m, ok := constInt(x.Y)
			f := x.X
			if !ok {
				m, ok = constInt(x.X)
				f = x.Y
			}
			if !ok || m <= 0 {
				return false
			}
			s, d := b.norm(f)
			for _, t := range b.pf(at).le {
				if t.a.k != s.k || t.b.op != 'v' || len(t.b.p.sel) != 0 {
					continue
				}
				q, isQ := t.b.p.root.(*ssa.BinOp)
				if !isQ || q.Op != token.QUO {
					continue
				}
				if m2, ok := constInt(q.Y); !ok || m2 != m {
					continue
				}
				y, e := b.norm(q.X)
				if m == 2 {
					if par, ok := b.parity(y, b.pf(at), 0); ok {
						e -= (par + e%2 + 2) % 2
					}
				}
				if b.prove(sym{}, y, e, at, depth+1, hops+1) && b.prove(y, c, k-e-m*(t.c+d), at, depth+1, hops+1) {
					return true
				}
			}
		case token.QUO:
			if m, ok := constInt(x.Y); ok && m >= 1 {
				t, e := b.norm(x.X)
				if b.prove(sym{}, t, e, at, depth+1, hops+1) {
					return b.prove(t, c, k-e, at, depth+1, hops+1)
				}
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "min" {
			for _, arg := range x.Call.Args {
				s, d := b.norm(arg)
				if b.prove(s, c, k-d, at, depth+1, hops+1) {
					return true
				}
			}
		}
		if a.op == 'v' {
			for _, i := range b.leParams(x.Call.StaticCallee()) {
				s, d := b.norm(x.Call.Args[i])
				if b.prove(s, c, k-d, at, depth+1, hops+1) {
					return true
				}
			}
		}
	case *ssa.Extract:
		if n, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 && n.IsString {
			if rg, ok := n.Iter.(*ssa.Range); ok {
				s, d := b.lenOf(rg.X)
				return b.prove(s, c, k-d+1, at, depth+1, hops+1)
			}
		}
	}
	return false
}

// leParams lists the parameters that an integer function's result never exceeds.
func (b *Bnd) leParams(f *ssa.Function) []int {
	if f == nil || len(f.Blocks) == 0 || len(f.Blocks) > 6 || f.Signature.Results().Len() != 1 || !isInt(f.Signature.Results().At(0).Type()) {
		return nil
	}
	var out []int
	for i, p := range f.Params {
		if !isInt(p.Type()) {
			continue
		}
		good := true
		for _, blk := range f.Blocks {
			if ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
				s, c := b.norm(ret.Results[0])
				if !b.local(s, b.mk('v', apath{root: p}), -c, bpoint{blk: blk}) {
					good = false
				}
			}
		}
		if good {
			out = append(out, i)
		}
	}
	return out
}

// local proves without leaving the function.
func (b *Bnd) local(a, c sym, k int64, at bpoint) bool {
	if a.k == c.k {
		return k >= 0
	}
	for _, t := range b.pf(at).le {
		if t.a.k == a.k && t.b.k == c.k && t.c <= k {
			return true
		}
	}
	return false
}

// defLower uses how c is defined to bound it from below.
func (b *Bnd) defLower(a, c sym, k int64, at bpoint, depth, hops int) bool {
	if c.op == 0 {
		return false
	}
	if _, isPhi := c.p.root.(*ssa.Phi); len(c.p.sel) != 0 && !(isPhi && staticSel(c.p.sel)) {
		return false
	}
	switch x := c.p.root.(type) {
	case *ssa.Phi:
		if !b.invariantFor(a, x.Block()) {
			return false
		}
		if c.op == 'l' && len(c.p.sel) == 0 && b.pf(at).nn[b.key(c.p)] && b.lenUnlessNil(a, x, k, depth, hops, map[*ssa.Phi]bool{}) {
			return true
		}
		hk := "H" + a.k + "<=" + c.k
		if _, busy := b.active[hk]; busy {
			return false
		}
		b.active[hk] = k
		defer delete(b.active, hk)
		for i, e := range x.Edges {
			var s sym
			var d int64
			if isNilConst(e) && len(c.p.sel) > 0 {
				continue
			}
			s, d = b.rebase(c.op, e, c.p.sel)
			if !b.prove(a, s, k+d, bpoint{x.Block().Preds[i], x.Block(), b.carryPhi(at, x, i)}, depth+1, hops+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				if c.op != 'l' {
					return false
				}
				for _, arg := range x.Call.Args {
					s, d := b.lenOf(arg)
					if b.prove(a, s, k+d, at, depth+1, hops+1) {
						return true
					}
				}
				// both bounded below by constants
				if a.op == 0 {
					s, d := b.lenOf(x.Call.Args[0])
					t, e := b.lenOf(x.Call.Args[1])
					if b.prove(sym{}, s, d-1, at, depth+1, hops+1) && b.prove(sym{}, t, k+e+1, at, depth+1, hops+1) {
						return true
					}
				}
			case "max":
				for _, arg := range x.Call.Args {
					s, d := b.norm(arg)
					if b.prove(a, s, k+d, at, depth+1, hops+1) {
						return true
					}
				}
			}
			return false
		}
		if cal := x.Call.StaticCallee(); cal != nil && c.op == 'v' {
			switch cal.RelString(nil) {
			case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.IndexRune":
				return b.prove(a, sym{}, k-1, at, depth+1, hops+1)
			}
		}
	case *ssa.BinOp:
		if c.op != 'v' {
			return false
		}
		switch x.Op {
		case token.ADD:
			s, d := b.norm(x.X)
			t, e := b.norm(x.Y)
			if b.prove(sym{}, t, e, at, depth+1, hops+1) && b.prove(a, s, k+d, at, depth+1, hops+1) {
				return true
			}
			if b.prove(sym{}, s, d, at, depth+1, hops+1) && b.prove(a, t, k+e, at, depth+1, hops+1) {
				return true
			}
		case token.SUB:
			// c = x - y; 0 <= x - y + k  iff  y <= x + k
			if a.op == 0 {
				s, d := b.norm(x.X)
				t, e := b.norm(x.Y)
				return b.prove(t, s, k+d-e, at, depth+1, hops+1)
			}
		case token.MUL:
			s, d := b.norm(x.X)
			t, e := b.norm(x.Y)
			if a.op == 0 && k >= 0 {
				return b.prove(sym{}, s, d, at, depth+1, hops+1) && b.prove(sym{}, t, e, at, depth+1, hops+1)
			}
		case token.REM, token.QUO:
			if m, ok := constInt(x.Y); ok && m > 0 && a.op == 0 && k >= 0 {
				s, d := b.norm(x.X)
				return b.prove(sym{}, s, d, at, depth+1, hops+1)
			}
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok && x.Index == 1 && c.op == 'v' {
			return b.prove(a, sym{}, k, at, depth+1, hops+1)
		}
	}
	return false
}

// copiedFrom is the expression a copying method is called on; the copy has the
// same structure (the copy property).
func copiedFrom(c *ssa.CallCommon) ssa.Value {
	o := calleeObj(c)
	if o == nil || (o.Name() != "DeepCopy" && o.Name() != "Copy") {
		return nil
	}
	sig := o.Type().(*types.Signature)
	if sig.Recv() == nil || sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isNamed(sig.Results().At(0).Type(), pkgAPI, "Ex") {
		return nil
	}
	if c.IsInvoke() {
		return c.Value
	}
	return c.Args[0]
}

// reaches: there is a path from one instruction to another of its function.
func reaches(from, to ssa.Instruction) bool {
	if from.Block() == to.Block() && instrIndex(from) < instrIndex(to) {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if s == to.Block() {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block())
}

// elemChanged: some element i of the value's parts is stored in its function.
func (b *Bnd) elemChanged(v ssa.Value, i int64) bool {
	root := b.stripRoot(v).root
	f := root.Parent()
	if f == nil {
		return false
	}
	for _, q := range b.writesOf(f).elems {
		if q.root == root && (q.idx < 0 || q.idx == i) {
			return true
		}
	}
	return false
}

// pair decides a goal between two variables of the same loop inductively.
func (b *Bnd) pair(a, c sym, k int64, x *ssa.Phi, depth, hops int) bool {
	if c.op == 0 || len(c.p.sel) != 0 || len(a.p.sel) != 0 {
		return false
	}
	y, ok := c.p.root.(*ssa.Phi)
	if !ok || y.Block() != x.Block() {
		return false
	}
	hk := "H" + a.k + "<=" + c.k
	if _, busy := b.active[hk]; busy {
		return false
	}
	b.active[hk] = k
	defer delete(b.active, hk)
	for i := range x.Edges {
		s, d := b.rebase(a.op, x.Edges[i], nil)
		t, e := b.rebase(c.op, y.Edges[i], nil)
		if !b.prove(s, t, k+e-d, bpoint{blk: x.Block().Preds[i], to: x.Block()}, depth+1, hops+1) {
			return false
		}
	}
	return true
}

// lenUnlessNil: each value merged into x is nil or long enough.
func (b *Bnd) lenUnlessNil(a sym, x *ssa.Phi, k int64, depth, hops int, seen map[*ssa.Phi]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	if !b.invariantFor(a, x.Block()) {
		return false
	}
	for i, e := range x.Edges {
		if isNilConst(e) {
			continue
		}
		if ph, ok := e.(*ssa.Phi); ok {
			if !b.lenUnlessNil(a, ph, k, depth, hops, seen) {
				return false
			}
			continue
		}
		s, d := b.lenOf(e)
		if !b.prove(a, s, k+d, bpoint{blk: x.Block().Preds[i], to: x.Block()}, depth+1, hops+1) {
			return false
		}
	}
	return true
}

// constGlobal: the package variable is assigned by its initialisation only.
func (b *Bnd) constGlobal(g *ssa.Global) bool {
	if b.gmut == nil {
		b.gmut = map[*ssa.Global]bool{}
		for _, f := range b.w.Funcs {
			instrs(f, func(in ssa.Instruction) {
				for _, op := range in.Operands(nil) {
					gl, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, isU := in.(*ssa.UnOp); isU && u.Op == token.MUL {
						continue
					}
					if st, isSt := in.(*ssa.Store); isSt && st.Addr == gl && f.Synthetic != "" && f.Name() == "init" {
						continue
					}
					b.gmut[gl] = true
				}
			})
		}
	}
	return !b.gmut[g]
}
