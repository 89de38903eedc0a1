package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership engine. It decides, for a value that is about to be modified in
// place, whether every object the value may denote was created by the code that
// modifies it (or by a copy it asked for), or is handed in by callers that own
// it. Requirements on parameters are propagated to every caller.

// Need is what a modification requires of a value.
type Need int

const (
	NeedNum       Need = iota // *big.X: the number object itself
	NeedAtomNum               // atom: the number objects it holds
	NeedNode                  // Ex: the struct and its parts slice
	NeedDeepNode              // Ex: every expression node of the tree
	NeedDeep                  // Ex: everything including numbers
	NeedSlice                 // []Ex: the backing array
	NeedDeepSlice             // []Ex: backing array and all nested nodes
	NeedDeepNumSl             // []Ex: everything
)

var needNames = []string{"number", "numbers-of-atom", "node", "tree", "tree-and-numbers", "slice", "slice-and-trees", "slice-trees-numbers"}

func (n Need) String() string {
	if n >= needElem {
		return "elements:" + (n - needElem).String()
	}
	return needNames[n]
}

// needElem + n is the need n on every element of a container (a map, or a slice
// of something other than expressions).
const needElem Need = 100

// elemNeed is what a need on an element requires of the slice holding it.
func elemNeed(n Need) (Need, bool) {
	switch n {
	case NeedNode, NeedDeepNode:
		return NeedDeepSlice, true
	case NeedAtomNum, NeedDeep, NeedNum:
		return NeedDeepNumSl, true
	}
	return 0, false
}

// sliceElem is the inverse: what a need on a slice requires of its elements.
func sliceElem(n Need) (Need, bool) {
	switch n {
	case NeedDeepSlice:
		return NeedDeepNode, true
	case NeedDeepNumSl:
		return NeedDeep, true
	}
	return 0, false
}

// partsNeed maps a need on an expression to a need on its parts slice.
func partsNeed(n Need) (Need, bool) {
	switch n {
	case NeedNode:
		return NeedSlice, true
	case NeedDeepNode:
		return NeedDeepSlice, true
	case NeedDeep:
		return NeedDeepNumSl, true
	}
	return 0, false
}

// nodeOfSlice is what a need on a parts slice requires of its expression.
func nodeOfSlice(n Need) Need {
	switch n {
	case NeedDeepSlice:
		return NeedDeepNode
	case NeedDeepNumSl:
		return NeedDeep
	}
	return NeedNode
}

type paramNeed struct {
	Idx  int // parameter index (receiver first); free variables are negative: -1-i
	Need Need
}

type ownResult struct {
	Params map[paramNeed]bool
	Bad    []string // reasons why not owned
}

func (r *ownResult) merge(o ownResult) {
	for k := range o.Params {
		if r.Params == nil {
			r.Params = map[paramNeed]bool{}
		}
		r.Params[k] = true
	}
	if len(r.Bad) == 0 && len(o.Bad) > 0 {
		r.Bad = o.Bad[:1]
	}
}

type ownKey struct {
	v    ssa.Value
	need Need
}

type fieldKey struct {
	t *types.Named
	f int
}

// Own is the engine's state.
type Own struct {
	w      *World
	ex     *types.Interface // expreduceapi.Ex
	exType types.Type
	atoms  map[*types.Named]bool
	fields map[fieldKey][]ssa.Value // stores per (struct type, field)
	retMem map[string]ownResult
	inProg map[string]bool

	callEvents []Event // calls that pass a value on to be modified (filled by Check)
}

func NewOwn(w *World) *Own {
	o := &Own{w: w, atoms: map[*types.Named]bool{}, fields: map[fieldKey][]ssa.Value{}, retMem: map[string]ownResult{}, inProg: map[string]bool{}}
	exN := need(w.Type(pkgAPI, "Ex"), "expreduceapi.Ex")
	o.exType = exN
	o.ex = exN.Underlying().(*types.Interface)
	for _, n := range w.namedRepo {
		if n.Obj().Pkg().Path() == pkgAtoms && !types.IsInterface(n) && types.Implements(types.NewPointer(n), o.ex) {
			o.atoms[n] = true
		}
	}
	for _, f := range w.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						if n := namedOf(fa.X.Type()); n != nil {
							k := fieldKey{n, fa.Field}
							o.fields[k] = append(o.fields[k], st.Val)
						}
					}
				}
			}
		}
	}
	return o
}

func isBig(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "math/big" {
		return false
	}
	switch n.Obj().Name() {
	case "Int", "Rat", "Float":
		return true
	}
	return false
}

func (o *Own) isExSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), o.exType)
}

func (o *Own) isAtomPtr(t types.Type) bool {
	n := namedOf(t)
	return n != nil && o.atoms[n]
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// valueField says whether a field of an atom carries the atom's value (rather
// than a cached hash or an evaluation flag).
func (o *Own) valueField(n *types.Named, idx int) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok || idx >= st.NumFields() {
		return false
	}
	t := st.Field(idx).Type()
	if isBig(t) || o.isExSlice(t) || types.Identical(t, o.exType) {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		return true
	}
	return false
}

func paramIndex(f *ssa.Function, p *ssa.Parameter) int {
	for i, q := range f.Params {
		if q == p {
			return i
		}
	}
	return -1000
}

// Owned decides a need on a value inside its function.
func (o *Own) Owned(v ssa.Value, n Need) ownResult {
	return o.owned(v, n, map[ownKey]bool{})
}

func bad(f string, a ...interface{}) ownResult {
	return ownResult{Bad: []string{fmt.Sprintf(f, a...)}}
}

func (o *Own) owned(v ssa.Value, n Need, seen map[ownKey]bool) ownResult {
	k := ownKey{v, n}
	if seen[k] {
		return ownResult{}
	}
	seen[k] = true
	if n >= needElem {
		if r, done := o.elems(v, n, seen); done {
			return r
		}
	}
	switch x := v.(type) {
	case *ssa.Const:
		return ownResult{}
	case *ssa.Parameter:
		return ownResult{Params: map[paramNeed]bool{{paramIndex(x.Parent(), x), n}: true}}
	case *ssa.FreeVar:
		return o.freeVar(x, n, seen)
	case *ssa.Alloc:
		return o.alloc(x, n, seen)
	case *ssa.MakeInterface:
		return o.owned(x.X, n, seen)
	case *ssa.ChangeInterface:
		return o.owned(x.X, n, seen)
	case *ssa.ChangeType:
		return o.owned(x.X, n, seen)
	case *ssa.TypeAssert:
		return o.owned(x.X, n, seen)
	case *ssa.Phi:
		var r ownResult
		for _, e := range x.Edges {
			r.merge(o.owned(e, n, seen))
		}
		return r
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return o.owned(t.X, n, seen)
		case *ssa.Call:
			return o.call(t, x.Index, n, seen)
		case *ssa.Lookup:
			return o.lookup(t, n, seen)
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
					return o.owned(rg.X, needElem+n, seen)
				}
			}
			return bad("element of a map or string iteration")
		}
		return bad("%s", x.Tuple)
	case *ssa.Call:
		return o.call(x, 0, n, seen)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return o.load(x, n, seen)
		}
		return bad("unary %s", x.Op)
	case *ssa.Field:
		return o.fieldClass(x.X.Type(), x.Field, n, seen)
	case *ssa.Slice:
		return o.sliceExpr(x, n, seen)
	case *ssa.MakeSlice:
		r := ownResult{}
		if en, ok := sliceElem(n); ok {
			r.merge(o.sliceStores(x, en, seen))
		}
		return r
	case *ssa.IndexAddr:
		return bad("address of a slice element")
	case *ssa.Lookup:
		return o.lookup(x, n, seen)
	case *ssa.FieldAddr:
		// address of a number stored by value in a struct: owned if the struct is
		if isBig(x.Type()) {
			return o.owned(x.X, NeedNode, seen)
		}
		return bad("address of a field")
	case *ssa.Global:
		return bad("package variable %s", x.Name())
	}
	return bad("value of kind %T", v)
}

func (o *Own) lookup(x *ssa.Lookup, n Need, seen map[ownKey]bool) ownResult {
	if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
		return o.owned(x.X, needElem+n, seen)
	}
	return bad("element of a string")
}

func (o *Own) freeVar(x *ssa.FreeVar, n Need, seen map[ownKey]bool) ownResult {
	f := x.Parent()
	idx := -1
	for i, fv := range f.FreeVars {
		if fv == x {
			idx = i
		}
	}
	var r ownResult
	found := false
	for _, in := range o.w.addrTaken[f] {
		if mc, ok := in.(*ssa.MakeClosure); ok {
			found = true
			r.merge(o.owned(mc.Bindings[idx], n, seen))
		}
	}
	if !found {
		return bad("captured variable %s", x.Name())
	}
	return r
}

// storesTo collects the values stored directly to an address-taken local.
func storesTo(a ssa.Value) []ssa.Value {
	var out []ssa.Value
	for _, ref := range *orEmpty(a.Referrers()) {
		if st, ok := ref.(*ssa.Store); ok && st.Addr == a {
			out = append(out, st.Val)
		}
	}
	return out
}

// alloc: the object was created here. Its contents must satisfy the need too.
func (o *Own) alloc(x *ssa.Alloc, n Need, seen map[ownKey]bool) ownResult {
	elem := x.Type().Underlying().(*types.Pointer).Elem()
	var r ownResult
	if _, isArr := elem.Underlying().(*types.Array); isArr {
		if en, ok := sliceElem(n); ok {
			r.merge(o.sliceStores(x, en, seen))
		}
		return r
	}
	if isBig(elem) {
		return r
	}
	named := namedOf(elem)
	if named == nil || !o.atoms[named] {
		return r
	}
	// whole-struct copies share the contents with their source
	for _, sv := range storesTo(x) {
		if u, ok := sv.(*ssa.UnOp); ok && u.Op == token.MUL {
			if n != NeedNode || o.hasPartsField(named) {
				r.merge(o.owned(u.X, n, seen))
			}
		}
	}
	for _, ref := range *orEmpty(x.Referrers()) {
		fa, ok := ref.(*ssa.FieldAddr)
		if !ok || fa.X != x {
			continue
		}
		ft := structOf(x.Type()).Field(fa.Field).Type()
		for _, sv := range storesTo(fa) {
			switch {
			case isBig(ft):
				if n == NeedAtomNum || n == NeedDeep {
					r.merge(o.owned(sv, NeedNum, seen))
				}
			case o.isExSlice(ft):
				if sn, ok := partsNeed(n); ok {
					r.merge(o.owned(sv, sn, seen))
				}
			case types.Identical(ft, o.exType):
				if n == NeedAtomNum || n == NeedDeep || n == NeedDeepNode {
					r.merge(o.owned(sv, n, seen))
				}
			}
		}
	}
	return r
}

func (o *Own) hasPartsField(n *types.Named) bool {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if o.isExSlice(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// sliceStores checks the elements stored into a fresh slice or array.
func (o *Own) sliceStores(x ssa.Value, en Need, seen map[ownKey]bool) ownResult {
	var r ownResult
	var visit func(v ssa.Value)
	visited := map[ssa.Value]bool{}
	visit = func(v ssa.Value) {
		if visited[v] {
			return
		}
		visited[v] = true
		for _, ref := range *orEmpty(v.Referrers()) {
			switch y := ref.(type) {
			case *ssa.IndexAddr:
				for _, sv := range storesTo(y) {
					r.merge(o.owned(sv, en, seen))
				}
			case *ssa.Slice:
				visit(y)
			case *ssa.Phi:
				visit(y)
			}
		}
	}
	visit(x)
	return r
}

func (o *Own) sliceExpr(x *ssa.Slice, n Need, seen map[ownKey]bool) ownResult {
	return o.owned(x.X, n, seen)
}

func (o *Own) load(x *ssa.UnOp, n Need, seen map[ownKey]bool) ownResult {
	switch a := x.X.(type) {
	case *ssa.Alloc:
		var r ownResult
		for _, sv := range storesTo(a) {
			r.merge(o.owned(sv, n, seen))
		}
		return r
	case *ssa.FreeVar:
		f := a.Parent()
		idx := -1
		for i, fv := range f.FreeVars {
			if fv == a {
				idx = i
			}
		}
		var r ownResult
		for _, in := range o.w.addrTaken[f] {
			if mc, ok := in.(*ssa.MakeClosure); ok {
				for _, sv := range storesTo(mc.Bindings[idx]) {
					r.merge(o.owned(sv, n, seen))
				}
			}
		}
		for _, sv := range storesTo(a) {
			r.merge(o.owned(sv, n, seen))
		}
		return r
	case *ssa.FieldAddr:
		named := namedOf(a.X.Type())
		if named != nil && o.atoms[named] {
			ft := structOf(a.X.Type()).Field(a.Field).Type()
			switch {
			case isBig(ft):
				return o.owned(a.X, NeedAtomNum, seen)
			case o.isExSlice(ft):
				return o.owned(a.X, nodeOfSlice(n), seen)
			case types.Identical(ft, o.exType):
				if n == NeedAtomNum {
					return o.owned(a.X, NeedAtomNum, seen)
				}
				return o.owned(a.X, NeedDeepNode, seen)
			}
		}
		return o.fieldClass(a.X.Type(), a.Field, n, seen)
	case *ssa.IndexAddr:
		sn, ok := elemNeed(n)
		if !ok {
			return bad("element with need %s", n)
		}
		if !o.isExSlice(a.X.Type()) {
			// a slice of something else, e.g. []*Expression: look at its stores
			return o.otherSliceElem(a.X, n, seen)
		}
		return o.owned(a.X, sn, seen)
	case *ssa.Global:
		return bad("package variable %s", a.Name())
	}
	return bad("load through %T", x.X)
}

func (o *Own) otherSliceElem(s ssa.Value, n Need, seen map[ownKey]bool) ownResult {
	switch s.Type().Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Array:
		return o.owned(s, needElem+n, seen)
	}
	return bad("element of %s", types.TypeString(s.Type(), nil))
}

// elems decides a need on the elements of a container made in this function;
// done is false when the generic rules (parameters, calls, fields, phis) apply.
func (o *Own) elems(v ssa.Value, n Need, seen map[ownKey]bool) (ownResult, bool) {
	en := n - needElem
	switch x := v.(type) {
	case *ssa.MakeMap:
		return o.mapStores(x, en, seen), true
	case *ssa.MakeSlice:
		return o.sliceStores(x, en, seen), true
	case *ssa.Alloc:
		elem := x.Type().Underlying().(*types.Pointer).Elem()
		if _, isArr := elem.Underlying().(*types.Array); isArr {
			return o.sliceStores(x, en, seen), true
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			r := o.owned(x.Call.Args[0], n, seen)
			if len(x.Call.Args) > 1 {
				r.merge(o.owned(x.Call.Args[1], n, seen))
			}
			r.merge(o.sliceStores(x, en, seen))
			return r, true
		}
	}
	return ownResult{}, false
}

func (o *Own) mapStores(m ssa.Value, en Need, seen map[ownKey]bool) ownResult {
	var r ownResult
	visited := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if visited[v] {
			return
		}
		visited[v] = true
		for _, ref := range *orEmpty(v.Referrers()) {
			switch y := ref.(type) {
			case *ssa.MapUpdate:
				if y.Map == v {
					r.merge(o.owned(y.Value, en, seen))
				}
			case *ssa.Phi:
				visit(y)
			case *ssa.ChangeType:
				visit(y)
			case *ssa.MakeClosure, *ssa.Store:
				r.merge(bad("a map that is stored or captured"))
			case ssa.CallInstruction:
				if b, ok := y.Common().Value.(*ssa.Builtin); ok && b.Name() != "append" {
					continue
				}
				r.merge(bad("a map that is passed on"))
			}
		}
	}
	visit(m)
	return r
}

// fieldClass: a value kept in a field of a non-atom struct is owned if every
// value the repository ever stores in that field is owned where it is stored.
func (o *Own) fieldClass(t types.Type, field int, n Need, seen map[ownKey]bool) ownResult {
	named := namedOf(t)
	if named == nil {
		return bad("field of an unnamed struct")
	}
	if p := named.Obj().Pkg().Path(); p == pkgAPI {
		// definitions and rules are handed out to every part of the interpreter
		return bad("field %s of a shared %s", named.Underlying().(*types.Struct).Field(field).Name(), named.Obj().Name())
	}
	if o.w.ByPath[named.Obj().Pkg().Path()] == nil {
		return bad("field of external type %s", named)
	}
	key := fmt.Sprintf("F%s.%d.%d", named, field, n)
	if r, ok := o.retMem[key]; ok {
		return r
	}
	if o.inProg[key] {
		return ownResult{}
	}
	o.inProg[key] = true
	defer delete(o.inProg, key)
	var r ownResult
	st := named.Underlying().(*types.Struct)
	for _, sv := range o.fields[fieldKey{named, field}] {
		sub := o.owned(sv, n, map[ownKey]bool{})
		// a parameter stored in the field: the requirement moves to callers
		if len(sub.Params) > 0 {
			sub = o.closeParams(sv.Parent(), sub)
		}
		for _, b := range sub.Bad {
			r.merge(bad("%s (via field %s.%s)", trimVia(b), named.Obj().Name(), st.Field(field).Name()))
		}
	}
	o.retMem[key] = r
	return r
}

// closeParams resolves requirements on a function's parameters over all its
// callers, so that the result no longer mentions parameters.
func (o *Own) closeParams(f *ssa.Function, r ownResult) ownResult {
	out := ownResult{Bad: r.Bad}
	for pn := range r.Params {
		if b := o.callersOwn(f, pn, map[string]bool{}); len(b) > 0 {
			out.merge(bad("%s", b[0]))
		}
	}
	return out
}

func (o *Own) callersOwn(f *ssa.Function, pn paramNeed, seen map[string]bool) []string {
	key := fmt.Sprintf("%p/%d/%d", f, pn.Idx, pn.Need)
	if seen[key] {
		return nil
	}
	seen[key] = true
	var out []string
	for _, in := range o.w.addrTaken[f] {
		if _, isMC := in.(*ssa.MakeClosure); !isMC || !closureOnlyCalled(in) {
			out = append(out, fmt.Sprintf("a parameter of %s, which is used as a function value", fname(f)))
			break
		}
	}
	for _, call := range o.w.callersOf[f] {
		arg := argFor(call, f, pn.Idx)
		if arg == nil {
			continue
		}
		sub := o.Owned(arg, pn.Need)
		for _, b := range sub.Bad {
			out = append(out, fmt.Sprintf("%s (via %s)", trimVia(b), fname(call.Parent())))
		}
		for q := range sub.Params {
			out = append(out, o.callersOwn(call.Parent(), q, seen)...)
		}
	}
	return out
}

func closureOnlyCalled(in ssa.Instruction) bool {
	mc, ok := in.(*ssa.MakeClosure)
	if !ok {
		return false
	}
	for _, ref := range *orEmpty(mc.Referrers()) {
		c, ok := ref.(ssa.CallInstruction)
		if !ok || c.Common().Value != mc {
			return false
		}
	}
	return true
}

// argFor maps a parameter index of the callee to the argument of a call.
func argFor(call ssa.CallInstruction, f *ssa.Function, idx int) ssa.Value {
	c := call.Common()
	if idx < 0 {
		return nil
	}
	if c.IsInvoke() {
		if idx == 0 {
			return c.Value
		}
		idx--
	}
	if idx < len(c.Args) {
		return c.Args[idx]
	}
	return nil
}

// contract says whether a call's result satisfies a need by the copy contract
// of the Ex interface (verified separately by the copy property).
func (o *Own) copyContract(c *ssa.CallCommon, n Need) (known, ok bool) {
	obj := calleeObj(c)
	if obj == nil {
		return false, false
	}
	name := obj.Name()
	if name != "DeepCopy" && name != "Copy" {
		return false, false
	}
	sig := obj.Type().(*types.Signature)
	if sig.Recv() == nil {
		return false, false
	}
	rt := sig.Recv().Type()
	if !types.Implements(rt, o.ex) {
		return false, false
	}
	if name == "DeepCopy" {
		return true, true
	}
	switch n {
	case NeedNode, NeedDeepNode:
		return true, true
	case NeedAtomNum:
		if named := namedOf(rt); named != nil && !types.IsInterface(named) {
			return false, false // look at the concrete method
		}
		return true, false
	}
	return true, false
}

func (o *Own) call(x *ssa.Call, idx int, n Need, seen map[ownKey]bool) ownResult {
	c := x.Common()
	if known, ok := o.copyContract(c, n); known {
		if ok {
			return ownResult{}
		}
		return bad("a Copy() that shares the numbers")
	}
	if o.isEvalCall(c) {
		return bad("a result of evaluation, which may be shared")
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			r := o.owned(c.Args[0], n, seen)
			if en, ok := sliceElem(n); ok && len(c.Args) > 1 {
				// the appended elements arrive as a slice
				_ = en
				r.merge(o.owned(c.Args[1], n, seen))
			}
			return r
		}
		return bad("builtin %s", b.Name())
	}
	if f := c.StaticCallee(); f != nil && extPkg(f) == "slices" && f.Object().Name() == "Clone" {
		// a new array with the same elements
		if _, ok := sliceElem(n); ok {
			return o.owned(c.Args[0], n, seen)
		}
		return ownResult{}
	}
	if f := c.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "math/big" || c.StaticCallee() != nil && extPkg(c.StaticCallee()) == "math/big" {
		return o.bigCall(c, idx, n, seen)
	}
	callees := o.w.Callees(x)
	if len(callees) == 0 {
		if c.StaticCallee() != nil {
			return bad("result of %s", c.StaticCallee().RelString(nil))
		}
		return bad("result of a dynamic call")
	}
	var r ownResult
	for _, f := range callees {
		if !o.w.inScope[f] {
			r.merge(bad("result of external %s", f.RelString(nil)))
			continue
		}
		sub := o.ret(f, idx, n)
		for _, b := range sub.Bad {
			r.merge(bad("%s (via %s)", trimVia(b), fname(f)))
		}
		for pn := range sub.Params {
			arg := argFor(x, f, pn.Idx)
			if arg == nil {
				r.merge(bad("free variable of %s", fname(f)))
				continue
			}
			r.merge(o.owned(arg, pn.Need, seen))
		}
	}
	return r
}

// isEvalMethod: an implementation of EvalStateInterface.Eval.
func (w *World) isEvalMethod(f *ssa.Function) bool {
	esi := w.Type(pkgAPI, "EvalStateInterface")
	if esi == nil || f.Signature.Recv() == nil || f.Name() != "Eval" {
		return false
	}
	return types.Implements(f.Signature.Recv().Type(), esi.Underlying().(*types.Interface))
}

func (o *Own) isEvalCall(c *ssa.CallCommon) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Eval" && isNamed(c.Value.Type(), pkgAPI, "EvalStateInterface")
	}
	f := c.StaticCallee()
	return f != nil && o.w.isEvalMethod(f)
}

func extPkg(f *ssa.Function) string {
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// ret summarises the idx-th result of a function for a need.
func (o *Own) ret(f *ssa.Function, idx int, n Need) ownResult {
	key := fmt.Sprintf("R%p.%d.%d", f, idx, n)
	if r, ok := o.retMem[key]; ok {
		return r
	}
	if o.inProg[key] {
		return ownResult{}
	}
	o.inProg[key] = true
	defer delete(o.inProg, key)
	var r ownResult
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok && idx < len(ret.Results) {
				r.merge(o.owned(ret.Results[idx], n, map[ownKey]bool{}))
			}
		}
	}
	o.retMem[key] = r
	return r
}

// bigCall: results of math/big functions.
func (o *Own) bigCall(c *ssa.CallCommon, idx int, n Need, seen map[ownKey]bool) ownResult {
	f := c.StaticCallee()
	sig := f.Signature
	if sig.Recv() == nil {
		return ownResult{} // constructors
	}
	if idx >= sig.Results().Len() || !isBig(sig.Results().At(idx).Type()) {
		return bad("result of big.%s", f.Name())
	}
	rt := namedOf(sig.Recv().Type())
	res := namedOf(sig.Results().At(idx).Type())
	if rt == res {
		return o.owned(c.Args[0], NeedNum, seen) // setters return their receiver
	}
	switch f.Name() {
	case "Num", "Denom":
		return o.owned(c.Args[0], NeedNum, seen)
	}
	// Float.Int(z), Float.Rat(z): the argument, or a new number if nil
	for _, a := range c.Args[1:] {
		if namedOf(a.Type()) == res {
			return o.owned(a, NeedNum, seen)
		}
	}
	return ownResult{}
}

// bigMutated lists the operands of a math/big call that the call modifies.
func bigMutated(c *ssa.CallCommon) []ssa.Value {
	f := c.StaticCallee()
	if f == nil || extPkg(f) != "math/big" || f.Signature.Recv() == nil {
		return nil
	}
	rt := f.Signature.Recv().Type()
	if _, isPtr := rt.(*types.Pointer); !isPtr || !isBig(rt) {
		return nil
	}
	var out []ssa.Value
	addArg := func(i int) {
		if i < len(c.Args) {
			if k, isC := c.Args[i].(*ssa.Const); isC && k.IsNil() {
				return
			}
			out = append(out, c.Args[i])
		}
	}
	setter := false
	if res := f.Signature.Results(); res.Len() > 0 && namedOf(res.At(0).Type()) == namedOf(rt) {
		setter = true
	}
	switch f.Name() {
	case "GobDecode", "UnmarshalText", "UnmarshalJSON", "Scan", "Parse", "Set", "SetInt":
		setter = true
	}
	if setter {
		addArg(0)
	}
	switch f.Name() {
	case "GCD":
		addArg(1)
		addArg(2)
	case "DivMod", "QuoRem":
		addArg(3)
	case "Int", "Rat":
		addArg(1)
	case "MantExp":
		addArg(1)
	}
	return out
}

// Event is one in-place modification.
type Event struct {
	Fn     *ssa.Function
	Instr  ssa.Instruction
	Target ssa.Value
	Need   Need
	What   string
}

// Events enumerates in-place modifications in a function.
func (o *Own) Events(f *ssa.Function) []Event {
	var out []Event
	add := func(in ssa.Instruction, v ssa.Value, n Need, what string) {
		out = append(out, Event{f, in, v, n, what})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					named := namedOf(a.X.Type())
					if named != nil && o.atoms[named] && o.valueField(named, a.Field) {
						if _, fresh := a.X.(*ssa.Alloc); fresh {
							continue
						}
						add(in, a.X, NeedNode, "assigns "+named.Obj().Name()+"."+structOf(a.X.Type()).Field(a.Field).Name())
					}
				case *ssa.IndexAddr:
					if o.isExSlice(a.X.Type()) {
						add(in, a.X, NeedSlice, "assigns an element of a part list")
					}
				default:
					// *p = struct value
					if named := namedOf(x.Addr.Type()); named != nil && o.atoms[named] {
						if _, isP := x.Addr.Type().Underlying().(*types.Pointer); isP {
							if namedOf(x.Val.Type()) == named {
								if _, fresh := x.Addr.(*ssa.Alloc); !fresh {
									if _, valIsPtr := x.Val.Type().Underlying().(*types.Pointer); !valIsPtr {
										add(in, x.Addr, NeedNode, "overwrites a "+named.Obj().Name())
									}
								}
							}
						}
					} else if isBig(x.Addr.Type()) && isBig(x.Val.Type()) {
						if _, valIsPtr := x.Val.Type().Underlying().(*types.Pointer); !valIsPtr {
							if _, fresh := x.Addr.(*ssa.Alloc); !fresh {
								add(in, x.Addr, NeedNum, "overwrites a number")
							}
						}
					}
				}
			case ssa.CallInstruction:
				c := x.Common()
				for _, m := range bigMutated(c) {
					add(in, m, NeedNum, "big "+c.StaticCallee().Name())
				}
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy":
						if o.isExSlice(c.Args[0].Type()) {
							add(in, c.Args[0], NeedSlice, "copies into a part list")
						}
					case "append":
						if o.isExSlice(c.Args[0].Type()) && o.appendClobbers(x) {
							add(in, c.Args[0], NeedSlice, "appends to a part list")
						}
					}
				}
				if fn := c.StaticCallee(); fn != nil {
					switch extPkg(fn) + "." + fn.Name() {
					case "sort.Sort", "sort.Stable":
						if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
							if o.isExSlice(mi.X.Type()) {
								add(in, mi.X, NeedSlice, "sorts a part list")
							} else if o.isAtomPtr(mi.X.Type()) {
								add(in, mi.X, NeedNode, "sorts an expression")
							}
						} else if types.Implements(c.Args[0].Type(), o.ex) {
							add(in, c.Args[0], NeedNode, "sorts an expression")
						} else if ci, ok := c.Args[0].(*ssa.ChangeInterface); ok && types.Implements(ci.X.Type(), o.ex) {
							add(in, ci.X, NeedNode, "sorts an expression")
						}
					case "sort.Slice", "sort.SliceStable":
						if mi, ok := c.Args[0].(*ssa.MakeInterface); ok && o.isExSlice(mi.X.Type()) {
							add(in, mi.X, NeedSlice, "sorts a part list")
						}
					case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Replace", "slices.DeleteFunc", "slices.Compact", "slices.CompactFunc":
						if len(c.Args) > 0 && o.isExSlice(c.Args[0].Type()) {
							add(in, c.Args[0], NeedSlice, fn.Name()+" on a part list")
						}
					}
				}
			}
		}
	}
	return out
}

// appendClobbers: append(x, ...) always may write into the spare capacity of x;
// when x is a view shortened with x[:k] it certainly overwrites.
func (o *Own) appendClobbers(x ssa.CallInstruction) bool {
	return true
}

// Finding is a modification of something not owned.
type OwnFinding struct {
	Event  Event
	Fn     *ssa.Function // where ownership fails
	Instr  ssa.Instruction
	Reason string
}

// Check decides every event selected by keep; stop(f) cuts propagation at
// functions whose parameters are theirs to modify by design.
func (o *Own) Check(keep func(Event) bool, stop func(f *ssa.Function) string) (events []Event, finds []OwnFinding, props int, stopped map[string]string) {
	type item struct {
		f  *ssa.Function
		pn paramNeed
		ev Event
	}
	stopped = map[string]string{}
	seen := map[string]bool{}
	var work []item
	push := func(f *ssa.Function, pn paramNeed, ev Event) {
		key := fmt.Sprintf("%p/%d/%d", f, pn.Idx, pn.Need)
		if seen[key] {
			return
		}
		seen[key] = true
		work = append(work, item{f, pn, ev})
	}
	for _, f := range o.w.Funcs {
		for _, ev := range o.Events(f) {
			if !keep(ev) {
				continue
			}
			events = append(events, ev)
			r := o.Owned(ev.Target, ev.Need)
			for _, b := range uniq(r.Bad) {
				finds = append(finds, OwnFinding{ev, f, ev.Instr, b})
			}
			for pn := range r.Params {
				push(f, pn, ev)
			}
		}
	}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if why := stop(it.f); why != "" {
			stopped[fname(it.f)] = why
			continue
		}
		for _, in := range o.w.addrTaken[it.f] {
			if closureOnlyCalled(in) {
				continue
			}
			finds = append(finds, OwnFinding{it.ev, it.f, it.ev.Instr, fmt.Sprintf("%s modifies its parameter %s (%s) and is used as a function value, so nobody guarantees that its caller owns it", fname(it.f), paramName(it.f, it.pn.Idx), it.pn.Need)})
			break
		}
		if it.pn.Idx < 0 {
			continue
		}
		for _, call := range o.w.callersOf[it.f] {
			arg := argFor(call, it.f, it.pn.Idx)
			if arg == nil {
				continue
			}
			props++
			if cs, ok := call.(ssa.Instruction); ok {
				o.callEvents = append(o.callEvents, Event{call.Parent(), cs, arg, it.pn.Need, it.ev.What + " in " + fname(it.f)})
			}
			r := o.Owned(arg, it.pn.Need)
			for _, b := range uniq(r.Bad) {
				finds = append(finds, OwnFinding{it.ev, call.Parent(), call, fmt.Sprintf("passes %s to %s, which modifies it", b, fname(it.f))})
			}
			for pn := range r.Params {
				push(call.Parent(), pn, it.ev)
			}
		}
	}
	return
}

func paramName(f *ssa.Function, i int) string {
	if i >= 0 && i < len(f.Params) {
		return f.Params[i].Name()
	}
	return "?"
}

func trimVia(s string) string {
	if i := strings.Index(s, " (via "); i >= 0 {
		return s[:i]
	}
	return s
}

func uniq(s []string) []string {
	m := map[string]bool{}
	var out []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

func shortReason(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
