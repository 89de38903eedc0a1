package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C03", Title: "A changed value never keeps the hash of what it was", Run: checkCaches,
		Explain: "Typestate of the cached hash of every expression and integer. An object is clean (no hash computed since it was made or since its hashes were cleared), possibly cached, or dirty (changed while possibly cached). Every write of parts (directly, by append, by the mutating methods, by sort) and every in-place operation on an integer's number moves a possibly cached object to dirty; clearing the cached hash cleans it. No dirty object may be hashed, copied, compared, passed on, stored or returned. States are propagated through calls in both directions by summaries of every function for every parameter and state. The substitution function, which clears hashes as it goes, is interpreted abstractly on the expressions and bindings of C40: whatever contains a replaced symbol, at any depth, must come out without a kept hash.",
		Assume:  []string{"An expression that is reached through another one is written only by parser and substitution."}})
}

type hst int8

const (
	hBot hst = iota
	hDeep
	hClean
	hCached
	hDirty
	hDirtyDeep
)

type href struct {
	base  ssa.Value
	child bool
}

type hkey struct {
	fn    *ssa.Function
	param int
	in    hst
}

type hsum struct {
	out hst
	bad string // where a dirty object is used
}

type cacheAn struct {
	w       *World
	fields  map[string]map[string]bool // kind -> hash fields
	rootsM  map[ssa.Value][]href
	sums    map[hkey]*hsum
	rets    map[hkey][]hst
	todo    map[hkey]bool
	changed bool
	writes  map[ssa.Instruction]bool
	clears  map[ssa.Instruction]bool
	noHashM map[*ssa.Function]int
	exempt  map[*ssa.Function]bool
	aliasM  map[*ssa.Function]map[int]*halias
	params  map[*ssa.Function][]hst // join over the callers
	base    bool
}

type halias struct {
	param int
	child bool
}

func (c *cacheAn) isObj(t types.Type) bool {
	if n := namedOf(t); n != nil {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkgAtoms && c.fields[n.Obj().Name()] != nil {
			return true
		}
	}
	if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && namedOf(t) != nil && namedOf(t).Obj().Pkg() != nil {
		return types.Implements(c.w.ptrTo(kExpr), it)
	}
	return false
}

// hashField tells whether a field address is that of a cached hash.
func (c *cacheAn) hashField(fa *ssa.FieldAddr) bool {
	n := namedOf(fa.X.Type())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgAtoms {
		return false
	}
	return c.fields[n.Obj().Name()][faName(fa)]
}

func faName(fa *ssa.FieldAddr) string {
	t := fa.X.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	return t.(*types.Struct).Field(fa.Field).Name()
}

// dataField: the part list of an expression or the number of an integer.
func (c *cacheAn) dataField(fa *ssa.FieldAddr) bool {
	n := namedOf(fa.X.Type())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgAtoms || c.fields[n.Obj().Name()] == nil {
		return false
	}
	switch t := fa.Type().(*types.Pointer).Elem().Underlying().(type) {
	case *types.Slice, *types.Pointer:
		return true
	case *types.Basic:
		return t.Kind() == types.String
	}
	return false
}

// edges: the values v is, or is a part of; none if v is an object of its own.
func (c *cacheAn) edges(v ssa.Value) (out []hedge, leaf bool) {
	switch x := v.(type) {
	case *ssa.Const:
		return nil, false
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, hedge{e, false})
		}
		return out, false
	case *ssa.ChangeInterface:
		return []hedge{{x.X, false}}, false
	case *ssa.MakeInterface:
		return []hedge{{x.X, false}}, false
	case *ssa.ChangeType:
		return []hedge{{x.X, false}}, false
	case *ssa.TypeAssert:
		return []hedge{{x.X, false}}, false
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			return []hedge{{t.X, false}}, false
		case *ssa.Call:
			if es, ok := c.aliased(t, x.Index); ok {
				return es, false
			}
		}
	case *ssa.Call:
		if es, ok := c.aliased(x, 0); ok {
			return es, false
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			for _, o := range c.holders(a.X) {
				out = append(out, hedge{o, true})
			}
			if len(out) > 0 {
				return out, false
			}
		case *ssa.Alloc:
			for _, ref := range *orEmpty(a.Referrers()) {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
					out = append(out, hedge{s.Val, false})
				}
			}
			if len(out) > 0 {
				return out, false
			}
		case *ssa.FreeVar:
			return []hedge{{a, false}}, false
		}
	}
	return nil, true
}

type hedge struct {
	v     ssa.Value
	child bool
}

// roots are the objects v may be, or be a part of.
func (c *cacheAn) roots(v ssa.Value) []href {
	if r, ok := c.rootsM[v]; ok {
		return r
	}
	var out []href
	seen := map[hedge]bool{}
	var walk func(e hedge)
	walk = func(e hedge) {
		if seen[e] {
			return
		}
		seen[e] = true
		es, leaf := c.edges(e.v)
		if leaf {
			out = append(out, href{e.v, e.child})
		}
		for _, n := range es {
			walk(hedge{n.v, n.child || e.child})
		}
	}
	walk(hedge{v, false})
	c.rootsM[v] = out
	return out
}

// holders: the objects whose data (part list, number) v is.
func (c *cacheAn) holders(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(u ssa.Value)
	walk = func(u ssa.Value) {
		if seen[u] {
			return
		}
		seen[u] = true
		switch x := u.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Slice:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if fa, ok := x.X.(*ssa.FieldAddr); ok && c.dataField(fa) {
					out = append(out, fa.X)
				}
			}
		case *ssa.Call:
			if c.getsData(&x.Call) {
				out = append(out, callArgs(&x.Call)[0])
			}
		}
	}
	walk(v)
	return out
}

func (c *cacheAn) droots(v ssa.Value) []href {
	var out []href
	for _, o := range c.holders(v) {
		out = append(out, c.roots(o)...)
	}
	return out
}

// getsData: a method that returns the part list of its receiver.
func (c *cacheAn) getsData(call *ssa.CallCommon) bool {
	var fs []*ssa.Function
	if call.IsInvoke() {
		fs = c.w.Impls(call.Value.Type(), call.Method)
	} else if f := call.StaticCallee(); f != nil && len(f.Params) == 1 {
		fs = []*ssa.Function{f}
	}
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		ok := false
		for _, b := range f.Blocks {
			if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is && len(ret.Results) == 1 {
				u, is := ret.Results[0].(*ssa.UnOp)
				if !is {
					return false
				}
				fa, is := u.X.(*ssa.FieldAddr)
				if !is || !c.dataField(fa) || fa.X != f.Params[0] {
					return false
				}
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// aliased: a call that returns one of its arguments, or a part of it.
func (c *cacheAn) aliased(call *ssa.Call, idx int) ([]hedge, bool) {
	fs := c.w.Callees(call)
	if len(fs) == 0 {
		return nil, false
	}
	var out []hedge
	for _, f := range fs {
		a := c.alias(f, idx)
		if a == nil {
			return nil, false
		}
		args := callArgs(&call.Call)
		if a.param >= len(args) {
			return nil, false
		}
		out = append(out, hedge{args[a.param], a.child})
	}
	return out, true
}

func callArgs(cc *ssa.CallCommon) []ssa.Value {
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func (c *cacheAn) alias(f *ssa.Function, idx int) *halias {
	if m, ok := c.aliasM[f]; ok {
		if a, ok := m[idx]; ok {
			return a
		}
	} else {
		c.aliasM[f] = map[int]*halias{}
	}
	c.aliasM[f][idx] = nil
	var res *halias
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		if !c.isObj(ret.Results[idx].Type()) {
			return nil
		}
		for _, r := range c.roots(ret.Results[idx]) {
			p, ok := r.base.(*ssa.Parameter)
			if !ok {
				return nil
			}
			pi := -1
			for i, q := range f.Params {
				if q == p {
					pi = i
				}
			}
			if res == nil {
				res = &halias{pi, r.child}
			} else if res.param != pi {
				return nil
			} else if r.child {
				res.child = true
			}
		}
	}
	c.aliasM[f][idx] = res
	return res
}

// noHash: no cached hash is read or set by f or anything it calls.
func (c *cacheAn) noHash(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && c.hashField(fa) {
					return false
				}
				if call, ok := in.(ssa.CallInstruction); ok {
					for _, g := range c.w.Callees(call) {
						if !walk(g) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	if r := c.noHashM[f]; r != 0 {
		return r == 1
	}
	ok := walk(f)
	c.noHashM[f] = 2
	if ok {
		c.noHashM[f] = 1
	}
	return ok
}

func (c *cacheAn) summary(f *ssa.Function, p int, in hst) *hsum {
	k := hkey{f, p, in}
	if s, ok := c.sums[k]; ok {
		return s
	}
	s := &hsum{out: hBot}
	if len(f.Blocks) == 0 {
		s.out = in
		if in <= hClean {
			s.out = hCached
		}
	} else {
		c.todo[k] = true
		c.changed = true
	}
	c.sums[k] = s
	return s
}

type hstate map[ssa.Value]hst

func (c *cacheAn) run(f *ssa.Function, p int, in hst, report func(base ssa.Value, ins ssa.Instruction, what string)) (out hst) {
	return c.runAt(f, p, in, report, nil)
}

// paramState: the join of the states in which callers pass a parameter.
func (c *cacheAn) paramState(f *ssa.Function, i int) hst {
	if i < len(f.Params) && (len(c.w.callersOf[f]) == 0 || len(c.w.addrTaken[f]) > 0) {
		return hCached
	}
	if ps := c.params[f]; i < len(ps) {
		return ps[i]
	}
	return hBot
}

func (c *cacheAn) record(f *ssa.Function, i int, s hst) {
	if !c.base {
		return
	}
	if s > hCached {
		s = hCached
	}
	ps := c.params[f]
	if ps == nil {
		ps = make([]hst, len(f.Params)+len(f.FreeVars))
		c.params[f] = ps
	}
	if i < len(ps) && s > ps[i] {
		ps[i] = s
		c.changed = true
	}
}

func (c *cacheAn) runAt(f *ssa.Function, p int, in hst, report func(base ssa.Value, ins ssa.Instruction, what string), atRet func(hstate, *ssa.Return)) (out hst) {
	entry := hstate{}
	for i, q := range f.Params {
		entry[q] = c.paramState(f, i)
		if i == p {
			entry[q] = in
		}
	}
	for i, q := range f.FreeVars {
		entry[q] = c.paramState(f, len(f.Params)+i)
		if len(f.Params)+i == p {
			entry[q] = in
		}
	}
	var self ssa.Value
	if p >= 0 && p < len(f.Params) {
		self = f.Params[p]
	} else if p >= len(f.Params) && p-len(f.Params) < len(f.FreeVars) {
		self = f.FreeVars[p-len(f.Params)]
	}
	ins := map[*ssa.BasicBlock]hstate{f.Blocks[0]: entry}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := hstate{}
		for k, v := range ins[b] {
			st[k] = v
		}
		for _, i := range b.Instrs {
			if ret, ok := i.(*ssa.Return); ok && atRet != nil {
				atRet(st, ret)
			}
			c.step(f, st, i, report)
		}
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && self != nil {
				if s := st[self]; s > out {
					out = s
				}
			}
		}
		for _, s := range b.Succs {
			t, ok := ins[s]
			ch := !ok
			if !ok {
				t = hstate{}
				ins[s] = t
			}
			for k, v := range st {
				if o, has := t[k]; !has || v > o {
					t[k] = v
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	return out
}

func (st hstate) at(v ssa.Value) hst {
	if s, ok := st[v]; ok {
		return s
	}
	return hCached
}

// use: the object may be hashed, or becomes visible to others.
func (c *cacheAn) use(st hstate, rs []href, ins ssa.Instruction, what string, report func(ssa.Value, ssa.Instruction, string)) {
	for _, r := range rs {
		s := st.at(r.base)
		if s == hDirtyDeep || s == hDirty && !r.child {
			report(r.base, ins, what)
			continue
		}
		if s < hCached {
			if s == hDeep && r.child {
				continue
			}
			if !r.child {
				st[r.base] = hCached
			}
		}
	}
}

// deepVal: nothing in the value has a hash.
func (c *cacheAn) deepVal(st hstate, v ssa.Value) bool {
	rs := c.roots(v)
	for _, r := range rs {
		if st.at(r.base) != hDeep {
			return false
		}
	}
	return len(rs) > 0
}

func (c *cacheAn) writeDeep(st hstate, rs []href, ins ssa.Instruction) {
	c.writes[ins] = true
	var rest []href
	for _, r := range rs {
		if st.at(r.base) != hDeep {
			rest = append(rest, r)
		}
	}
	c.write(st, rest, ins)
}

func (c *cacheAn) write(st hstate, rs []href, ins ssa.Instruction) {
	c.writes[ins] = true
	for _, r := range rs {
		s := st.at(r.base)
		if r.child {
			if s != hDeep {
				st[r.base] = hDirtyDeep
			}
			continue
		}
		switch s {
		case hCached:
			st[r.base] = hDirty
		case hDeep:
			st[r.base] = hClean // what is put in may have hashes
		}
	}
}

func (c *cacheAn) step(f *ssa.Function, st hstate, in ssa.Instruction, report func(ssa.Value, ssa.Instruction, string)) {
	switch x := in.(type) {
	case *ssa.Alloc:
		if c.isObj(x.Type()) {
			st[x] = hClean
		}
	case *ssa.Store:
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			if c.hashField(a) {
				zero := false
				if u, ok := x.Val.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && c.hashField(fa) {
						// the hash of another object: none, if it has none
						none := true
						for _, r := range c.roots(fa.X) {
							if s := st.at(r.base); r.child && s != hDeep || s > hClean {
								none = false
							}
						}
						if none {
							return
						}
					}
				}
				if k, ok := x.Val.(*ssa.Const); ok && k.Value != nil && k.Value.String() == "0" {
					zero = true
				}
				for _, r := range c.roots(a.X) {
					if zero {
						c.clears[in] = true
						if st.at(r.base) <= hDirty && !r.child {
							st[r.base] = hClean
						}
					} else {
						c.use(st, []href{r}, in, "a hash is stored in it", report)
					}
				}
				return
			}
			if c.dataField(a) {
				if _, list := x.Val.Type().Underlying().(*types.Slice); list {
					c.write(st, c.roots(a.X), in)
				} else {
					c.writeDeep(st, c.roots(a.X), in)
				}
				return
			}
			if c.isObj(x.Val.Type()) {
				c.use(st, c.roots(x.Val), in, "it is stored in a structure", report)
			}
			return
		case *ssa.IndexAddr:
			if d := c.droots(a.X); len(d) > 0 {
				if c.deepVal(st, x.Val) {
					c.writeDeep(st, d, in)
				} else {
					c.write(st, d, in)
				}
			}
		case *ssa.Alloc:
			if c.isObj(x.Val.Type()) {
				return // a local variable: the same object under another name
			}
		}
		if c.isObj(x.Val.Type()) {
			c.use(st, c.roots(x.Val), in, "it is stored", report)
		}
	case *ssa.FieldAddr:
		if c.hashField(x) {
			for _, ref := range *orEmpty(x.Referrers()) {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == x {
					continue
				}
				if hashLoad(ref) {
					for _, r := range c.roots(x.X) {
						if s := st.at(r.base); s == hDirtyDeep || s == hDirty && !r.child {
							report(r.base, in, "its cached hash is used")
						}
					}
					continue
				}
				c.use(st, c.roots(x.X), in, "its cached hash is used", report)
				break
			}
		}
	case *ssa.MapUpdate:
		if c.isObj(x.Value.Type()) {
			c.use(st, c.roots(x.Value), in, "it is stored in a map", report)
		}
	case *ssa.Send:
		if c.isObj(x.X.Type()) {
			c.use(st, c.roots(x.X), in, "it is sent", report)
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		called := true
		for _, ref := range *orEmpty(x.Referrers()) {
			if ci, ok := ref.(ssa.CallInstruction); !ok || ci.Common().Value != x {
				called = false
			}
		}
		if called {
			return
		}
		for i := range x.Bindings {
			c.closureArg(st, fn, x.Bindings[i], i, in, report)
		}
	case *ssa.Return:
		for _, v := range x.Results {
			if !c.isObj(v.Type()) {
				continue
			}
			for _, r := range c.roots(v) {
				if s := st.at(r.base); s >= hDirty {
					if _, isP := r.base.(*ssa.Parameter); !isP {
						report(r.base, in, "it is returned")
					}
				}
			}
		}
	case ssa.CallInstruction:
		c.call(f, st, x, report)
	}
}

// hashLoad: an instruction that only reads.
func hashLoad(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op == token.MUL
	case *ssa.Call:
		o := calleeObj(&x.Call)
		return o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync/atomic" && strings.HasPrefix(o.Name(), "Load")
	}
	return false
}

func (c *cacheAn) cellObj(v ssa.Value) ([]href, bool) {
	if a, ok := v.(*ssa.Alloc); ok {
		if p, ok := a.Type().(*types.Pointer); ok && c.isObj(p.Elem()) {
			if _, isIface := p.Elem().Underlying().(*types.Interface); isIface || isPtr(p.Elem()) {
				var out []href
				for _, ref := range *orEmpty(a.Referrers()) {
					if s, ok := ref.(*ssa.Store); ok && s.Addr == a {
						out = append(out, c.roots(s.Val)...)
					}
				}
				return out, true
			}
		}
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		return []href{{base: fv}}, true
	}
	return nil, false
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (c *cacheAn) closureArg(st hstate, fn *ssa.Function, v ssa.Value, i int, in ssa.Instruction, report func(ssa.Value, ssa.Instruction, string)) {
	rs, ok := c.cellObj(v)
	if !ok {
		if !c.isObj(v.Type()) {
			return
		}
		rs = c.roots(v)
	}
	c.apply(st, rs, []*ssa.Function{fn}, len(fn.Params)+i, in, report)
}

// apply the summaries of the callees to the objects passed as parameter p.
func (c *cacheAn) apply(st hstate, rs []href, fs []*ssa.Function, p int, in ssa.Instruction, report func(ssa.Value, ssa.Instruction, string)) {
	for _, r := range rs {
		s := st.at(r.base)
		if s == hBot {
			continue // unreachable so far
		}
		var out hst
		for _, g := range fs {
			if r.child && s != hDeep {
				c.record(g, p, hCached)
			} else {
				c.record(g, p, s)
			}
			if c.exempt[g] {
				if s == hDirtyDeep || s == hDirty && !r.child {
					report(r.base, in, "it is passed to "+fname(g))
				}
				if hCached > out {
					out = hCached
				}
				continue
			}
			var sm *hsum
			if r.child {
				ci := hCached
				if s == hDeep {
					ci = hDeep
				}
				sm = c.summary(g, p, ci)
				if s == hDirtyDeep {
					report(r.base, in, "it is passed to "+fname(g))
				} else if sm.bad != "" {
					report(r.base, in, "in "+fname(g)+" "+sm.bad)
				}
				if sm.out >= hDirty {
					c.writes[in] = true
					st[r.base] = hDirtyDeep
				}
				continue
			}
			if s == hDirtyDeep {
				report(r.base, in, "it is passed to "+fname(g))
				continue
			}
			sm = c.summary(g, p, s)
			if sm.bad != "" {
				report(r.base, in, "in "+fname(g)+" "+sm.bad)
			}
			if sm.out > out {
				out = sm.out
			}
		}
		if !r.child && out != hBot && s != hDirtyDeep {
			st[r.base] = out
		}
	}
}

func (c *cacheAn) call(f *ssa.Function, st hstate, ci ssa.CallInstruction, report func(ssa.Value, ssa.Instruction, string)) {
	cc := ci.Common()
	in := ci.(ssa.Instruction)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		_ = b
		return
	}
	fs := c.w.Callees(ci)
	args := callArgs(cc)
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		fn := mc.Fn.(*ssa.Function)
		fs = []*ssa.Function{fn}
		for i := range mc.Bindings {
			c.closureArg(st, fn, mc.Bindings[i], i, in, report)
		}
	}
	pkg, name := "", ""
	if o := calleeObj(cc); o != nil && o.Pkg() != nil {
		pkg, name = o.Pkg().Path(), o.Name()
	}
	if pkg == "sort" && (name == "Sort" || name == "Stable" || strings.HasPrefix(name, "Slice")) && len(args) > 0 {
		a := args[0]
		if mi, ok := a.(*ssa.MakeInterface); ok {
			if d := c.droots(mi.X); len(d) > 0 {
				c.write(st, d, in)
				return
			}
		}
		c.write(st, c.roots(a), in)
		return
	}
	for _, m := range bigMutated(cc) {
		if d := c.droots(m); len(d) > 0 {
			c.write(st, d, in)
		}
	}
	pre := map[ssa.Value]hst{}
	for _, a := range args {
		if c.isObj(a.Type()) {
			for _, r := range c.roots(a) {
				pre[r.base] = st.at(r.base)
			}
		}
	}
	// the same object passed twice: in order
	for i, a := range args {
		if !c.isObj(a.Type()) {
			continue
		}
		rs := c.roots(a)
		if len(rs) == 0 {
			continue
		}
		known := false
		for _, g := range fs {
			if len(g.Blocks) > 0 {
				known = true
			}
		}
		if !known {
			c.use(st, rs, in, "it is passed to "+name, report)
			continue
		}
		c.apply(st, rs, fs, i, in, report)
	}
	if v, ok := in.(ssa.Value); ok {
		states := map[int]hst{}
		unreached := false
		for i, a := range args {
			if !c.isObj(a.Type()) {
				continue
			}
			m := hBot
			for _, r := range c.roots(a) {
				s := pre[r.base]
				if r.child && s != hDeep {
					s = hCached
				}
				if s > m {
					m = s
				}
			}
			if m == hBot && len(c.roots(a)) > 0 {
				unreached = true
			}
			if m > hBot && m < hCached {
				states[i] = m
			}
		}
		res := func(idx int) hst {
			s := hBot
			if unreached {
				return hBot
			}
			if len(fs) == 0 {
				return hCached
			}
			for _, g := range fs {
				rs := c.retState(g, idx, -1, hCached)
				for p, in := range states {
					if t := c.retState(g, idx, p, in); t < rs {
						rs = t
					}
				}
				if rs > s {
					s = rs
				}
			}
			return s
		}
		if c.isObj(v.Type()) {
			st[v] = res(0)
		} else if _, isT := v.Type().(*types.Tuple); isT {
			for _, ref := range *orEmpty(v.Referrers()) {
				if e, ok := ref.(*ssa.Extract); ok && c.isObj(e.Type()) {
					st[e] = res(e.Index)
				}
			}
		}
	}
}

func (c *cacheAn) takesObj(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := p.Type()
		if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
		if c.isObj(t) {
			return true
		}
	}
	return len(f.FreeVars) > 0
}

// retState: the state of what a function returns, if it is its own, when
// parameter p is in state in.
func (c *cacheAn) retState(f *ssa.Function, idx, p int, in hst) hst {
	if len(f.Blocks) == 0 {
		return hCached
	}
	if c.noHash(f) && !c.takesObj(f) {
		return hDeep
	}
	k := hkey{f, p, in}
	if r, ok := c.rets[k]; ok {
		if idx < len(r) {
			return r[idx]
		}
		return hCached
	}
	c.rets[k] = make([]hst, f.Signature.Results().Len())
	c.changed = true
	return hBot
}

func checkCaches(w *World, r *Report) {
	w.substCases(r, true)
	c := &cacheAn{w: w, fields: map[string]map[string]bool{}, rootsM: map[ssa.Value][]href{}, sums: map[hkey]*hsum{}, rets: map[hkey][]hst{}, todo: map[hkey]bool{},
		writes: map[ssa.Instruction]bool{}, clears: map[ssa.Instruction]bool{}, noHashM: map[*ssa.Function]int{}, exempt: map[*ssa.Function]bool{}, aliasM: map[*ssa.Function]map[int]*halias{}, params: map[*ssa.Function][]hst{}}
	// the fields Hash computes into
	for _, k := range allKinds {
		f := w.fnOpt(pkgAtoms, string(k)+".Hash")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					if bt, ok := fa.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						if c.fields[string(k)] == nil {
							c.fields[string(k)] = map[string]bool{}
						}
						c.fields[string(k)][faName(fa)] = true
					}
				}
			}
		}
	}
	for k, fs := range c.fields {
		for f := range fs {
			r.note("cached hash: %s.%s", k, f)
			r.count("cached hashes", 1)
		}
	}
	// substitution is decided by interpretation
	if rp := w.fnOpt(pkgMatcher, "ReplacePD"); rp != nil {
		c.exempt[rp] = true
		for ch := true; ch; {
			ch = false
			for _, f := range w.Funcs {
				if c.exempt[f] || len(w.callersOf[f]) == 0 || len(w.addrTaken[f]) > 0 || f.Pkg != rp.Pkg {
					continue
				}
				all := true
				for _, cl := range w.callersOf[f] {
					if g := cl.(ssa.Instruction).Parent(); g != f && !c.exempt[g] {
						all = false
					}
				}
				if all {
					c.exempt[f] = true
					ch = true
				}
			}
		}
	}
	for round := 0; round < 60; round++ {
		c.changed = false
		ks := make([]hkey, 0, len(c.sums))
		for k := range c.sums {
			if len(k.fn.Blocks) > 0 {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			s := c.sums[k]
			bad := ""
			var self ssa.Value
			if k.param < len(k.fn.Params) {
				self = k.fn.Params[k.param]
			} else if k.param-len(k.fn.Params) < len(k.fn.FreeVars) {
				self = k.fn.FreeVars[k.param-len(k.fn.Params)]
			} else {
				continue
			}
			out := c.run(k.fn, k.param, k.in, func(b ssa.Value, in ssa.Instruction, what string) {
				if b == self && (bad == "") {
					bad = what + " at " + w.At(in)
				}
			})
			if out > s.out {
				s.out = out
				c.changed = true
			}
			if bad != "" && s.bad == "" {
				s.bad = bad
				c.changed = true
			}
		}
		fs := make([]hkey, 0, len(c.rets))
		for f := range c.rets {
			fs = append(fs, f)
		}
		for _, f := range fs {
			if c.updRet(f) {
				c.changed = true
			}
		}
		c.base = true
		for _, f := range w.Funcs {
			c.run(f, -1, hCached, func(ssa.Value, ssa.Instruction, string) {})
		}
		c.base = false
		if !c.changed {
			break
		}
	}
	type viol struct{ key, where, what string }
	var vs []viol
	for _, f := range w.Funcs {
		if c.exempt[f] {
			continue
		}
		seen := map[string]bool{}
		f := f
		c.run(f, -1, hCached, func(b ssa.Value, in ssa.Instruction, what string) {
			switch b.(type) {
			case *ssa.Parameter, *ssa.FreeVar:
				// callers pass it in the state they have
				if len(w.callersOf[f]) > 0 && len(w.addrTaken[f]) == 0 || f.Parent() != nil && len(f.FreeVars) > 0 {
					return
				}
			}
			k := fname(f) + " " + describeBase(b)
			if !seen[k+what] {
				seen[k+what] = true
				vs = append(vs, viol{k, w.At(in), "the object was changed while its hash may be cached, and " + what + " before the hash is cleared"})
			}
		})
		// nobody known calls it: it must not leave its parameters dirty
		if len(w.callersOf[f]) == 0 || len(w.addrTaken[f]) > 0 {
			if f.Pkg != nil && f.Pkg.Pkg.Path() == pkgAtoms && f.Signature.Recv() != nil {
				continue
			}
			for i, p := range f.Params {
				if c.isObj(p.Type()) && c.run(f, i, hCached, func(ssa.Value, ssa.Instruction, string) {}) >= hDirty {
					vs = append(vs, viol{fname(f) + " " + p.Name(), w.Pos(f.Pos()), "the parameter is changed while its hash may be cached, and the hash is not cleared"})
				}
			}
		}
	}
	bad := map[string]bool{}
	for _, v := range vs {
		bad[strings.Fields(v.key)[0]] = true
		r.bad("cache", v.key, v.where, "%s", v.what)
	}
	// every write, discharged where nothing was reported
	var at []string
	for in := range c.writes {
		if bad[fname(in.Parent())] || c.exempt[in.Parent()] {
			continue
		}
		at = append(at, w.At(in))
	}
	sort.Strings(at)
	for i, a := range at {
		r.ok("cache", fmt.Sprintf("write %d at %s", i, a), a, "clean when written, or cleared before any use")
	}
	r.count("writes", len(c.writes))
	r.count("summaries", len(c.sums))
	r.atLeast("writes", 20)
	r.atLeast("cached hashes", 2)
}

func describeBase(b ssa.Value) string {
	if p, ok := b.(*ssa.Parameter); ok {
		return p.Name()
	}
	if cl, ok := b.(*ssa.Call); ok {
		if o := calleeObj(&cl.Call); o != nil {
			return "result of " + o.Name()
		}
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", b), "*ssa.")
}

func (c *cacheAn) updRet(k hkey) bool {
	r := c.rets[k]
	ch := false
	c.runAt(k.fn, k.param, k.in, func(ssa.Value, ssa.Instruction, string) {}, func(st hstate, ret *ssa.Return) {
		for i, v := range ret.Results {
			if !c.isObj(v.Type()) {
				continue
			}
			s := hBot
			for _, ref := range c.roots(v) {
				t := st.at(ref.base)
				if ref.child && t < hCached && t != hDeep {
					t = hCached
				}
				if t > hCached {
					t = hCached // reported where it happens
				}
				if t > s {
					s = t
				}
			}
			if s > r[i] {
				r[i] = s
				ch = true
			}
		}
	})
	return ch
}
