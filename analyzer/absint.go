package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Abstract interpreter: a forward dataflow analysis over SSA whose values are
// small sets of abstract elements (constants, nil, abstract addresses with a
// known or unknown dynamic type, opaque symbols). Branches whose condition is
// decided by the abstract value follow one edge; all others follow both and the
// states are joined where paths meet. Loops are partitioned by iteration up to a
// bound and joined beyond it. Calls to repository functions are analysed in the
// calling context. It is used to decide finite-domain questions: which entry of
// a table, which arithmetic step, which order for every kind of operand.

type aKind uint8

const (
	aConst aKind = iota
	aNil
	aAddr
	aSlice
	aFunc
	aSym
	aStruct
	aMap
)

type aElem struct {
	Kind aKind
	Key  string     // identity within the kind
	Typ  types.Type // dynamic type when held in an interface
	C    constant.Value
	// aSlice: storage Base, first index Lo, length N (-1 unknown)
	Base  string
	Lo, N int
	Fn    *ssa.Function
	Bind  []aVal
	Flds  map[string]aVal
}

func (e aElem) id() string {
	t := ""
	if e.Typ != nil {
		t = ":" + types.TypeString(e.Typ, nil)
	}
	return fmt.Sprintf("%d/%s%s", e.Kind, e.Key, t)
}

// aVal is a set of elements, or anything (Top). The empty set is unreachable.
type aVal struct {
	Top bool
	Els []aElem
}

var aTop = aVal{Top: true}

const maxEls = 12

func one(e aElem) aVal { return aVal{Els: []aElem{e}} }

func aC(c constant.Value) aVal { return one(aElem{Kind: aConst, Key: c.ExactString(), C: c}) }
func aBool(b bool) aVal        { return aC(constant.MakeBool(b)) }
func aInt(i int64) aVal        { return aC(constant.MakeInt64(i)) }
func aStr(s string) aVal       { return aC(constant.MakeString(s)) }
func aSymV(k string) aVal      { return one(aElem{Kind: aSym, Key: k}) }

var aNilV = one(aElem{Kind: aNil, Key: "nil"})

// obj is the address of the abstract object called name; typ is its dynamic
// (pointer) type.
func aObj(name string, typ types.Type) aVal {
	return one(aElem{Kind: aAddr, Key: name, Typ: typ})
}

// aList is a slice of n elements stored at base.
func aList(base string, n int) aVal {
	return one(aElem{Kind: aSlice, Key: fmt.Sprintf("%s@0#%d", base, n), Base: base, N: n})
}

func (v aVal) single() (aElem, bool) {
	if v.Top || len(v.Els) != 1 {
		return aElem{}, false
	}
	return v.Els[0], true
}

func (v aVal) constant() (constant.Value, bool) {
	e, ok := v.single()
	if !ok || e.Kind != aConst {
		return nil, false
	}
	return e.C, true
}

func (v aVal) boolean() (bool, bool) {
	c, ok := v.constant()
	if !ok || c.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c), true
}

func (v aVal) integer() (int, bool) {
	c, ok := v.constant()
	if !ok || c.Kind() != constant.Int {
		return 0, false
	}
	i, exact := constant.Int64Val(c)
	return int(i), exact
}

func (v aVal) str() (string, bool) {
	c, ok := v.constant()
	if !ok || c.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c), true
}

func (v aVal) String() string {
	if v.Top {
		return "⊤"
	}
	var s []string
	for _, e := range v.Els {
		s = append(s, e.id())
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// key is a readable symbolic name for a value.
func (v aVal) key() string {
	if v.Top {
		return "⊤"
	}
	var s []string
	for _, e := range v.Els {
		s = append(s, e.Key)
	}
	return strings.Join(s, "|")
}

func join(a, b aVal) aVal {
	if a.Top || b.Top {
		return aTop
	}
	out := append([]aElem{}, a.Els...)
	seen := map[string]bool{}
	for _, e := range out {
		seen[e.id()] = true
	}
	for _, e := range b.Els {
		if !seen[e.id()] {
			seen[e.id()] = true
			out = append(out, e)
		}
	}
	if len(out) > maxEls {
		return aTop
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id() < out[j].id() })
	return aVal{Els: out}
}

type aMem map[string]aVal

func (m aMem) clone() aMem {
	o := make(aMem, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

type aState struct {
	env    map[ssa.Value]aVal
	tup    map[ssa.Value][]aVal
	mem    aMem
	defers []*ssa.Defer
}

func (s *aState) clone() *aState {
	n := &aState{env: make(map[ssa.Value]aVal, len(s.env)), tup: make(map[ssa.Value][]aVal, len(s.tup)), mem: s.mem.clone()}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.tup {
		n.tup[k] = v
	}
	n.defers = append([]*ssa.Defer{}, s.defers...)
	return n
}

// AI is one analysis run.
type AI struct {
	W *World
	// Recv gives what is received from a channel, and whether it is still open.
	Recv func(ch aElem, st *aState) (aVal, aVal, bool)
	// Hook may interpret a call itself.
	Hook func(ai *AI, fr *aFrame, call ssa.CallInstruction, callee *ssa.Function, args []aVal, st *aState) ([]aVal, bool)
	// Decide may settle an undecided branch condition.
	Decide func(cond aVal) (bool, bool)
	// OnReturn sees every return of the outermost function.
	OnReturn func(ret *ssa.Return, res []aVal, st *aState)
	// OnStore sees every store.
	OnStore func(in ssa.Instruction, loc string, v aVal, st *aState)
	// Inline says whether a function outside the repository is analysed too.
	Inline func(f *ssa.Function) bool

	LoopBound int
	MaxSteps  int
	Init      map[string]bool // packages whose initialisers are analysed first

	Undecided map[string]bool // conditions that went both ways
	Imprecise map[string]bool // constructs the analysis gave up on
	Panics    []string
	Steps     int
	nums      map[string]*ratFn
	Cats      map[string][2]aElem // concatenations of slices of unknown length
	// Rounding distinguishes a float converted from an exact number from it.
	Rounding bool
	// MapReverse iterates maps with known keys in the opposite order.
	MapReverse bool
	mapKeys    map[string]aElem
	runs       int
	pend       aMem // state of a panic on its way up
	// NumCmp orders two numbers that are not known to be equal.
	NumCmp func(a, b *ratFn) (int, bool)
	// FmtNum formats a number.
	FmtNum func(verb string, x *ratFn) (string, bool)
}

func NewAI(w *World) *AI {
	return &AI{W: w, LoopBound: 12, MaxSteps: 200000, Undecided: map[string]bool{}, Imprecise: map[string]bool{}}
}

type aFrame struct {
	ai    *AI
	fn    *ssa.Function
	ctx   string
	depth int
	stack []*ssa.Function
	free  []aVal
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	// partition currently interpreted
	part string
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				set := loops[s]
				if set == nil {
					set = map[*ssa.BasicBlock]bool{s: true}
					loops[s] = set
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if set[x] {
						continue
					}
					set[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return loops
}

// Run analyses fn on abstract arguments and returns the joined results and
// final memory.
func (ai *AI) Run(fn *ssa.Function, args []aVal, mem aMem) ([]aVal, aMem) {
	if mem == nil {
		mem = aMem{}
	}
	// objects made by different runs have different names
	ctx := ""
	if ai.runs > 0 {
		ctx = fmt.Sprintf("run%d", ai.runs)
	}
	ai.runs++
	ai.pend = nil
	return ai.call(fn, args, nil, mem, ctx, 0, nil, true)
}

// RunMethod interprets the method of the value's dynamic type.
func (ai *AI) RunMethod(recv aVal, name string, args []aVal, mem aMem) ([]aVal, aMem, error) {
	e, ok := recv.single()
	if !ok || e.Typ == nil {
		return nil, mem, fmt.Errorf("the receiver of %s is not determined (%v)", name, recv)
	}
	var pkg *types.Package
	if n := namedOf(e.Typ); n != nil {
		pkg = n.Obj().Pkg()
	}
	fn := ai.W.Prog.LookupMethod(e.Typ, pkg, name)
	if fn == nil {
		return nil, mem, fmt.Errorf("%v has no method %s", e.Typ, name)
	}
	res, m := ai.Run(fn, append([]aVal{recv}, args...), mem)
	return res, m, nil
}

func (ai *AI) imprecise(f string, a ...interface{}) { ai.Imprecise[fmt.Sprintf(f, a...)] = true }

func (ai *AI) call(fn *ssa.Function, args, free []aVal, mem aMem, ctx string, depth int, stack []*ssa.Function, top bool) ([]aVal, aMem) {
	fr := &aFrame{ai: ai, fn: fn, ctx: ctx, depth: depth, free: free, loops: naturalLoops(fn)}
	fr.stack = append(append([]*ssa.Function{}, stack...), fn)
	st := &aState{env: map[ssa.Value]aVal{}, tup: map[ssa.Value][]aVal{}, mem: mem}
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[p] = args[i]
		} else {
			st.env[p] = aTop
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			st.env[f] = free[i]
		} else {
			st.env[f] = aTop
		}
	}
	type node struct {
		b      *ssa.BasicBlock
		counts map[*ssa.BasicBlock]int
	}
	nkey := func(n node) string {
		var ks []string
		for h, c := range n.counts {
			ks = append(ks, fmt.Sprintf("%d:%d", h.Index, c))
		}
		sort.Strings(ks)
		return fmt.Sprintf("%d|%s", n.b.Index, strings.Join(ks, ","))
	}
	in := map[string]*aState{}
	nodes := map[string]node{}
	var work []string
	queued := map[string]bool{}
	push := func(k string) {
		if !queued[k] {
			queued[k] = true
			work = append(work, k)
		}
	}
	start := node{fn.Blocks[0], map[*ssa.BasicBlock]int{}}
	sk := nkey(start)
	if top {
		st = st.clone() // the caller keeps its memory
	}
	in[sk], nodes[sk] = st, start
	push(sk)
	// As long as every branch is decided there is one path: its state is passed
	// on instead of being kept for joins.
	linear := true

	var results []aVal
	var memOut aMem
	for len(work) > 0 {
		// smallest block first keeps joins before uses
		best := 0
		for i := range work {
			if nodes[work[i]].b.Index < nodes[work[best]].b.Index {
				best = i
			}
		}
		k := work[best]
		work = append(work[:best], work[best+1:]...)
		queued[k] = false
		n := nodes[k]
		fr.part = k
		cur := in[k]
		if linear {
			delete(in, k)
		} else {
			cur = cur.clone()
		}
		ai.Steps++
		if ai.Steps > ai.MaxSteps {
			ai.imprecise("step bound reached in %s", fname(fn))
			break
		}
		dead, recovered := false, false
		var outs []struct {
			to *ssa.BasicBlock
			st *aState
		}
		for _, ins := range n.b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi:
				continue // set on edges
			case *ssa.If:
				c := fr.get(cur, x.Cond)
				bv, known := c.boolean()
				if known {
					to := n.b.Succs[1]
					if bv {
						to = n.b.Succs[0]
					}
					outs = append(outs, struct {
						to *ssa.BasicBlock
						st *aState
					}{to, cur})
					continue
				}
				if !known && ai.Decide != nil {
					bv, known = ai.Decide(c)
				}
				if !known {
					ai.Undecided[c.key()] = true
				}
				if !known || bv {
					outs = append(outs, struct {
						to *ssa.BasicBlock
						st *aState
					}{n.b.Succs[0], fr.refine(cur, x.Cond, true)})
				}
				if !known || !bv {
					outs = append(outs, struct {
						to *ssa.BasicBlock
						st *aState
					}{n.b.Succs[1], fr.refine(cur, x.Cond, false)})
				}
			case *ssa.Jump:
				outs = append(outs, struct {
					to *ssa.BasicBlock
					st *aState
				}{n.b.Succs[0], cur})
			case *ssa.Return:
				var res []aVal
				for _, r := range x.Results {
					res = append(res, fr.get(cur, r))
				}
				if top && ai.OnReturn != nil {
					ai.OnReturn(x, res, cur)
				}
				if memOut == nil {
					results, memOut = res, cur.mem
				} else {
					for i := range res {
						results[i] = join(results[i], res[i])
					}
					memOut = fr.joinMem(memOut, cur.mem)
				}
				dead = true
			case *ssa.Panic:
				ai.Panics = append(ai.Panics, ai.W.At(x))
				dead = true
				if fr.recovers() {
					m := cur.mem.clone()
					m["$panic"] = fr.get(cur, x.X)
					if ai.pend != nil {
						m = fr.joinMem(ai.pend, m)
					}
					ai.pend = m
				}
			default:
				if !fr.step(cur, ins) {
					dead = true
				}
			}
			if ai.pend != nil && fn.Recover != nil {
				// a panic unwinds to here: the deferred calls may recover it
				ps := cur.clone()
				ps.mem = ai.pend
				ai.pend = nil
				live := true
				for i := len(ps.defers) - 1; i >= 0 && live; i-- {
					_, live = fr.callInstr(ps, ps.defers[i])
				}
				ps.defers = nil
				if live {
					if _, still := ps.mem["$panic"]; still {
						if ai.pend != nil {
							ps.mem = fr.joinMem(ai.pend, ps.mem)
						}
						ai.pend = ps.mem
					} else {
						linear = false
						outs = append(outs, struct {
							to *ssa.BasicBlock
							st *aState
						}{fn.Recover, ps})
						recovered = true
					}
				}
			}
			if dead {
				break
			}
		}
		if dead {
			if !recovered {
				continue
			}
			k := 0
			for _, o := range outs {
				if o.to == fn.Recover {
					outs[k] = o
					k++
				}
			}
			outs = outs[:k]
		}
		if len(outs) != 1 {
			linear = false
		}
		for _, o := range outs {
			if o.st == nil {
				continue
			}
			counts := map[*ssa.BasicBlock]int{}
			for h, c := range n.counts {
				if fr.loops[h][o.to] {
					counts[h] = c
				}
			}
			if set := fr.loops[o.to]; set != nil {
				if set[n.b] && o.to.Dominates(n.b) { // back edge
					if counts[o.to] < ai.LoopBound {
						counts[o.to]++
					} else {
						ai.imprecise("loop bound reached in %s", fname(fn))
						linear = false
					}
				} else {
					counts[o.to] = 0
				}
			}
			t := node{o.to, counts}
			tk := nkey(t)
			ns := o.st
			if !linear {
				ns = ns.clone()
			}
			pi := -1
			for i, p := range o.to.Preds {
				if p == n.b {
					pi = i
				}
			}
			var phis []*ssa.Phi
			var vals []aVal
			for _, ins := range o.to.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, ph)
				vals = append(vals, fr.get(o.st, ph.Edges[pi]))
			}
			for i, ph := range phis {
				ns.env[ph] = vals[i]
			}
			old, seen := in[tk]
			if !seen {
				in[tk], nodes[tk] = ns, t
				push(tk)
				continue
			}
			if fr.joinInto(old, ns) {
				push(tk)
			}
		}
	}
	if memOut == nil {
		memOut = aMem{}
		results = nil
	}
	if results == nil && memOut != nil {
		n := fn.Signature.Results().Len()
		results = make([]aVal, n) // unreachable
	}
	return results, memOut
}

// recovers: a function being interpreted has deferred calls.
func (fr *aFrame) recovers() bool {
	for _, f := range fr.stack {
		if f.Recover != nil {
			return true
		}
	}
	return false
}

func (fr *aFrame) joinMem(a, b aMem) aMem {
	out := a.clone()
	for k, v := range b {
		if o, ok := out[k]; ok {
			out[k] = join(o, v)
		} else if isFresh(k) {
			// not allocated on the other path, or still zero there
			out[k] = joinZero(k, v, a)
		} else {
			out[k] = join(v, aSymV(k))
		}
	}
	for k, v := range a {
		if _, ok := b[k]; !ok {
			if isFresh(k) {
				out[k] = joinZero(k, v, b)
			} else {
				out[k] = join(v, aSymV(k))
			}
		}
	}
	return out
}

// joinZero: in other, the fresh location k has no entry; if its object exists
// there at all it holds a zero value, which we only know to be "zero".
func joinZero(k string, v aVal, other aMem) aVal {
	base := k
	if i := strings.IndexAny(k, ".["); i >= 0 {
		base = k[:i]
	}
	if _, ok := other["live:"+base]; !ok {
		return v
	}
	if e, ok := v.single(); ok && e.Kind == aConst {
		switch e.C.Kind() {
		case constant.Bool:
			return join(v, aBool(false))
		case constant.String:
			return join(v, aStr(""))
		case constant.Int:
			return join(v, aInt(0))
		}
		return aTop
	}
	allPtr := !v.Top
	for _, e := range v.Els {
		if e.Kind == aConst || e.Kind == aSym || e.Kind == aStruct {
			allPtr = false
		}
	}
	if allPtr {
		return join(v, aNilV)
	}
	return aTop
}

func isFresh(k string) bool { return strings.HasPrefix(k, "new:") || strings.HasPrefix(k, "live:") }

func (fr *aFrame) joinInto(old, ns *aState) bool {
	changed := false
	for k, v := range ns.env {
		if o, ok := old.env[k]; ok {
			j := join(o, v)
			if j.String() != o.String() {
				old.env[k] = j
				changed = true
			}
		} else {
			old.env[k] = v
			changed = true
		}
	}
	for k, v := range ns.tup {
		o, ok := old.tup[k]
		if !ok {
			old.tup[k] = v
			changed = true
			continue
		}
		nv := make([]aVal, len(v))
		diff := false
		for i := range v {
			if i < len(o) {
				nv[i] = join(o[i], v[i])
				if nv[i].String() != o[i].String() {
					diff = true
				}
			} else {
				nv[i] = v[i]
				diff = true
			}
		}
		if diff {
			old.tup[k] = nv
			changed = true
		}
	}
	m := fr.joinMem(old.mem, ns.mem)
	if len(m) != len(old.mem) {
		changed = true
	} else {
		for k, v := range m {
			if o, ok := old.mem[k]; !ok || o.String() != v.String() {
				changed = true
				break
			}
		}
	}
	old.mem = m
	if len(ns.defers) > len(old.defers) {
		old.defers = ns.defers
		changed = true
	}
	return changed
}

// refine narrows the state for the edge taken when cond has the given truth.
func (fr *aFrame) refine(st *aState, cond ssa.Value, truth bool) *aState {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return fr.refine(st, u.X, !truth)
	}
	ns := st
	if b, ok := cond.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
		want := (b.Op == token.EQL) == truth
		for _, pr := range [][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			xv, yv := fr.get(st, pr[0]), fr.get(st, pr[1])
			ye, ok := yv.single()
			if !ok || xv.Top || len(xv.Els) < 2 || (ye.Kind != aConst && ye.Kind != aNil) {
				continue
			}
			var keep []aElem
			for _, e := range xv.Els {
				eq, known := elemEq(e, ye)
				if known && eq != want {
					continue
				}
				keep = append(keep, e)
			}
			if len(keep) < len(xv.Els) {
				ns = ns.clone()
				if _, isC := pr[0].(*ssa.Const); !isC {
					ns.env[pr[0]] = aVal{Els: keep}
				}
				if len(keep) == 0 {
					return nil
				}
			}
		}
	}
	if _, isC := cond.(*ssa.Const); !isC {
		if ns == st {
			ns = ns.clone()
		}
		ns.env[cond] = aBool(truth)
	}
	return ns
}

// elemEq compares two elements: (equal, known).
func elemEq(a, b aElem) (bool, bool) {
	if a.Kind == aNil && b.Kind == aNil {
		return true, true
	}
	ptr := func(k aKind) bool { return k == aAddr || k == aSlice || k == aFunc || k == aMap }
	if a.Kind == aNil && ptr(b.Kind) || b.Kind == aNil && ptr(a.Kind) {
		return false, true
	}
	if (a.Kind == aNil && b.Kind == aConst) || (b.Kind == aNil && a.Kind == aConst) {
		return false, true
	}
	if a.Kind == aConst && b.Kind == aConst {
		if a.C.Kind() == b.C.Kind() {
			return constant.Compare(a.C, token.EQL, b.C), true
		}
		return false, false
	}
	if a.Kind == aAddr && b.Kind == aAddr {
		return a.Key == b.Key, true
	}
	if a.Kind == aSym && b.Kind == aSym && a.Key == b.Key {
		return true, true
	}
	if a.Kind == aStruct && b.Kind == aStruct && len(a.Flds) > 0 && len(a.Flds) == len(b.Flds) {
		all := true
		for k, v := range a.Flds {
			x, ok1 := v.single()
			y, ok2 := b.Flds[k].single()
			if !ok1 || !ok2 {
				all = false
				continue
			}
			eq, known := elemEq(x, y)
			if known && !eq {
				return false, true
			}
			all = all && known
		}
		return all, all
	}
	return false, false
}

func (fr *aFrame) get(st *aState, v ssa.Value) aVal {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			switch x.Type().Underlying().(type) {
			case *types.Struct, *types.Array:
				return zeroOf(x.Type())
			}
			return aNilV
		}
		e := aElem{Kind: aConst, Key: x.Value.ExactString(), C: x.Value}
		if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			e.C = constant.ToFloat(x.Value)
			e.Key = "f" + e.C.ExactString()
		}
		return one(e)
	case *ssa.Function:
		return one(aElem{Kind: aFunc, Key: fname(x), Fn: x})
	case *ssa.Global:
		return one(aElem{Kind: aAddr, Key: "g:" + x.RelString(nil)})
	case *ssa.Builtin:
		return aSymV("builtin:" + x.Name())
	}
	if r, ok := st.env[v]; ok {
		return r
	}
	return aTop
}

func zeroOf(t types.Type) aVal {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return aBool(false)
		case u.Info()&types.IsString != 0:
			return aStr("")
		case u.Info()&types.IsFloat != 0:
			c := constant.ToFloat(constant.MakeInt64(0))
			return one(aElem{Kind: aConst, Key: "f0", C: c})
		case u.Info()&types.IsNumeric != 0:
			return aInt(0)
		}
		return aNilV
	case *types.Struct:
		f := map[string]aVal{}
		var ks []string
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			f[n] = zeroOf(u.Field(i).Type())
			ks = append(ks, n+"="+f[n].key())
		}
		return one(aElem{Kind: aStruct, Key: strings.Join(ks, ","), Flds: f})
	case *types.Array:
		return aTop
	}
	return aNilV
}

func mkStruct(f map[string]aVal) aVal {
	var ks []string
	for n := range f {
		ks = append(ks, n+"="+f[n].String())
	}
	sort.Strings(ks)
	return one(aElem{Kind: aStruct, Key: strings.Join(ks, ","), Flds: f})
}

// load reads a location of the given type.
func (fr *aFrame) load(st *aState, loc string, t types.Type) aVal { return aiLoad(st, loc, t) }

func aiLoad(st *aState, loc string, t types.Type) aVal {
	if s, ok := t.Underlying().(*types.Struct); ok {
		if isNamed(t, "math/big", "Int") || isNamed(t, "math/big", "Float") {
			if v, ok := st.mem[loc]; ok {
				return v
			}
			return aSymV(loc)
		}
		f := map[string]aVal{}
		for i := 0; i < s.NumFields(); i++ {
			f[s.Field(i).Name()] = aiLoad(st, loc+"."+s.Field(i).Name(), s.Field(i).Type())
		}
		return mkStruct(f)
	}
	if v, ok := st.mem[loc]; ok {
		return v
	}
	if i := strings.LastIndexByte(loc, '['); i >= 0 && strings.HasSuffix(loc, "]") {
		// a summary of all elements, given by the caller
		if v, ok := st.mem[loc[:i]+"[*]"]; ok {
			return v
		}
		// an element: unknown index reads everything, known index may have
		// been written by an unknown one
		if loc[i:] == "[?]" {
			v := aVal{}
			n := 0
			for k, x := range st.mem {
				if strings.HasPrefix(k, loc[:i]+"[") && strings.HasSuffix(k, "]") && !strings.ContainsAny(k[i+1:], ".[") {
					v = join(v, x)
					n++
				}
			}
			if n > 0 {
				return v
			}
		} else if v, ok := st.mem[loc[:i]+"[?]"]; ok {
			return join(v, defaultAt(loc, t))
		}
	}
	return defaultAt(loc, t)
}

func defaultAt(loc string, t types.Type) aVal {
	if isFresh(loc) {
		return zeroOf(t)
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		return one(aElem{Kind: aAddr, Key: loc + "^"})
	case *types.Slice:
		return one(aElem{Kind: aSlice, Key: loc + "#", Base: loc + "#", N: -1})
	case *types.Map:
		return one(aElem{Kind: aMap, Key: loc + "{}"})
	}
	return aSymV(loc)
}

func (fr *aFrame) store(st *aState, in ssa.Instruction, addr aVal, v aVal, t types.Type) {
	if addr.Top {
		fr.ai.imprecise("store through unknown address at %s", fr.ai.W.At(in))
		return
	}
	strong := len(addr.Els) == 1
	for _, a := range addr.Els {
		if a.Kind != aAddr && a.Kind != aSym {
			continue
		}
		if fr.ai.OnStore != nil {
			fr.ai.OnStore(in, a.Key, v, st)
		}
		aiStore(st, a.Key, v, t, strong)
	}
}

func aiStore(st *aState, loc string, v aVal, t types.Type, strong bool) {
	if s, ok := t.Underlying().(*types.Struct); ok && !isNamed(t, "math/big", "Int") && !isNamed(t, "math/big", "Float") {
		for i := 0; i < s.NumFields(); i++ {
			n := s.Field(i).Name()
			fv := aVal{}
			if v.Top {
				fv = aTop
			}
			for _, e := range v.Els {
				if e.Kind == aStruct {
					fv = join(fv, e.Flds[n])
				} else if e.Kind == aSym {
					fv = join(fv, defaultAt(e.Key+"."+n, s.Field(i).Type()))
				} else {
					fv = aTop
				}
			}
			aiStore(st, loc+"."+n, fv, s.Field(i).Type(), strong)
		}
		return
	}
	if strings.HasSuffix(loc, "[?]") {
		base := loc[:len(loc)-2]
		for k, x := range st.mem {
			if strings.HasPrefix(k, base) && strings.HasSuffix(k, "]") {
				st.mem[k] = join(x, v)
			}
		}
		if o, ok := st.mem[loc]; ok {
			v = join(o, v)
		}
		st.mem[loc] = v
		return
	}
	if strong {
		st.mem[loc] = v
		return
	}
	st.mem[loc] = join(aiLoad(st, loc, t), v)
}

func fieldName(t types.Type, i int) (string, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	return s.Field(i).Name(), s.Field(i).Type()
}

func (fr *aFrame) freshName(in ssa.Value) string {
	n := "new:" + fr.ctx + "/" + in.Name() + "@" + strings.ReplaceAll(fr.part, ".", "_")
	return n
}

// step interprets one ordinary instruction; false ends the path.
func (fr *aFrame) step(st *aState, ins ssa.Instruction) bool {
	ai := fr.ai
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		n := fr.freshName(x)
		// a new object: forget what an earlier one of this name held
		for k := range st.mem {
			if _, again := st.mem["live:"+n]; !again {
				break
			}
			if k == n || strings.HasPrefix(k, n+".") || strings.HasPrefix(k, n+"[") {
				delete(st.mem, k)
			}
		}
		st.mem["live:"+n] = aBool(true)
		st.env[x] = one(aElem{Kind: aAddr, Key: n})
	case *ssa.BinOp:
		st.env[x] = fr.binop(x.Op, fr.get(st, x.X), fr.get(st, x.Y), x.Type())
	case *ssa.UnOp:
		v := fr.get(st, x.X)
		switch x.Op {
		case token.MUL:
			if v.Top {
				st.env[x] = aTop
				break
			}
			r := aVal{}
			for _, e := range v.Els {
				if e.Kind == aNil {
					continue
				}
				if e.Kind == aAddr || e.Kind == aSym {
					r = join(r, fr.load(st, e.Key, x.Type()))
				} else {
					r = aTop
				}
			}
			if !r.Top && len(r.Els) == 0 {
				return false // nil dereference
			}
			st.env[x] = r
		case token.NOT:
			if b, ok := v.boolean(); ok {
				st.env[x] = aBool(!b)
			} else if e, ok := v.single(); ok && e.Kind == aSym {
				st.env[x] = aSymV("!" + e.Key)
			} else {
				st.env[x] = aTop
			}
		case token.SUB:
			if c, ok := v.constant(); ok {
				st.env[x] = aC(constant.UnaryOp(token.SUB, c, 0))
			} else if !v.Top {
				st.env[x] = mapEls(v, func(e aElem) aVal {
					if e.Kind == aConst {
						return aC(constant.UnaryOp(token.SUB, e.C, 0))
					}
					return aSymV("-" + e.Key)
				})
			} else {
				st.env[x] = aTop
			}
		case token.ARROW:
			st.env[x] = aTop
			if e, ok := v.single(); ok && fr.ai.Recv != nil {
				if r, more, ok := fr.ai.Recv(e, st); ok {
					st.env[x] = r
					if x.CommaOk {
						st.tup[x] = []aVal{r, more}
					}
				}
			}
		default:
			st.env[x] = aTop
		}
	case *ssa.Store:
		fr.store(st, x, fr.get(st, x.Addr), fr.get(st, x.Val), x.Val.Type())
	case *ssa.FieldAddr:
		name, _ := fieldName(x.X.Type(), x.Field)
		st.env[x] = mapAddr(fr.get(st, x.X), func(k string) string { return k + "." + name })
	case *ssa.Field:
		name, ft := fieldName(x.X.Type(), x.Field)
		v := fr.get(st, x.X)
		if v.Top {
			st.env[x] = aTop
			break
		}
		r := aVal{}
		for _, e := range v.Els {
			if e.Kind == aStruct {
				r = join(r, e.Flds[name])
			} else {
				r = join(r, defaultAt(e.Key+"."+name, ft))
			}
		}
		st.env[x] = r
	case *ssa.IndexAddr:
		st.env[x] = fr.indexAddr(st, fr.get(st, x.X), fr.get(st, x.Index))
	case *ssa.Index:
		v, i := fr.get(st, x.X), fr.get(st, x.Index)
		if s, ok := v.str(); ok {
			if n, ok := i.integer(); ok && n >= 0 && n < len(s) {
				st.env[x] = aInt(int64(s[n]))
				break
			}
		}
		if v.Top {
			st.env[x] = aTop
			break
		}
		st.env[x] = aSymV(v.key() + "[" + i.key() + "]")
	case *ssa.Lookup:
		fr.lookup(st, x)
	case *ssa.MapUpdate:
		m, k, v := fr.get(st, x.Map), fr.get(st, x.Key), fr.get(st, x.Value)
		for _, e := range m.Els {
			if e.Kind != aMap {
				continue
			}
			if ke, ok := k.single(); ok && (ke.Kind == aConst || ke.Kind == aStruct || ke.Kind == aSym) {
				st.mem[e.Key+"{"+ke.Key+"}"] = v
				if ai.mapKeys == nil {
					ai.mapKeys = map[string]aElem{}
				}
				ai.mapKeys[e.Key+"{"+ke.Key+"}"] = ke
			} else {
				st.mem[e.Key+"{?}"] = aTop
			}
		}
	case *ssa.MakeMap:
		n := fr.freshName(x)
		// a new map: forget what an earlier one of this name held
		if _, again := st.mem["live:"+n]; again {
			for k := range st.mem {
				if strings.HasPrefix(k, n+"{}{") {
					delete(st.mem, k)
				}
			}
		}
		st.mem["live:"+n] = aBool(true)
		st.env[x] = one(aElem{Kind: aMap, Key: n + "{}"})
	case *ssa.MakeSlice:
		n := fr.freshName(x)
		st.mem["live:"+n] = aBool(true)
		l := -1
		if c, ok := fr.get(st, x.Len).integer(); ok {
			l = c
		}
		st.env[x] = one(aElem{Kind: aSlice, Key: fmt.Sprintf("%s@0#%d", n, l), Base: n, N: l})
	case *ssa.Slice:
		st.env[x] = fr.slice(st, x)
	case *ssa.MakeClosure:
		var b []aVal
		var ks []string
		for _, v := range x.Bindings {
			bv := fr.get(st, v)
			b = append(b, bv)
			ks = append(ks, bv.key())
		}
		st.env[x] = one(aElem{Kind: aFunc, Key: fname(x.Fn.(*ssa.Function)) + "<" + strings.Join(ks, ",") + ">", Fn: x.Fn.(*ssa.Function), Bind: b})
	case *ssa.MakeInterface:
		t := x.X.Type()
		v := fr.get(st, x.X)
		if v.Top {
			v = one(aElem{Kind: aSym, Key: "⊤"})
		}
		out := aVal{}
		for _, e := range v.Els {
			if e.Kind == aNil {
				e.Key = "typednil"
				e.Kind = aSym
			}
			e.Typ = t
			out.Els = append(out.Els, e)
		}
		st.env[x] = out
	case *ssa.ChangeInterface:
		st.env[x] = fr.get(st, x.X)
	case *ssa.ChangeType:
		st.env[x] = fr.get(st, x.X)
	case *ssa.Convert:
		v := fr.get(st, x.X)
		if r, ok := fr.convertText(st, x, v); ok {
			st.env[x] = r
			break
		}
		st.env[x] = convert(v, x.X.Type(), x.Type())
	case *ssa.TypeAssert:
		fr.typeAssert(st, x)
	case *ssa.Extract:
		if t, ok := st.tup[x.Tuple]; ok && x.Index < len(t) {
			st.env[x] = t[x.Index]
		} else {
			st.env[x] = aTop
		}
	case *ssa.Call:
		res, live := fr.callInstr(st, x)
		if !live {
			return false
		}
		if n := x.Call.Signature().Results().Len(); n == 1 {
			st.env[x] = res[0]
		} else if n > 1 {
			st.tup[x] = res
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			_ = b
			if len(res) == 1 {
				st.env[x] = res[0]
			}
		}
	case *ssa.Defer:
		st.defers = append(st.defers, x)
	case *ssa.RunDefers:
		for i := len(st.defers) - 1; i >= 0; i-- {
			if _, live := fr.callInstr(st, st.defers[i]); !live {
				return false
			}
		}
		st.defers = nil
	case *ssa.Range:
		v := fr.get(st, x.X)
		st.env[x] = v
		if _, ok := v.str(); ok {
			st.mem["iter:"+fr.freshName(x)] = aInt(0)
			st.mem["itername:"+fr.ctx+"/"+x.Name()] = aStr(fr.freshName(x))
		}
		if ks, ok := fr.knownKeys(st, v); ok {
			f := map[string]aVal{}
			for i, k := range ks {
				f[fmt.Sprint(i)] = one(k)
			}
			nm := fr.freshName(x)
			st.mem["iter:"+nm] = aInt(0)
			st.mem["iterkeys:"+nm] = one(aElem{Kind: aStruct, Key: fmt.Sprint(len(ks)) + nm, Flds: f})
			st.mem["itername:"+fr.ctx+"/"+x.Name()] = aStr(nm)
		} else if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			delete(st.mem, "itername:"+fr.ctx+"/"+x.Name())
		}
	case *ssa.Next:
		v := fr.get(st, x.Iter)
		if _, isMap := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); isMap {
			// ranging over a nil map visits nothing
			if e, ok := v.single(); ok && e.Kind == aNil {
				st.tup[x] = []aVal{aBool(false), aTop, aTop}
				break
			}
		}
		if e, ok := v.single(); ok && e.Kind == aMap {
			if nv, ok := st.mem["itername:"+fr.ctx+"/"+x.Iter.Name()]; ok {
				nm, _ := nv.str()
				ks, ok1 := st.mem["iterkeys:"+nm].single()
				pos, ok2 := st.mem["iter:"+nm].integer()
				if ok1 && ok2 {
					if pos >= len(ks.Flds) {
						st.tup[x] = []aVal{aBool(false), aTop, aTop}
					} else {
						k := ks.Flds[fmt.Sprint(pos)]
						ke, _ := k.single()
						st.tup[x] = []aVal{aBool(true), k, st.mem[e.Key+"{"+ke.Key+"}"]}
						st.mem["iter:"+nm] = aInt(int64(pos + 1))
					}
					break
				}
			}
		}
		if s, ok := v.str(); ok {
			nm, _ := st.mem["itername:"+fr.ctx+"/"+x.Iter.Name()].str()
			pos, ok := st.mem["iter:"+nm].integer()
			if ok {
				if pos >= len(s) {
					st.tup[x] = []aVal{aBool(false), aInt(0), aInt(0)}
				} else {
					rn, sz := utf8.DecodeRuneInString(s[pos:])
					st.tup[x] = []aVal{aBool(true), aInt(int64(pos)), aInt(int64(rn))}
					st.mem["iter:"+nm] = aInt(int64(pos + sz))
				}
				break
			}
		}
		if e, ok := v.single(); ok && e.Kind == aMap {
			// keys in unknown order
			kv, vv := aVal{}, aVal{}
			for k, val := range st.mem {
				if strings.HasPrefix(k, e.Key+"{") {
					kv = aTop
					vv = join(vv, val)
				}
			}
			if len(vv.Els) == 0 && !vv.Top && isFresh(e.Key) {
				st.tup[x] = []aVal{aBool(false), aTop, aTop}
				break
			}
			st.tup[x] = []aVal{aSymV("more:" + e.Key), kv, vv}
			break
		}
		st.tup[x] = []aVal{aTop, aTop, aTop}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		ai.imprecise("concurrency at %s", ai.W.At(ins))
		if v, ok := ins.(ssa.Value); ok {
			st.env[v] = aTop
		}
	default:
		if v, ok := ins.(ssa.Value); ok {
			st.env[v] = aTop
		}
	}
	return true
}

func mapEls(v aVal, f func(aElem) aVal) aVal {
	if v.Top {
		return aTop
	}
	r := aVal{}
	for _, e := range v.Els {
		r = join(r, f(e))
	}
	return r
}

func mapAddr(v aVal, f func(string) string) aVal {
	if v.Top {
		return aTop
	}
	r := aVal{}
	for _, e := range v.Els {
		if e.Kind == aAddr || e.Kind == aSym {
			r = join(r, one(aElem{Kind: aAddr, Key: f(e.Key)}))
		}
	}
	return r
}

func (fr *aFrame) indexAddr(st *aState, s, i aVal) aVal {
	if s.Top {
		return aTop
	}
	r := aVal{}
	for _, e := range s.Els {
		var base string
		lo, n := 0, -1
		switch e.Kind {
		case aSlice:
			base, lo, n = e.Base, e.Lo, e.N
		case aAddr: // array
			base = e.Key
		default:
			continue
		}
		if i.Top {
			r = join(r, one(aElem{Kind: aAddr, Key: base + "[?]"}))
			continue
		}
		for _, ie := range i.Els {
			if ie.Kind == aConst {
				k, _ := constant.Int64Val(ie.C)
				if n >= 0 && (int(k) >= n || k < 0) {
					fr.ai.Panics = append(fr.ai.Panics, "index out of range")
					continue
				}
				r = join(r, one(aElem{Kind: aAddr, Key: fmt.Sprintf("%s[%d]", base, lo+int(k))}))
			} else if lo == 0 {
				r = join(r, one(aElem{Kind: aAddr, Key: base + "[" + ie.Key + "]"}))
			} else {
				r = join(r, one(aElem{Kind: aAddr, Key: fmt.Sprintf("%s[%d+%s]", base, lo, ie.Key)}))
			}
		}
	}
	return r
}

func (fr *aFrame) slice(st *aState, x *ssa.Slice) aVal {
	v := fr.get(st, x.X)
	if v.Top {
		return aTop
	}
	lo, hi := 0, -1
	loKnown, hiKnown := true, false
	if x.Low != nil {
		lo, loKnown = fr.get(st, x.Low).integer()
	}
	if x.High != nil {
		hi, hiKnown = fr.get(st, x.High).integer()
	}
	return mapEls(v, func(e aElem) aVal {
		switch e.Kind {
		case aConst: // string
			s := constant.StringVal(e.C)
			if x.High == nil {
				hi, hiKnown = len(s), true
			}
			if loKnown && hiKnown && lo >= 0 && lo <= hi && hi <= len(s) {
				return aStr(s[lo:hi])
			}
			return aSymV(fmt.Sprintf("slice(%s)", e.Key))
		case aSym:
			lk, hk := "0", ""
			if x.Low != nil {
				lk = fr.get(st, x.Low).key()
			}
			if x.High != nil {
				hk = fr.get(st, x.High).key()
			}
			return aSymV(e.Key + "[" + lk + ":" + hk + "]")
		case aSlice:
			n := e.N
			nl := e.Lo + lo
			if x.High != nil {
				if !hiKnown {
					n = -1
				} else {
					n = hi - lo
				}
			} else if n >= 0 {
				n -= lo
			}
			if !loKnown {
				return one(aElem{Kind: aSlice, Key: e.Base + "[?:]", Base: e.Base + "?", N: -1})
			}
			if n < -1 {
				return aVal{}
			}
			if lenKnown, ok := st.mem["len:"+e.Base]; ok && e.N < 0 && x.High == nil {
				if k, ok := lenKnown.integer(); ok {
					n = k - nl
				}
			}
			return one(aElem{Kind: aSlice, Key: fmt.Sprintf("%s@%d#%d", e.Base, nl, n), Base: e.Base, Lo: nl, N: n})
		case aAddr: // array pointer
			at, ok := x.X.Type().Underlying().(*types.Pointer)
			if !ok {
				return aTop
			}
			arr, ok := at.Elem().Underlying().(*types.Array)
			if !ok {
				return aTop
			}
			n := int(arr.Len()) - lo
			if x.High != nil {
				if !hiKnown {
					n = -1
				} else {
					n = hi - lo
				}
			}
			return one(aElem{Kind: aSlice, Key: fmt.Sprintf("%s@%d#%d", e.Key, lo, n), Base: e.Key, Lo: lo, N: n})
		case aNil:
			return one(aElem{Kind: aNil, Key: "nil"})
		}
		return aTop
	})
}

// textSlice tells if the type is []byte ('b') or []rune ('r').
func textSlice(t types.Type) byte {
	if s, ok := t.Underlying().(*types.Slice); ok {
		if b, ok := s.Elem().Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Byte:
				return 'b'
			case types.Rune:
				return 'r'
			}
		}
	}
	return 0
}

// convertText converts known text to bytes or runes and back.
func (fr *aFrame) convertText(st *aState, x *ssa.Convert, v aVal) (aVal, bool) {
	isText := func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	if s, ok := v.str(); ok && isText(x.X.Type()) && len(s) < 100 {
		var els []int64
		switch textSlice(x.Type()) {
		case 'b':
			for _, c := range []byte(s) {
				els = append(els, int64(c))
			}
		case 'r':
			for _, c := range s {
				els = append(els, int64(c))
			}
		default:
			return aVal{}, false
		}
		n := fr.freshName(x)
		st.mem["live:"+n] = aBool(true)
		for i, c := range els {
			st.mem[fmt.Sprintf("%s[%d]", n, i)] = aInt(c)
		}
		return one(aElem{Kind: aSlice, Key: fmt.Sprintf("%s@0#%d", n, len(els)), Base: n, N: len(els)}), true
	}
	if isText(x.Type()) {
		if k := textSlice(x.X.Type()); k != 0 {
			if s, ok := textOf(st, v, k); ok {
				return aStr(s), true
			}
		} else if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if n, ok := v.integer(); ok {
				return aStr(string(rune(n))), true
			}
		}
	}
	return aVal{}, false
}

// textOf is the text that a slice of bytes or runes holds.
func textOf(st *aState, v aVal, kind byte) (string, bool) {
	if s, ok := v.str(); ok {
		return s, true
	}
	e, ok := v.single()
	if !ok || e.Kind != aSlice && e.Kind != aNil {
		return "", false
	}
	n := sliceLen(st, e)
	if n < 0 {
		return "", false
	}
	var b []byte
	for i := 0; i < n; i++ {
		c, ok := st.mem[fmt.Sprintf("%s[%d]", e.Base, e.Lo+i)].integer()
		if !ok {
			return "", false
		}
		if kind == 'b' {
			b = append(b, byte(c))
		} else {
			b = append(b, string(rune(c))...)
		}
	}
	return string(b), true
}

func convert(v aVal, from, to types.Type) aVal {
	return mapEls(v, func(e aElem) aVal {
		fb, fok := from.Underlying().(*types.Basic)
		tb, tok := to.Underlying().(*types.Basic)
		if e.Kind == aConst && fok && tok {
			switch {
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				return aC(wrapInt(e.C, to))
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
				c := constant.ToFloat(e.C)
				return one(aElem{Kind: aConst, Key: "f" + c.ExactString(), C: c})
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return one(e)
			}
		}
		if e.Kind == aSym && fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return one(e)
		}
		if e.Kind == aNil {
			return one(e)
		}
		return aSymV("conv<" + types.TypeString(to, nil) + ">(" + e.Key + ")")
	})
}

// wrapInt reduces an integer constant to the range of its type.
func wrapInt(c constant.Value, t types.Type) constant.Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || c.Kind() != constant.Int {
		return c
	}
	bits := map[types.BasicKind]uint{types.Int: 64, types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64,
		types.Uint: 64, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uintptr: 64}[b.Kind()]
	if bits == 0 {
		return c
	}
	n, ok := new(big.Int).SetString(c.ExactString(), 10)
	if !ok {
		return c
	}
	m := new(big.Int).Lsh(big.NewInt(1), bits)
	n.Mod(n, m)
	if b.Info()&types.IsUnsigned == 0 && n.Cmp(new(big.Int).Rsh(m, 1)) >= 0 {
		n.Sub(n, m)
	}
	return mkInt(n)
}

func (fr *aFrame) lookup(st *aState, x *ssa.Lookup) {
	m, k := fr.get(st, x.X), fr.get(st, x.Index)
	if s, ok := m.str(); ok {
		if i, ok := k.integer(); ok && i >= 0 && i < len(s) {
			st.env[x] = aInt(int64(s[i]))
			return
		}
	}
	mt, isMap := x.X.Type().Underlying().(*types.Map)
	if !isMap {
		if m.Top {
			st.env[x] = aTop
		} else {
			st.env[x] = aSymV(m.key() + "[" + k.key() + "]")
		}
		return
	}
	val, okv := aVal{}, aVal{}
	if m.Top {
		val, okv = aTop, aTop
	}
	for _, e := range m.Els {
		switch e.Kind {
		case aNil:
			val, okv = join(val, zeroOf(mt.Elem())), join(okv, aBool(false))
		case aMap:
			ke, single := k.single()
			if single && (ke.Kind == aConst || ke.Kind == aStruct || ke.Kind == aSym) {
				if v, ok := st.mem[e.Key+"{"+ke.Key+"}"]; ok {
					val, okv = join(val, v), join(okv, aBool(true))
					continue
				}
				_, unknownWrites := st.mem[e.Key+"{?}"]
				if constKey(ke) && isFresh(e.Key) && !unknownWrites {
					val, okv = join(val, zeroOf(mt.Elem())), join(okv, aBool(false))
					continue
				}
				if ke.Kind == aSym && isFresh(e.Key) && !unknownWrites {
					val = join(val, zeroOf(mt.Elem()))
					for kk, v := range st.mem {
						if strings.HasPrefix(kk, e.Key+"{") {
							val = join(val, v)
						}
					}
					okv = join(okv, aSymV("has("+e.Key+","+ke.Key+")"))
					continue
				}
				val = join(val, defaultAt(e.Key+"{"+ke.Key+"}", mt.Elem()))
				okv = join(okv, aSymV("has("+e.Key+","+ke.Key+")"))
				continue
			}
			val, okv = aTop, aTop
		default:
			val = join(val, aSymV(e.Key+"{"+k.key()+"}"))
			okv = join(okv, aSymV("has("+e.Key+","+k.key()+")"))
		}
	}
	if x.CommaOk {
		st.tup[x] = []aVal{val, okv}
	} else {
		st.env[x] = val
	}
}

// constKey: the map key is a constant in all its parts.
func constKey(e aElem) bool {
	if e.Kind == aStruct {
		for _, v := range e.Flds {
			f, ok := v.single()
			if !ok || !constKey(f) {
				return false
			}
		}
		return true
	}
	return e.Kind == aConst
}

func (fr *aFrame) typeAssert(st *aState, x *ssa.TypeAssert) {
	v := fr.get(st, x.X)
	val, ok := aVal{}, aVal{}
	zero := zeroOf(x.AssertedType)
	if v.Top {
		val, ok = aTop, aTop
	}
	for _, e := range v.Els {
		if e.Kind == aNil {
			val, ok = join(val, zero), join(ok, aBool(false))
			continue
		}
		if e.Typ == nil {
			// unknown dynamic type
			ok = join(ok, aSymV(fmt.Sprintf("is<%s>(%s)", types.TypeString(x.AssertedType, nil), e.Key)))
			val = join(val, one(aElem{Kind: aAddr, Key: e.Key}))
			if x.CommaOk {
				val = join(val, zero)
			}
			continue
		}
		yes := false
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			yes = types.Implements(e.Typ, it)
		} else {
			yes = types.Identical(e.Typ, x.AssertedType)
		}
		if yes {
			if _, isI := x.AssertedType.Underlying().(*types.Interface); !isI {
				if e.Kind != aAddr {
					e.Typ = nil
				}
			}
			val, ok = join(val, one(e)), join(ok, aBool(true))
		} else {
			val, ok = join(val, zero), join(ok, aBool(false))
		}
	}
	if x.CommaOk {
		st.tup[x] = []aVal{val, ok}
	} else {
		st.env[x] = val
	}
}

func (fr *aFrame) binop(op token.Token, a, b aVal, t types.Type) aVal {
	if a.Top || b.Top {
		return aTop
	}
	r := aVal{}
	for _, x := range a.Els {
		for _, y := range b.Els {
			r = join(r, binElem(op, x, y, t))
		}
	}
	return r
}

func binElem(op token.Token, x, y aElem, t types.Type) aVal {
	switch op {
	case token.EQL, token.NEQ:
		if eq, known := elemEq(x, y); known {
			return aBool(eq == (op == token.EQL))
		}
	}
	if x.Kind == aConst && y.Kind == aConst && x.C.Kind() != constant.Unknown {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.C.Kind() == y.C.Kind() || (x.C.Kind() != constant.String && y.C.Kind() != constant.String) {
				return aBool(constant.Compare(x.C, op, y.C))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
			c := constant.BinaryOp(x.C, op, y.C)
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				c = constant.ToFloat(c)
				return one(aElem{Kind: aConst, Key: "f" + c.ExactString(), C: c})
			}
			return aC(wrapInt(c, t))
		case token.QUO:
			if constant.Sign(y.C) != 0 {
				o := op
				if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					o = token.QUO_ASSIGN
				}
				return aC(constant.BinaryOp(x.C, o, y.C))
			}
		case token.REM:
			if constant.Sign(y.C) != 0 {
				return aC(constant.BinaryOp(x.C, op, y.C))
			}
		}
	}
	if x.Kind == aSym && y.Kind == aSym && x.Key == y.Key {
		switch op {
		case token.LEQ, token.GEQ:
			return aBool(true)
		case token.LSS, token.GTR:
			return aBool(false)
		}
	}
	kx, ky := x.Key, y.Key
	switch op { // normalise
	case token.GTR:
		op, kx, ky = token.LSS, ky, kx
	case token.GEQ:
		op, kx, ky = token.LEQ, ky, kx
	case token.NEQ:
		if kx > ky {
			kx, ky = ky, kx
		}
		return aSymV("!(" + kx + "==" + ky + ")")
	case token.EQL:
		if kx > ky {
			kx, ky = ky, kx
		}
	}
	return aSymV("(" + kx + op.String() + ky + ")")
}

// callInstr interprets a call; live=false when it does not return.
func (fr *aFrame) callInstr(st *aState, call ssa.CallInstruction) ([]aVal, bool) {
	ai := fr.ai
	c := call.Common()
	var args []aVal
	if c.IsInvoke() {
		args = append(args, fr.get(st, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, fr.get(st, a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fr.builtin(st, call, b, args), true
	}
	nres := c.Signature().Results().Len()
	if c.IsInvoke() {
		if ai.Hook != nil {
			if res, ok := ai.Hook(ai, fr, call, nil, args, st); ok {
				return res, true
			}
		}
		recv := args[0]
		if recv.Top {
			ai.imprecise("call of %s on unknown receiver", c.Method.Name())
			return tops(nres), true
		}
		var res []aVal
		var outMem aMem
		base := st.mem
		any := false
		for _, e := range recv.Els {
			if e.Kind == aNil {
				continue
			}
			any = true
			var r []aVal
			m := base.clone()
			if e.Typ != nil {
				fn := ai.W.Prog.LookupMethod(e.Typ, c.Method.Pkg(), c.Method.Name())
				if fn == nil {
					return tops(nres), true
				}
				a2 := append([]aVal{}, args...)
				a2[0] = one(e)
				tmp := &aState{env: st.env, tup: st.tup, mem: m}
				var live bool
				r, live = fr.invoke(tmp, call, unthunkRecv(fn), a2, nil)
				if !live {
					continue
				}
				m = tmp.mem
			} else {
				for i := 0; i < nres; i++ {
					var ks []string
					for _, a := range args[1:] {
						ks = append(ks, a.key())
					}
					r = append(r, symResult(e.Key+"."+c.Method.Name()+"("+strings.Join(ks, ",")+")", i, nres, c.Signature().Results().At(i).Type()))
				}
			}
			if outMem == nil {
				res, outMem = r, m
			} else {
				for i := range r {
					res[i] = join(res[i], r[i])
				}
				outMem = fr.joinMem(outMem, m)
			}
		}
		if !any || outMem == nil {
			return nil, false
		}
		st.mem = outMem
		return res, true
	}
	fv := fr.get(st, c.Value)
	if fn := c.StaticCallee(); fn != nil {
		var bind []aVal
		if e, ok := fv.single(); ok && e.Kind == aFunc {
			bind = e.Bind
		}
		return fr.invoke(st, call, fn, args, bind)
	}
	if e, ok := fv.single(); ok && e.Kind == aFunc {
		return fr.invoke(st, call, e.Fn, args, e.Bind)
	}
	if ai.Hook != nil {
		if res, ok := ai.Hook(ai, fr, call, nil, args, st); ok {
			return res, true
		}
	}
	if !fv.Top && len(fv.Els) > 0 {
		allFn := true
		for _, e := range fv.Els {
			if e.Kind != aFunc {
				allFn = false
			}
		}
		if allFn {
			var res []aVal
			var outMem aMem
			for _, e := range fv.Els {
				tmp := &aState{env: st.env, tup: st.tup, mem: st.mem.clone()}
				r, live := fr.invoke(tmp, call, e.Fn, args, e.Bind)
				if !live {
					continue
				}
				if outMem == nil {
					res, outMem = r, tmp.mem
				} else {
					for i := range r {
						res[i] = join(res[i], r[i])
					}
					outMem = fr.joinMem(outMem, tmp.mem)
				}
			}
			if outMem == nil {
				return nil, false
			}
			st.mem = outMem
			return res, true
		}
		if e, ok := fv.single(); ok && e.Kind == aSym {
			var ks []string
			for _, a := range args {
				ks = append(ks, a.key())
			}
			var out []aVal
			for i := 0; i < nres; i++ {
				out = append(out, symResult(e.Key+"("+strings.Join(ks, ",")+")", i, nres, c.Signature().Results().At(i).Type()))
			}
			return out, true
		}
	}
	ai.imprecise("call of unknown function at %s", ai.W.At(call))
	return tops(nres), true
}

func unthunkRecv(f *ssa.Function) *ssa.Function { return f }

func tops(n int) []aVal {
	out := make([]aVal, n)
	for i := range out {
		out[i] = aTop
	}
	return out
}

// symResult names a result of an uninterpreted call.
func symResult(key string, i, n int, t types.Type) aVal {
	if n > 1 {
		key = fmt.Sprintf("%s#%d", key, i)
	}
	switch t.Underlying().(type) {
	case *types.Pointer:
		return one(aElem{Kind: aAddr, Key: key})
	case *types.Slice:
		return one(aElem{Kind: aSlice, Key: key + "#", Base: key + "#", N: -1})
	case *types.Map:
		return one(aElem{Kind: aMap, Key: key + "{}"})
	}
	return aSymV(key)
}

func (fr *aFrame) invoke(st *aState, call ssa.CallInstruction, fn *ssa.Function, args, bind []aVal) ([]aVal, bool) {
	ai := fr.ai
	if ai.Hook != nil {
		if res, ok := ai.Hook(ai, fr, call, fn, args, st); ok {
			return res, true
		}
	}
	nres := fn.Signature.Results().Len()
	if res, ok := fr.intrinsic(st, call, fn, args); ok {
		return res, true
	}
	rec := 0
	for _, s := range fr.stack {
		if s == fn {
			rec++
		}
	}
	inline := len(fn.Blocks) > 0 && (ai.W.inScope[fn] || fn.Synthetic != "" || (ai.Inline != nil && ai.Inline(fn)))
	if inline && rec < 24 && fr.depth < 40 {
		ctx := fmt.Sprintf("%s/%s", fr.ctx, callName(call)+"@"+strings.ReplaceAll(fr.part, ".", "_"))
		res, mem := ai.call(fn, args, bind, st.mem, ctx, fr.depth+1, fr.stack, false)
		if len(res) != nres {
			return nil, false
		}
		for _, r := range res {
			if !r.Top && len(r.Els) == 0 {
				return nil, false // does not return
			}
		}
		if nres == 0 && len(mem) == 0 && len(st.mem) > 0 {
			return nil, false
		}
		st.mem = mem
		return res, true
	}
	if inline {
		ai.imprecise("recursion bound reached at %s", fname(fn))
		return tops(nres), true
	}
	// an external function: a pure function of its arguments
	var ks []string
	for _, a := range args {
		ks = append(ks, a.key())
	}
	var out []aVal
	for i := 0; i < nres; i++ {
		out = append(out, symResult(fn.RelString(nil)+"("+strings.Join(ks, ",")+")", i, nres, fn.Signature.Results().At(i).Type()))
	}
	return out, true
}

func callName(c ssa.CallInstruction) string {
	if v, ok := c.(ssa.Value); ok {
		return v.Name()
	}
	return fmt.Sprintf("b%d.%d", c.Block().Index, instrIndex(c))
}

func (fr *aFrame) builtin(st *aState, call ssa.CallInstruction, b *ssa.Builtin, args []aVal) []aVal {
	switch b.Name() {
	case "recover":
		if v, ok := st.mem["$panic"]; ok {
			delete(st.mem, "$panic")
			return []aVal{v}
		}
		return []aVal{aNilV}
	case "len", "cap":
		return []aVal{mapEls(args[0], func(e aElem) aVal {
			switch e.Kind {
			case aConst:
				return aInt(int64(len(constant.StringVal(e.C))))
			case aNil:
				return aInt(0)
			case aSlice:
				if e.N >= 0 {
					return aInt(int64(e.N))
				}
				if v, ok := st.mem["len:"+e.Base]; ok && e.Lo == 0 {
					return v
				}
				if e.Lo == 0 {
					return aSymV("len(" + e.Base + ")")
				}
				return aSymV(fmt.Sprintf("(len(%s)-%d)", e.Base, e.Lo))
			case aMap:
				n := 0
				for k := range st.mem {
					if strings.HasPrefix(k, e.Key+"{") {
						n++
					}
				}
				if isFresh(e.Key) {
					if _, unk := st.mem[e.Key+"{?}"]; !unk {
						return aInt(int64(n))
					}
				}
				return aSymV("len(" + e.Key + ")")
			}
			return aSymV("len(" + e.Key + ")")
		})}
	case "append":
		return []aVal{fr.appendTo(st, call, args)}
	case "copy":
		return []aVal{fr.copyTo(st, call, args)}
	case "min", "max":
		op := token.LSS
		if b.Name() == "max" {
			op = token.GTR
		}
		r := args[0]
		for _, a := range args[1:] {
			c := fr.binop(op, a, r, types.Typ[types.Bool])
			if v, ok := c.boolean(); ok {
				if v {
					r = a
				}
			} else {
				r = join(r, a)
			}
		}
		return []aVal{r}
	case "clear":
		for _, e := range args[0].Els {
			switch e.Kind {
			case aMap:
				for k := range st.mem {
					if strings.HasPrefix(k, e.Key+"{") {
						delete(st.mem, k)
					}
				}
			case aSlice:
				if sl, ok := call.Common().Args[0].Type().Underlying().(*types.Slice); ok {
					for i := 0; i < sliceLen(st, e); i++ {
						aiStore(st, fmt.Sprintf("%s[%d]", e.Base, e.Lo+i), zeroOf(sl.Elem()), sl.Elem(), len(args[0].Els) == 1)
					}
				}
			}
		}
		return nil
	case "ssa:wrapnilchk":
		return []aVal{args[0]}
	case "delete":
		for _, e := range args[0].Els {
			if k, ok := args[1].single(); ok {
				delete(st.mem, e.Key+"{"+k.Key+"}")
			}
		}
		return nil
	}
	n := 0
	if v, ok := call.(ssa.Value); ok {
		if t, ok := v.Type().(*types.Tuple); ok {
			n = t.Len()
		} else {
			n = 1
		}
	}
	return tops(n)
}

// isBufferPtr: a *strings.Builder or *bytes.Buffer.
func isBufferPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && (isNamed(p.Elem(), "strings", "Builder") || isNamed(p.Elem(), "bytes", "Buffer"))
}

// slicesCall models functions of package slices on slices of known length.
func (fr *aFrame) slicesCall(st *aState, call ssa.CallInstruction, fn *ssa.Function, args []aVal) ([]aVal, bool) {
	sl, ok := call.Common().Args[0].Type().Underlying().(*types.Slice)
	e, one1 := args[0].single()
	if !ok || !one1 {
		return nil, false
	}
	et := sl.Elem()
	n := sliceLen(st, e)
	if n < 0 || n > 64 || e.Kind != aSlice && n > 0 {
		return nil, false
	}
	var vals []aVal
	for i := 0; i < n; i++ {
		vals = append(vals, aiLoad(st, fmt.Sprintf("%s[%d]", e.Base, e.Lo+i), et))
	}
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	switch name {
	case "Clone":
		v, ok := call.(ssa.Value)
		if e.Kind == aNil {
			return []aVal{aNilV}, true
		}
		if !ok {
			return nil, false
		}
		base := fr.freshName(v) + "_c"
		st.mem["live:"+base] = aBool(true)
		for i, x := range vals {
			aiStore(st, fmt.Sprintf("%s[%d]", base, i), x, et, true)
		}
		return []aVal{one(aElem{Kind: aSlice, Key: fmt.Sprintf("%s@0#%d", base, n), Base: base, N: n})}, true
	case "Reverse":
		for i, x := range vals {
			aiStore(st, fmt.Sprintf("%s[%d]", e.Base, e.Lo+n-1-i), x, et, true)
		}
		return nil, true
	case "Contains", "Index":
		at := -1
		for i, x := range vals {
			eq, ok := fr.binop(token.EQL, x, args[1], types.Typ[types.Bool]).boolean()
			if !ok {
				return nil, false
			}
			if eq {
				at = i
				break
			}
		}
		if name == "Contains" {
			return []aVal{aBool(at >= 0)}, true
		}
		return []aVal{aInt(int64(at))}, true
	}
	return nil, false
}

// copyTo models the builtin copy between slices of known length.
func (fr *aFrame) copyTo(st *aState, call ssa.CallInstruction, args []aVal) aVal {
	sl, ok := call.Common().Args[0].Type().Underlying().(*types.Slice)
	if !ok || args[0].Top || args[1].Top {
		fr.ai.imprecise("copy at %s", fr.ai.W.At(call))
		return aTop
	}
	et := sl.Elem()
	strong := len(args[0].Els) == 1 && len(args[1].Els) == 1
	r := aVal{}
	for _, a := range args[0].Els {
		for _, b := range args[1].Els {
			an, bn := sliceLen(st, a), sliceLen(st, b)
			if an < 0 || bn < 0 || an > 0 && a.Kind != aSlice || bn > 0 && b.Kind != aSlice && b.Kind != aConst {
				fr.ai.imprecise("copy at %s", fr.ai.W.At(call))
				return aTop
			}
			n := an
			if bn < n {
				n = bn
			}
			var vals []aVal
			for i := 0; i < n; i++ {
				if b.Kind == aConst {
					vals = append(vals, aInt(int64(constant.StringVal(b.C)[i])))
				} else {
					vals = append(vals, aiLoad(st, fmt.Sprintf("%s[%d]", b.Base, b.Lo+i), et))
				}
			}
			for i, x := range vals {
				aiStore(st, fmt.Sprintf("%s[%d]", a.Base, a.Lo+i), x, et, strong)
			}
			r = join(r, aInt(int64(n)))
		}
	}
	return r
}

func (fr *aFrame) appendTo(st *aState, call ssa.CallInstruction, args []aVal) aVal {
	v := call.(ssa.Value)
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok || args[0].Top {
		return aTop
	}
	if len(args) < 2 {
		return args[0]
	}
	et := sl.Elem()
	r := aVal{}
	for _, a := range args[0].Els {
		if args[1].Top {
			fr.ai.imprecise("append of unknown slice at %s", fr.ai.W.At(call))
			return aTop
		}
		for _, b := range args[1].Els {
			an, bn := sliceLen(st, a), sliceLen(st, b)
			if bn == 0 && a.Kind == aSlice {
				// the same slice
				r = join(r, one(a))
				continue
			}
			name := fr.freshName(v) + "_" + fmt.Sprint(len(r.Els))
			if an >= 0 && bn >= 0 && an+bn <= 64 {
				st.mem["live:"+name] = aBool(true)
				var vals []aVal
				for i := 0; i < an; i++ {
					vals = append(vals, aiLoad(st, fmt.Sprintf("%s[%d]", a.Base, a.Lo+i), et))
				}
				for i := 0; i < bn; i++ {
					if b.Kind == aConst {
						vals = append(vals, aInt(int64(constant.StringVal(b.C)[i])))
					} else {
						vals = append(vals, aiLoad(st, fmt.Sprintf("%s[%d]", b.Base, b.Lo+i), et))
					}
				}
				for i, x := range vals {
					aiStore(st, fmt.Sprintf("%s[%d]", name, i), x, et, true)
				}
				r = join(r, one(aElem{Kind: aSlice, Key: fmt.Sprintf("%s@0#%d", name, an+bn), Base: name, N: an + bn}))
				continue
			}
			// unknown length: a symbolic concatenation
			k := "cat(" + a.Key + "," + b.Key + ")"
			if fr.ai.Cats == nil {
				fr.ai.Cats = map[string][2]aElem{}
			}
			defer func(k *string, a, b aElem) { fr.ai.Cats[*k] = [2]aElem{a, b} }(&k, a, b)
			if bn >= 0 {
				var ks []string
				for i := 0; i < bn && b.Kind == aSlice; i++ {
					ks = append(ks, aiLoad(st, fmt.Sprintf("%s[%d]", b.Base, b.Lo+i), et).key())
				}
				k = "cat(" + a.Key + ",[" + strings.Join(ks, ",") + "])"
			}
			r = join(r, one(aElem{Kind: aSlice, Key: k, Base: k, N: -1}))
		}
	}
	return r
}

func sliceLen(st *aState, e aElem) int {
	switch e.Kind {
	case aNil:
		return 0
	case aConst:
		return len(constant.StringVal(e.C))
	case aSlice:
		if e.N >= 0 {
			return e.N
		}
		if v, ok := st.mem["len:"+e.Base]; ok {
			if n, ok := v.integer(); ok {
				return n - e.Lo
			}
		}
	}
	return -1
}

// intrinsic models a few library functions exactly.
func (fr *aFrame) intrinsic(st *aState, call ssa.CallInstruction, fn *ssa.Function, args []aVal) ([]aVal, bool) {
	if res, ok := fr.bigIntrinsic(st, call, fn, args); ok {
		return res, true
	}
	full := fn.RelString(nil)
	if o := fn.Origin(); o != nil {
		full = o.RelString(nil)
	}
	strArg := func(i int) (string, bool) {
		if i >= len(args) {
			return "", false
		}
		if s, ok := args[i].str(); ok || !strings.Contains(full, "bytes.") {
			return s, ok
		}
		return textOf(st, args[i], 'b')
	}
	switch full {
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		a, ok1 := strArg(0)
		b, ok2 := strArg(1)
		if ok1 && ok2 {
			switch full {
			case "strings.HasPrefix":
				return []aVal{aBool(strings.HasPrefix(a, b))}, true
			case "strings.HasSuffix":
				return []aVal{aBool(strings.HasSuffix(a, b))}, true
			}
			return []aVal{aBool(strings.Contains(a, b))}, true
		}
	case "sync/atomic.LoadUint64", "sync/atomic.LoadInt64", "sync/atomic.LoadUint32", "sync/atomic.LoadInt32":
		r := aVal{}
		for _, e := range args[0].Els {
			r = join(r, fr.load(st, e.Key, fn.Signature.Results().At(0).Type()))
		}
		return []aVal{r}, true
	case "sync/atomic.StoreUint64", "sync/atomic.StoreInt64", "sync/atomic.StoreUint32", "sync/atomic.StoreInt32":
		fr.store(st, call, args[0], args[1], fn.Signature.Params().At(1).Type())
		return nil, true
	case "sync/atomic.AddUint64", "sync/atomic.AddInt64", "sync/atomic.AddUint32", "sync/atomic.AddInt32":
		t := fn.Signature.Results().At(0).Type()
		if e, ok := args[0].single(); ok && e.Kind == aAddr {
			v := fr.binop(token.ADD, fr.load(st, e.Key, t), args[1], t)
			fr.store(st, call, args[0], v, t)
			return []aVal{v}, true
		}
	case "math.Float64bits":
		if c, ok := args[0].constant(); ok {
			f, _ := constant.Float64Val(c)
			if e, _ := args[0].single(); e.Key == "f-0" {
				f = math.Copysign(0, -1)
			}
			return []aVal{aC(constant.MakeUint64(math.Float64bits(f)))}, true
		}
	case "math.IsInf":
		if c, ok := args[0].constant(); ok && c.Kind() != constant.Unknown {
			return []aVal{aBool(false)}, true
		}
	case "math.Abs":
		if c, ok := args[0].constant(); ok && c.Kind() != constant.Unknown {
			if constant.Sign(c) < 0 {
				c = constant.UnaryOp(token.SUB, c, 0)
			}
			c = constant.ToFloat(c)
			return []aVal{one(aElem{Kind: aConst, Key: "f" + c.ExactString(), C: c})}, true
		}
	case "strings.Compare", "cmp.Compare":
		a, ok1 := strArg(0)
		b, ok2 := strArg(1)
		if ok1 && ok2 {
			return []aVal{aInt(int64(strings.Compare(a, b)))}, true
		}
	case "strings.TrimPrefix":
		a, ok1 := strArg(0)
		b, ok2 := strArg(1)
		if ok1 && ok2 {
			return []aVal{aStr(strings.TrimPrefix(a, b))}, true
		}
	case "strings.TrimSuffix", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.Index", "strings.LastIndex", "strings.Count", "strings.ContainsAny", "strings.ContainsRune", "strings.EqualFold":
		a, ok1 := strArg(0)
		b, ok2 := strArg(1)
		if full == "strings.ContainsRune" {
			var n int
			n, ok2 = args[1].integer()
			b = string(rune(n))
		}
		if ok1 && ok2 {
			switch full {
			case "strings.TrimSuffix":
				return []aVal{aStr(strings.TrimSuffix(a, b))}, true
			case "strings.Trim":
				return []aVal{aStr(strings.Trim(a, b))}, true
			case "strings.TrimLeft":
				return []aVal{aStr(strings.TrimLeft(a, b))}, true
			case "strings.TrimRight":
				return []aVal{aStr(strings.TrimRight(a, b))}, true
			case "strings.Index":
				return []aVal{aInt(int64(strings.Index(a, b)))}, true
			case "strings.LastIndex":
				return []aVal{aInt(int64(strings.LastIndex(a, b)))}, true
			case "strings.Count":
				return []aVal{aInt(int64(strings.Count(a, b)))}, true
			case "strings.ContainsAny":
				return []aVal{aBool(strings.ContainsAny(a, b))}, true
			case "strings.ContainsRune":
				return []aVal{aBool(strings.Contains(a, b))}, true
			}
			return []aVal{aBool(strings.EqualFold(a, b))}, true
		}
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		if a, ok := strArg(0); ok {
			switch full {
			case "strings.TrimSpace":
				return []aVal{aStr(strings.TrimSpace(a))}, true
			case "strings.ToLower":
				return []aVal{aStr(strings.ToLower(a))}, true
			}
			return []aVal{aStr(strings.ToUpper(a))}, true
		}
	case "strings.Replace", "strings.ReplaceAll":
		a, ok1 := strArg(0)
		b, ok2 := strArg(1)
		c, ok3 := strArg(2)
		n, ok4 := -1, true
		if full == "strings.Replace" {
			n, ok4 = args[3].integer()
		}
		if ok1 && ok2 && ok3 && ok4 {
			return []aVal{aStr(strings.Replace(a, b, c, n))}, true
		}
	case "strings.NewReplacer":
		// the replacer is its pairs, when every one of them is constant
		if e, ok := args[0].single(); ok && e.Kind == aSlice {
			n := sliceLen(st, e)
			var pairs []aVal
			var ks []string
			for i := 0; i < n; i++ {
				v := aiLoad(st, fmt.Sprintf("%s[%d]", e.Base, e.Lo+i), types.Typ[types.String])
				if c, ok := v.str(); ok {
					pairs, ks = append(pairs, v), append(ks, strconv.Quote(c))
				}
			}
			if n >= 0 && len(pairs) == n && n%2 == 0 {
				return []aVal{one(aElem{Kind: aSym, Key: "replacer(" + strings.Join(ks, ",") + ")", Bind: pairs})}, true
			}
		}
	case "(*strings.Replacer).Replace":
		a, ok := strArg(1)
		if e, ok1 := args[0].single(); ok && ok1 && e.Kind == aSym && strings.HasPrefix(e.Key, "replacer(") {
			var ps []string
			for _, v := range e.Bind {
				c, _ := v.str()
				ps = append(ps, c)
			}
			return []aVal{aStr(strings.NewReplacer(ps...).Replace(a))}, true
		}
	case "strings.Split", "strings.SplitN", "strings.Fields":
		a, ok1 := strArg(0)
		b, ok2 := "", true
		n, ok3 := -1, true
		if full != "strings.Fields" {
			b, ok2 = strArg(1)
		}
		if full == "strings.SplitN" {
			n, ok3 = args[2].integer()
		}
		if ok1 && ok2 && ok3 {
			parts := strings.Fields(a)
			if full != "strings.Fields" {
				parts = strings.SplitN(a, b, n)
			}
			base := fr.freshName(call.(ssa.Value)) + "_parts"
			for i, p := range parts {
				st.mem[fmt.Sprintf("%s[%d]", base, i)] = aStr(p)
			}
			return []aVal{aList(base, len(parts))}, true
		}
	case "strings.Cut":
		a, ok1 := strArg(0)
		b, ok2 := strArg(1)
		if ok1 && ok2 {
			x, y, f := strings.Cut(a, b)
			return []aVal{aStr(x), aStr(y), aBool(f)}, true
		}
	case "strings.Repeat":
		a, ok1 := strArg(0)
		n, ok2 := args[1].integer()
		if ok1 && ok2 && n >= 0 && n < 1000 {
			return []aVal{aStr(strings.Repeat(a, n))}, true
		}
	case "strconv.Itoa":
		if n, ok := args[0].integer(); ok {
			return []aVal{aStr(fmt.Sprint(n))}, true
		}
	case "strconv.Atoi":
		if a, ok := strArg(0); ok {
			n, err := strconv.Atoi(a)
			if err != nil {
				return []aVal{aInt(0), aSymV("error of Atoi")}, true
			}
			return []aVal{aInt(int64(n)), aNilV}, true
		}
	case "strconv.Quote":
		if a, ok := strArg(0); ok {
			return []aVal{aStr(strconv.Quote(a))}, true
		}
	case "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write":
		if e, ok := args[0].single(); ok {
			k := e.Key + ".$content"
			old, has := st.mem[k]
			if !has {
				old = aStr("")
			}
			st.mem[k] = catVal(old, args[1])
		}
		return []aVal{aTop, aNilV}, true
	case "bytes.ContainsRune", "bytes.Contains", "bytes.HasPrefix", "bytes.ContainsAny":
		a, ok1 := strArg(0)
		b, ok2 := strArg(1)
		if full == "bytes.ContainsRune" {
			var n int
			n, ok2 = args[1].integer()
			b = string(rune(n))
		}
		if ok1 && ok2 {
			switch full {
			case "bytes.HasPrefix":
				return []aVal{aBool(strings.HasPrefix(a, b))}, true
			case "bytes.ContainsAny":
				return []aVal{aBool(strings.ContainsAny(a, b))}, true
			}
			return []aVal{aBool(strings.Contains(a, b))}, true
		}
	case "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune":
		if e, ok := args[0].single(); ok {
			k := e.Key + ".$content"
			old, has := st.mem[k]
			if !has {
				old = aStr("")
			}
			if n, ok := args[1].integer(); ok {
				c := string(rune(n))
				if strings.HasSuffix(full, "Byte") {
					c = string([]byte{byte(n)})
				}
				st.mem[k] = catVal(old, aStr(c))
			} else {
				st.mem[k] = aTop
			}
		}
		if strings.HasSuffix(full, "Rune") {
			return []aVal{aTop, aNilV}, true
		}
		return []aVal{aNilV}, true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		if e, ok := args[0].single(); ok {
			if v, has := st.mem[e.Key+".$content"]; !has {
				return []aVal{aInt(0)}, true
			} else if t, ok := v.str(); ok {
				return []aVal{aInt(int64(len(t)))}, true
			}
		}
	case "strings.Join":
		if e, ok := args[0].single(); ok && e.Kind == aSlice {
			if n := sliceLen(st, e); n >= 0 {
				out := aStr("")
				for i := 0; i < n; i++ {
					if i > 0 {
						out = catVal(out, args[1])
					}
					out = catVal(out, aiLoad(st, fmt.Sprintf("%s[%d]", e.Base, e.Lo+i), types.Typ[types.String]))
				}
				return []aVal{out}, true
			}
		}
	case "(*bytes.Buffer).String", "(*strings.Builder).String", "(*bytes.Buffer).Bytes":
		if e, ok := args[0].single(); ok {
			if v, has := st.mem[e.Key+".$content"]; has {
				return []aVal{v}, true
			}
			return []aVal{aStr("")}, true
		}
	case "slices.Clone", "slices.Reverse", "slices.Contains", "slices.Index":
		if v, ok := fr.slicesCall(st, call, fn, args); ok {
			return v, true
		}
	case "sort.Strings", "slices.Sort", "sort.Ints":
		fr.sortConst(st, args[0])
		return nil, true
	case "sort.Slice", "sort.SliceStable":
		e, ok1 := args[0].single()
		f, ok2 := args[1].single()
		if ok1 && e.Kind == aNil {
			return nil, true
		}
		if ok1 && ok2 && e.Kind == aSlice && e.Typ != nil && f.Kind == aFunc {
			et := e.Typ.Underlying().(*types.Slice).Elem()
			done := fr.sortBy(st, e, et, func(i, j int) (bool, bool) {
				r, live := fr.invoke(st, call, f.Fn, []aVal{aInt(int64(i)), aInt(int64(j))}, f.Bind)
				if !live || len(r) != 1 {
					return false, false
				}
				return r[0].boolean()
			})
			if done {
				return nil, true
			}
		}
		fr.ai.imprecise("sort.Slice at %s", fr.ai.W.At(call))
		return nil, true
	case "sort.Reverse":
		if e, ok := args[0].single(); ok {
			return []aVal{one(aElem{Kind: aSym, Key: "reverse(" + e.Key + ")", Bind: []aVal{args[0]}})}, true
		}
	case "sort.Float64s":
		fr.sortConst(st, args[0])
		return nil, true
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		// into a text in memory
		e, ok := args[0].single()
		if !ok || len(args) < 2 || e.Kind != aAddr || e.Typ == nil || !isBufferPtr(e.Typ) {
			break
		}
		text, done := args[1], full == "io.WriteString"
		if full == "fmt.Fprintf" && len(args) == 3 {
			if f, ok := strArg(1); ok {
				text, done = fr.sprintf(st, call, f, args[2])
			}
		} else if le, ok := args[1].single(); ok && !done {
			n := sliceLen(st, le)
			if n == 1 {
				f := "%v"
				if full == "fmt.Fprintln" {
					f = "%v\n"
				}
				text, done = fr.sprintf(st, call, f, args[1])
			}
		}
		k := e.Key + ".$content"
		old, has := st.mem[k]
		if !has {
			old = aStr("")
		}
		if !done {
			text = aTop
		}
		st.mem[k] = catVal(old, text)
		return []aVal{aTop, aNilV}, true
	case "fmt.Sprintf":
		if f, ok := strArg(0); ok && len(args) == 2 {
			if v, ok := fr.sprintf(st, call, f, args[1]); ok {
				return []aVal{v}, true
			}
		}
	case "sort.Sort", "sort.Stable":
		rev, d := false, args[0]
		e, ok := d.single()
		for ok && e.Kind == aSym && len(e.Bind) == 1 && strings.HasPrefix(e.Key, "reverse(") {
			rev = !rev
			e, ok = e.Bind[0].single()
		}
		if ok && e.Kind == aNil {
			return nil, true
		}
		if ok && e.Kind == aSlice && e.Typ != nil && namedOf(e.Typ) != nil && namedOf(e.Typ).Obj().Pkg().Path() == "sort" {
			et := e.Typ.Underlying().(*types.Slice).Elem()
			at := func(i int) aVal { return aiLoad(st, fmt.Sprintf("%s[%d]", e.Base, e.Lo+i), et) }
			if fr.sortBy(st, e, et, func(i, j int) (bool, bool) {
				a, ok1 := at(i).constant()
				b, ok2 := at(j).constant()
				if !ok1 || !ok2 {
					return false, false
				}
				if rev {
					a, b = b, a
				}
				return constant.Compare(a, token.LSS, b), true
			}) {
				return nil, true
			}
		}
		if ok && fr.sortObject(st, call, d) {
			return nil, true
		}
		fr.ai.imprecise("sort.Sort at %s", fr.ai.W.At(call))
		return nil, true
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return []aVal{aTop, aNilV}, true
	}
	return nil, false
}

// knownKeys are the keys of a map all of whose keys are known.
func (fr *aFrame) knownKeys(st *aState, v aVal) ([]aElem, bool) {
	e, ok := v.single()
	if !ok || e.Kind != aMap || !isFresh(e.Key) {
		return nil, false
	}
	if _, unk := st.mem[e.Key+"{?}"]; unk {
		return nil, false
	}
	var ks []string
	for k := range st.mem {
		if strings.HasPrefix(k, e.Key+"{") {
			if ke, ok := fr.ai.mapKeys[k]; !ok || ke.Kind == aSym {
				return nil, false
			}
			ks = append(ks, k)
		}
	}
	if len(ks) > 12 {
		return nil, false
	}
	sort.Strings(ks)
	var out []aElem
	for i := range ks {
		j := i
		if fr.ai.MapReverse {
			j = len(ks) - 1 - i
		}
		out = append(out, fr.ai.mapKeys[ks[j]])
	}
	return out, true
}

// sortBy sorts the elements of a slice by a comparison of positions.
func (fr *aFrame) sortBy(st *aState, e aElem, et types.Type, less func(i, j int) (bool, bool)) bool {
	n := sliceLen(st, e)
	if n < 0 {
		return false
	}
	at := func(i int) string { return fmt.Sprintf("%s[%d]", e.Base, e.Lo+i) }
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			lt, ok := less(j, j-1)
			if !ok {
				return false
			}
			if !lt {
				break
			}
			a, b := aiLoad(st, at(j), et), aiLoad(st, at(j-1), et)
			aiStore(st, at(j), b, et, true)
			aiStore(st, at(j-1), a, et, true)
		}
	}
	return true
}

// sortObject sorts an object by its own Len, Less and Swap.
func (fr *aFrame) sortObject(st *aState, call ssa.CallInstruction, d aVal) bool {
	e, ok := d.single()
	if !ok || e.Typ == nil {
		return false
	}
	m := func(name string, args ...aVal) ([]aVal, bool) {
		f := fr.ai.W.Prog.LookupMethod(e.Typ, nil, name)
		if f == nil {
			return nil, false
		}
		return fr.invoke(st, call, f, append([]aVal{d}, args...), nil)
	}
	if fr.ai.W.Prog.MethodSets.MethodSet(e.Typ).Lookup(nil, "Len") == nil {
		return false
	}
	r, ok := m("Len")
	if !ok || len(r) != 1 {
		return false
	}
	n, ok := r[0].integer()
	if !ok || n > 8 {
		return false
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			r, ok := m("Less", aInt(int64(j)), aInt(int64(j-1)))
			if !ok || len(r) != 1 {
				return false
			}
			lt, ok := r[0].boolean()
			if !ok {
				return false
			}
			if !lt {
				break
			}
			if _, ok := m("Swap", aInt(int64(j)), aInt(int64(j-1))); !ok {
				return false
			}
		}
	}
	return true
}

// sprintf formats known text around symbolic arguments.
func (fr *aFrame) sprintf(st *aState, call ssa.CallInstruction, format string, list aVal) (aVal, bool) {
	le, ok := list.single()
	if !ok {
		return aTop, false
	}
	n := 0
	if le.Kind == aSlice {
		n = sliceLen(st, le)
	}
	if n < 0 {
		return aTop, false
	}
	out, arg := aStr(""), 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			out = catVal(out, aStr(format[i:i+1]))
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			return aTop, false
		}
		verb := format[i : j+1]
		i = j
		if verb == "%%" {
			out = catVal(out, aStr("%"))
			continue
		}
		if arg >= n {
			return aTop, false
		}
		a := aiLoad(st, fmt.Sprintf("%s[%d]", le.Base, le.Lo+arg), types.NewInterfaceType(nil, nil))
		arg++
		e, ok := a.single()
		if !ok {
			return aTop, false
		}
		if c, ok := st.mem[e.Key+".$v"]; ok && (e.Kind == aAddr) {
			ce, ok := c.single()
			if !ok {
				return aTop, false
			}
			x := fr.ai.num(ce)
			if fr.ai.FmtNum != nil {
				if t, ok := fr.ai.FmtNum(verb, x); ok {
					out = catVal(out, aStr(t))
					continue
				}
			}
			out = catVal(out, aSymV("fmt("+verb+","+x.String()+")"))
			continue
		}
		if (verb == "%v" || verb == "%s") && e.Kind == aAddr && e.Typ != nil {
			if n := namedOf(e.Typ); n != nil && n.Obj().Pkg() != nil {
				for _, m := range []string{"Error", "String"} {
					if types.NewMethodSet(e.Typ).Lookup(n.Obj().Pkg(), m) == nil {
						continue
					}
					if f := fr.ai.W.Prog.LookupMethod(e.Typ, n.Obj().Pkg(), m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
						if r, live := fr.invoke(st, call, f, []aVal{a}, nil); live && len(r) == 1 {
							if t, ok := r[0].str(); ok {
								a = aStr(t)
								e, _ = a.single()
							}
						}
						break
					}
				}
			}
		}
		switch {
		case e.Kind == aConst && (verb == "%v" || verb == "%s" || verb == "%d"):
			switch e.C.Kind() {
			case constant.String:
				out = catVal(out, aStr(constant.StringVal(e.C)))
			case constant.Int:
				out = catVal(out, aStr(e.C.ExactString()))
			default:
				out = catVal(out, aStr("<"+e.C.ExactString()+">"))
			}
		case e.Kind == aSym && (verb == "%v" || verb == "%s"):
			out = catVal(out, aSymV(e.Key))
		default:
			out = catVal(out, aSymV("fmt("+verb+","+e.Key+")"))
		}
	}
	return out, true
}

// sortConst sorts a slice whose elements are known constants.
func (fr *aFrame) sortConst(st *aState, v aVal) {
	for _, e := range v.Els {
		if e.Kind == aNil {
			continue
		}
		n := sliceLen(st, e)
		if e.Kind != aSlice || n < 0 || len(v.Els) != 1 {
			fr.ai.imprecise("sort of an unknown slice")
			return
		}
		var vals []aVal
		for i := 0; i < n; i++ {
			x := aiLoad(st, fmt.Sprintf("%s[%d]", e.Base, e.Lo+i), types.Typ[types.String])
			if _, ok := x.constant(); !ok {
				fr.ai.imprecise("sort of unknown elements")
				return
			}
			vals = append(vals, x)
		}
		sort.SliceStable(vals, func(i, j int) bool {
			a, _ := vals[i].constant()
			b, _ := vals[j].constant()
			return constant.Compare(a, token.LSS, b)
		})
		for i, x := range vals {
			st.mem[fmt.Sprintf("%s[%d]", e.Base, e.Lo+i)] = x
		}
	}
}

// catVal concatenates strings symbolically.
func catVal(a, b aVal) aVal {
	if a.Top || b.Top {
		return aTop
	}
	r := aVal{}
	for _, x := range a.Els {
		for _, y := range b.Els {
			if x.Kind == aConst && y.Kind == aConst {
				r = join(r, aC(constant.BinaryOp(x.C, token.ADD, y.C)))
				continue
			}
			if x.Kind == aConst && constant.StringVal(x.C) == "" {
				r = join(r, one(aElem{Kind: y.Kind, Key: y.Key, C: y.C}))
				continue
			}
			r = join(r, aSymV(x.Key+"+"+y.Key))
		}
	}
	return r
}

// initGlobals analyses a package's initialiser and returns the memory after it.
func (ai *AI) initGlobals(pkg string) aMem {
	ai.W.globalsMu.Lock()
	defer ai.W.globalsMu.Unlock()
	if m, ok := ai.W.globalsC[pkg]; ok {
		return m.clone()
	}
	m := ai.initGlobals1(pkg)
	if ai.W.globalsC == nil {
		ai.W.globalsC = map[string]aMem{}
	}
	ai.W.globalsC[pkg] = m
	return m.clone()
}

func (ai *AI) initGlobals1(pkg string) aMem {
	sp := ai.W.SSA[pkg]
	if sp == nil {
		return aMem{}
	}
	init := sp.Func("init")
	if init == nil || len(init.Blocks) == 0 {
		return aMem{}
	}
	sub := NewAI(ai.W)
	sub.MaxSteps = ai.MaxSteps
	sub.Hook = func(_ *AI, _ *aFrame, call ssa.CallInstruction, callee *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
		if callee != nil && callee.Pkg != sp && callee.Name() == "init" {
			return nil, true
		}
		if callee != nil && callee.Pkg != sp && callee.Signature.Results().Len() == 0 {
			return nil, true
		}
		return nil, false
	}
	sub.Decide = func(c aVal) (bool, bool) {
		if strings.Contains(c.key(), "init$guard") {
			return false, true
		}
		return false, false
	}
	_, mem := sub.Run(init, nil, aMem{})
	return mem
}

func mkInt(n *big.Int) constant.Value {
	if n.IsInt64() {
		return constant.MakeInt64(n.Int64())
	}
	return constant.Make(n)
}
