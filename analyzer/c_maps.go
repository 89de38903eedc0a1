package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C11", Title: "Nothing depends on the order of a Go map", Run: checkMaps,
		Explain: "Finds every loop of the repository over a Go map, over the channel or key list of a concurrent map, and over a list that another function collected that way, and decides for each that the order of the iterations cannot show: the body only stores under the key of the iteration, sets flags to one value, adds up integers, collects into a list that is sorted before any other use, calls functions without effects outside the iteration, and leaves the loop early only with a value that is the same for every iteration that may leave it, or for one particular key.",
		Assume: []string{
			"A comparison given to a sort that compares the elements, or a field of them, distinguishes the elements.",
			"Functions of strings, strconv, unicode, math, errors, regexp and fmt.Sprint have no effects; math/big, bytes, strings.Builder and sort change only their receiver or first argument.",
		}})
}

// fxSum is what a call of a function does besides computing its result.
type fxSum struct {
	acts string      // an effect on the world, or one that is not understood
	mut  map[int]int // parameter -> the parameter that is the key of the change, or -1
}

func (s *fxSum) add(i, key int) bool {
	old, had := s.mut[i]
	if had && (old == key || old == -1) {
		return false
	}
	if had {
		key = -1
	}
	s.mut[i] = key
	return true
}

type mapAn struct {
	w     *World
	r     *Report
	memo  map[string]bool
	sums  map[*ssa.Function]*fxSum
	fresh map[*ssa.Function]int
	unord map[*ssa.Function]bool
	seen  map[ssa.Value]bool
	work  []ssa.Value
}

func fxParam(f *ssa.Function, v ssa.Value) int {
	for i, p := range f.Params {
		if p == v {
			return i
		}
	}
	return -1
}

// roots are the values whose memory v may be part of.
func (m *mapAn) roots(v ssa.Value, seen map[ssa.Value]bool, out map[ssa.Value]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.FieldAddr:
		m.roots(x.X, seen, out)
	case *ssa.Field:
		m.roots(x.X, seen, out)
	case *ssa.IndexAddr:
		m.roots(x.X, seen, out)
	case *ssa.Index:
		m.roots(x.X, seen, out)
	case *ssa.Lookup:
		m.roots(x.X, seen, out)
	case *ssa.Slice:
		m.roots(x.X, seen, out)
	case *ssa.ChangeType:
		m.roots(x.X, seen, out)
	case *ssa.ChangeInterface:
		m.roots(x.X, seen, out)
	case *ssa.Convert:
		m.roots(x.X, seen, out)
	case *ssa.MakeInterface:
		m.roots(x.X, seen, out)
	case *ssa.TypeAssert:
		m.roots(x.X, seen, out)
	case *ssa.Extract:
		if _, isNext := x.Tuple.(*ssa.Next); isNext {
			out[v] = true
			return
		}
		m.roots(x.Tuple, seen, out)
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			out[v] = true
			return
		}
		// What a local variable holds is what was stored into it.
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			any := false
			for _, u := range *al.Referrers() {
				if s, isS := u.(*ssa.Store); isS && s.Addr == al {
					any = true
					m.roots(s.Val, seen, out)
				}
			}
			if any {
				return
			}
		}
		m.roots(x.X, seen, out)
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.roots(e, seen, out)
		}
	case *ssa.Const:
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				m.roots(x.Call.Args[0], seen, out)
			}
			return
		}
		if m.freshCall(x) {
			out[v] = true
			return
		}
		if x.Call.IsInvoke() {
			m.roots(x.Call.Value, seen, out)
		}
		for _, a := range x.Call.Args {
			if pointerish(a.Type()) {
				m.roots(a, seen, out)
			}
		}
		out[v] = true
	default:
		out[v] = true
	}
}

func pointerish(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic:
		return false
	}
	return true
}

// freshCall says whether a call returns memory nobody else has.
func (m *mapAn) freshCall(c *ssa.Call) bool {
	fs := m.w.Callees(c)
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if !m.freshFn(f) {
			return false
		}
	}
	return true
}

func (m *mapAn) freshFn(f *ssa.Function) bool {
	if s, ok := m.fresh[f]; ok {
		return s == 1
	}
	if len(f.Blocks) == 0 {
		p := extPkg(f)
		return p == "math/big" && f.Signature.Recv() == nil
	}
	m.fresh[f] = 1 // optimistic for recursion
	ok := true
	instrs(f, func(in ssa.Instruction) {
		ret, isRet := in.(*ssa.Return)
		if !isRet || !ok {
			return
		}
		for _, v := range ret.Results {
			if !pointerish(v.Type()) {
				continue
			}
			rs := map[ssa.Value]bool{}
			m.roots(v, map[ssa.Value]bool{}, rs)
			for x := range rs {
				switch y := x.(type) {
				case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
				case *ssa.Call:
					if !m.freshCall(y) {
						ok = false
					}
				default:
					ok = false
				}
			}
		}
	})
	if !ok {
		m.fresh[f] = 0
	}
	return ok
}

// extEffect describes a call of a function outside the repository: the
// arguments it changes (with the argument that is the key of the change, or
// -1), or what it does.
func extEffect(c *ssa.CallCommon, o *types.Func) (map[int]int, string) {
	if o == nil || o.Pkg() == nil {
		if o != nil && o.Name() == "Error" {
			return nil, ""
		}
		return nil, "a call through a function value"
	}
	name, path := o.Name(), o.Pkg().Path()
	sig, _ := o.Type().(*types.Signature)
	method := sig != nil && sig.Recv() != nil
	switch path {
	case "strings", "bytes", "strconv":
		if method && strings.HasPrefix(name, "Write") || name == "Grow" || name == "Reset" || name == "Truncate" {
			return map[int]int{0: -1}, ""
		}
		return nil, ""
	case "unicode", "unicode/utf8", "math", "math/bits", "errors", "regexp", "path", "path/filepath", "sync", "sync/atomic", "math/cmplx", "hash", "hash/fnv", "encoding/binary", "reflect", "go/token", "time", "maps":
		return nil, ""
	case "fmt":
		if strings.HasPrefix(name, "Sprint") || name == "Errorf" || strings.HasPrefix(name, "Append") {
			return nil, ""
		}
		if strings.HasPrefix(name, "Fprint") {
			return map[int]int{0: -1}, ""
		}
	case "sort", "slices":
		return map[int]int{0: -1}, ""
	case "math/big":
		out := map[int]int{}
		for _, v := range bigMutated(c) {
			for i, a := range c.Args {
				if a == v {
					out[i] = -1
				}
			}
		}
		return out, ""
	}
	if strings.HasSuffix(path, "concurrent-map") {
		switch name {
		case "Set", "Remove", "SetIfAbsent", "Pop":
			return map[int]int{0: 1}, ""
		case "Get", "Has", "Count", "IsEmpty", "GetShard", "Keys", "Items", "Iter", "IterBuffered", "New":
			return nil, ""
		}
	}
	return nil, "calls " + o.FullName()
}

// callEffect is the effect of a call in terms of its arguments (for an invoke,
// argument 0 is the receiver).
func (m *mapAn) callEffect(call ssa.CallInstruction) (map[int]int, string) {
	c := call.Common()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "clear":
			return map[int]int{0: -1}, ""
		case "delete":
			return map[int]int{0: 1}, ""
		case "print", "println":
			return nil, "prints"
		case "close":
			return nil, "closes a channel"
		}
		return nil, ""
	}
	if _, ok := call.(*ssa.Go); ok {
		return nil, "starts a goroutine"
	}
	fs := m.w.Callees(call)
	var repo []*ssa.Function
	for _, f := range fs {
		if m.w.inScope[f] {
			repo = append(repo, f)
		}
	}
	if len(repo) == 0 {
		return extEffect(c, calleeObj(c))
	}
	out := &fxSum{mut: map[int]int{}}
	for _, f := range repo {
		s := m.sums[f]
		if s == nil {
			continue
		}
		if s.acts != "" {
			return nil, s.acts
		}
		for i, k := range s.mut {
			out.add(i, k)
		}
	}
	return out.mut, ""
}

func fxArgs(c *ssa.CallCommon) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

// summarise computes the effects of every function, to a fixed point.
func (m *mapAn) summarise() {
	for _, f := range m.w.Funcs {
		m.sums[f] = &fxSum{mut: map[int]int{}}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range m.w.Funcs {
			if m.sums[f].acts == "" && m.summary(f) {
				changed = true
			}
		}
	}
}

func (m *mapAn) memoStore(addr ssa.Value) bool {
	fa, ok := addr.(*ssa.FieldAddr)
	return ok && isNamed(deref(fa.X.Type()), pkgAtoms, "Expression") && m.memo[faName(fa)]
}

func (m *mapAn) summary(f *ssa.Function) bool {
	s := m.sums[f]
	changed := false
	act := func(in ssa.Instruction, what string) {
		if s.acts == "" {
			s.acts = what
			if !strings.Contains(what, " at ") {
				s.acts = what + " at " + m.w.At(in)
			}
			changed = true
		}
	}
	mutate := func(in ssa.Instruction, v, key ssa.Value) {
		k := -1
		if key != nil {
			k = fxParam(f, key)
		}
		rs := map[ssa.Value]bool{}
		m.roots(v, map[ssa.Value]bool{}, rs)
		for x := range rs {
			switch y := x.(type) {
			case *ssa.Parameter:
				if s.add(fxParam(f, y), k) {
					changed = true
				}
			case *ssa.Global:
				act(in, "changes "+y.Name())
			case *ssa.FreeVar:
				act(in, "changes the captured "+y.Name())
			}
		}
	}
	instrs(f, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.Store:
			if !m.memoStore(x.Addr) {
				mutate(in, x.Addr, nil)
			}
		case *ssa.MapUpdate:
			mutate(in, x.Map, x.Key)
		case *ssa.Send:
			act(in, "sends on a channel")
		case *ssa.Select:
			act(in, "waits on channels")
		case *ssa.Panic:
		case ssa.CallInstruction:
			mut, what := m.callEffect(x)
			if what != "" {
				act(in, what)
				return
			}
			args := fxArgs(x.Common())
			for i, k := range mut {
				if i < len(args) {
					var key ssa.Value
					if k >= 0 && k < len(args) {
						key = args[k]
					}
					mutate(in, args[i], key)
				}
			}
		}
	})
	return changed
}

// mapLoop is one loop whose iterations come in no particular order.
type mapLoop struct {
	m      *mapAn
	f      *ssa.Function
	at     ssa.Instruction
	what   string
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	elem   map[ssa.Value]bool // the key of the iteration
	src    ssa.Value          // what is ranged over
	bad    string
	badAt  ssa.Instruction
	fx     ssa.Instruction // some lasting effect
	fills  map[*ssa.Store]bool
	lists  []ssa.Value // lists collected in no order: header phis and cells
	maps   []*ssa.MapUpdate
}

func (l *mapLoop) fail(in ssa.Instruction, f string, a ...interface{}) {
	if l.bad == "" {
		l.bad = fmt.Sprintf(f, a...)
		l.badAt = in
	}
}

func (l *mapLoop) inBody(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && l.body[in.Block()]
}

// local says whether a variable exists for one iteration only.
func (l *mapLoop) local(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	if l.body[al.Block()] {
		return true
	}
	stored := false
	for _, u := range *al.Referrers() {
		if !l.body[u.Block()] && u.Block() != l.header {
			return false
		}
		if s, isS := u.(*ssa.Store); isS && s.Addr == al {
			stored = true
		}
	}
	return stored
}

// invariant says whether v is the same in every iteration.
func (l *mapLoop) invariant(v ssa.Value) bool {
	return l.inv(v, 0)
}

func (l *mapLoop) inv(v ssa.Value, depth int) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if l.elem[v] || depth > 8 {
		return false
	}
	if !l.body[in.Block()] && in.Block() != l.header {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return l.inv(x.X, depth+1)
	case *ssa.ChangeType:
		return l.inv(x.X, depth+1)
	case *ssa.ChangeInterface:
		return l.inv(x.X, depth+1)
	case *ssa.Convert:
		return l.inv(x.X, depth+1)
	case *ssa.FieldAddr:
		return l.inv(x.X, depth+1)
	case *ssa.Field:
		return l.inv(x.X, depth+1)
	case *ssa.TypeAssert:
		return l.inv(x.X, depth+1)
	case *ssa.Extract:
		if _, isNext := x.Tuple.(*ssa.Next); isNext {
			return false
		}
		return l.inv(x.Tuple, depth+1)
	case *ssa.BinOp:
		return l.inv(x.X, depth+1) && l.inv(x.Y, depth+1)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if l.local(x.X) || l.storedIn(x.X) {
				return false
			}
		}
		return x.Op != token.ARROW && l.inv(x.X, depth+1)
	case *ssa.Call:
		mut, what := l.m.callEffect(x)
		if what != "" || len(mut) > 0 || x.Call.IsInvoke() && !l.inv(x.Call.Value, depth+1) {
			return false
		}
		for _, a := range x.Call.Args {
			if !l.inv(a, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (l *mapLoop) storedIn(addr ssa.Value) bool {
	for b := range l.body {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && (s.Addr == addr || sameAddr(s.Addr, addr)) {
				return true
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	if ok1 && ok2 {
		return x.Field == y.Field && (x.X == y.X || sameLoad(x.X, y.X))
	}
	return false
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
}

// isKey says whether v tells the iterations apart: the key, or a conversion of
// it.
func (l *mapLoop) isKey(v ssa.Value) bool {
	for i := 0; i < 6; i++ {
		if l.elem[v] {
			return true
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Convert:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		case *ssa.Field:
			if !(x.Field == 0 && l.elem[x.X]) {
				return false
			}
			return true
		case *ssa.BinOp:
			switch {
			case x.Op == token.ADD && l.invariant(x.X):
				v = x.Y
			case x.Op == token.ADD && l.invariant(x.Y):
				v = x.X
			default:
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
			if fa, ok := x.X.(*ssa.FieldAddr); ok && fa.Field == 0 {
				if al, isAl := fa.X.(*ssa.Alloc); isAl && l.local(al) {
					return l.cellHolds(al)
				}
			}
			al, ok := x.X.(*ssa.Alloc)
			return ok && l.local(al) && l.cellHolds(al)
		default:
			return false
		}
	}
	return false
}

// cellHolds says whether a variable of the iteration only ever holds the key.
func (l *mapLoop) cellHolds(al *ssa.Alloc) bool {
	any := false
	for _, u := range *al.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == al {
			if !l.elem[s.Val] {
				return false
			}
			any = true
		}
	}
	return any
}

// guarded says whether a block of the body is only reached for one particular
// key, and which.
func (l *mapLoop) guarded(b *ssa.BasicBlock) ssa.Value {
	for c := range l.body {
		iff, ok := c.Instrs[len(c.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cmp.Op != token.EQL && cmp.Op != token.NEQ {
			continue
		}
		s := c.Succs[0]
		if cmp.Op == token.NEQ {
			s = c.Succs[1]
		}
		if len(s.Preds) != 1 || !s.Dominates(b) {
			continue
		}
		if l.isKey(cmp.X) && l.invariant(cmp.Y) {
			return cmp.Y
		}
		if l.isKey(cmp.Y) && l.invariant(cmp.X) {
			return cmp.X
		}
	}
	return nil
}

func valueKey(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return "const " + c.String()
	}
	return fmt.Sprintf("%p", v)
}

// accumulate decides what the loop does to a value carried from one iteration
// to the next: a header phi, or a variable outside the loop.
func (l *mapLoop) accumulate(cell ssa.Value, starts []ssa.Value, at ssa.Instruction, name string) {
	fam := map[ssa.Value]bool{cell: true}
	phi, isPhi := cell.(*ssa.Phi)
	if !isPhi {
		for b := range l.body {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, cell) {
					fam[u] = true
				}
			}
		}
	}
	consts := map[string]bool{}
	tests := map[ssa.Instruction]bool{}
	var appends, sums, extrema bool
	var visit func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	isFam := func(v ssa.Value) bool { return fam[v] }
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if fam[v] && (v == cell || !l.inBodyPhi(v)) {
			if _, isCall := v.(*ssa.Call); !isCall {
				return
			}
		}
		switch x := v.(type) {
		case *ssa.Phi:
			if l.body[x.Block()] {
				if iff := shortCircuit(x, fam); iff != nil {
					sums = true
					fam[x] = true
					tests[iff] = true
					return
				}
				fam[x] = true
				for _, e := range x.Edges {
					visit(e)
				}
				return
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				fam[x] = true
				appends = true
				visit(x.Call.Args[0])
				return
			}
		case *ssa.BinOp:
			bt, isB := x.Type().Underlying().(*types.Basic)
			if isB && bt.Info()&types.IsInteger != 0 {
				switch x.Op {
				case token.ADD, token.MUL, token.OR, token.AND, token.XOR, token.SUB:
					l1, r1 := l.inFamily(x.X, fam), x.Op != token.SUB && l.inFamily(x.Y, fam)
					if l1 != r1 {
						sums = true
						fam[x] = true
						if l1 {
							visit(x.X)
						} else {
							visit(x.Y)
						}
						return
					}
				}
			}
			if isB && bt.Info()&types.IsBoolean != 0 && (x.Op == token.OR || x.Op == token.AND) {
				sums = true
				return
			}
		}
		if l.invariant(v) {
			consts[valueKey(v)] = true
			return
		}
		if l.extremum(v, isFam) {
			extrema = true
			return
		}
		l.fail(at, "%s is left with the value of the last iteration that sets it", name)
	}
	for _, s := range starts {
		visit(s)
	}
	kinds := 0
	for _, k := range []bool{len(consts) > 0, appends, sums, extrema} {
		if k {
			kinds++
		}
	}
	if kinds == 0 {
		return
	}
	l.fx = at
	if kinds > 1 || len(consts) > 1 {
		l.fail(at, "%s is set in more than one way in the iterations", name)
		return
	}
	// The iterations may not look at the value.
	for v := range fam {
		in, ok := v.(ssa.Instruction)
		if !ok || v.Referrers() == nil {
			continue
		}
		_ = in
		for _, u := range *v.Referrers() {
			if !l.body[u.Block()] {
				continue
			}
			if tests[u] {
				continue
			}
			if ia, isIA := u.(*ssa.IndexAddr); isIA && sums && isPhi && v == cell && l.fill(ia, phi) {
				continue
			}
			switch x := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Store:
				if x.Val == v && sameAddr(x.Addr, cell) || x.Addr == v {
					continue
				}
			case ssa.Value:
				if fam[x] {
					continue
				}
				if _, isFA := x.(*ssa.FieldAddr); isFA && v == cell {
					continue
				}
				if b, isB := x.(*ssa.BinOp); isB && extrema && isCompare(b.Op) {
					continue
				}
				if len(consts) > 0 {
					// A flag may be tested before it is set: nothing but the
					// setting of the same flag may depend on it.
				}
			}
			if v == cell && !isPhi {
				if _, isL := u.(*ssa.UnOp); isL {
					continue
				}
			}
			l.fail(u, "an iteration looks at what the ones before it did to %s", name)
		}
	}
	if appends {
		if isPhi {
			l.lists = append(l.lists, phi)
		} else {
			l.lists = append(l.lists, cell)
		}
	}
}

// fill: the iterations fill the elements of a list one after the other.
func (l *mapLoop) fill(ia *ssa.IndexAddr, phi *ssa.Phi) bool {
	if ia.Index != phi || l.inBody(ia.X) {
		return false
	}
	if _, ok := ia.X.(*ssa.MakeSlice); !ok {
		return false
	}
	for _, u := range *ia.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Addr != ia {
				return false
			}
			l.fills[x] = true
		default:
			return false
		}
	}
	return true
}

func (l *mapLoop) inBodyPhi(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	return ok && l.body[p.Block()]
}

// inFamily says whether v is the carried value or was made from it by phis and
// operators.
func (l *mapLoop) inFamily(v ssa.Value, fam map[ssa.Value]bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if fam[v] {
			return true
		}
		if seen[v] || !l.inBody(v) {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if walk(e) {
					return true
				}
			}
		case *ssa.BinOp:
			return walk(x.X) || walk(x.Y)
		}
		return false
	}
	return walk(v)
}

// shortCircuit: x is the carried flag || (or &&) something else.
func shortCircuit(x *ssa.Phi, fam map[ssa.Value]bool) ssa.Instruction {
	if len(x.Edges) != 2 {
		return nil
	}
	for i := range x.Edges {
		p := x.Block().Preds[i]
		iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || !fam[iff.Cond] {
			continue
		}
		c, isC := x.Edges[i].(*ssa.Const)
		if !isC || c.Value == nil || c.Value.Kind() != constant.Bool {
			continue
		}
		if want := p.Succs[0] == x.Block(); constant.BoolVal(c.Value) == want {
			return iff
		}
	}
	return nil
}

func isCompare(op token.Token) bool {
	switch op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return true
	}
	return false
}

// extremum: v replaces the carried value only where it was compared with it.
func (l *mapLoop) extremum(v ssa.Value, fam func(ssa.Value) bool) bool {
	bt, ok := v.Type().Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsOrdered == 0 {
		return false
	}
	for b := range l.body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := iff.Cond.(*ssa.BinOp)
		if ok && isCompare(c.Op) && (c.X == v && fam(c.Y) || c.Y == v && fam(c.X)) {
			return true
		}
	}
	return false
}

// changed decides a change, in the body, to the memory v is part of.
func (l *mapLoop) changed(in ssa.Instruction, v, key ssa.Value, what string) {
	rs := map[ssa.Value]bool{}
	l.m.roots(v, map[ssa.Value]bool{}, rs)
	for x := range rs {
		switch {
		case l.local(x), l.elem[x]:
			continue
		case l.inBody(x):
			switch y := x.(type) {
			case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Extract, *ssa.MakeClosure:
				continue
			case *ssa.Call:
				if l.m.freshCall(y) {
					continue
				}
			case *ssa.UnOp:
				continue // received in this iteration
			}
			// The arguments of the call are roots of their own.
			continue
		}
		if key != nil && l.isKey(key) {
			l.fx = in
			continue
		}
		l.fail(in, "%s changes what outlives the iteration", what)
	}
}

func (l *mapLoop) run() {
	// Carried values.
	for _, in := range l.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok || l.elem[phi] {
			continue
		}
		var starts []ssa.Value
		for i, p := range l.header.Preds {
			if l.body[p] {
				starts = append(starts, phi.Edges[i])
			}
		}
		if l.counter(phi) {
			continue
		}
		name := phi.Comment
		if name == "" {
			name = phi.Name()
		}
		l.accumulate(phi, starts, phi, name)
	}
	cells := map[ssa.Value][]*ssa.Store{}
	var order []ssa.Value
	exits := map[string]bool{}
	guards := map[string]bool{}
	unguarded := false
	var exitAt ssa.Instruction
	for _, b := range l.f.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if l.m.memoStore(x.Addr) {
					continue
				}
				rs := map[ssa.Value]bool{}
				l.m.roots(x.Addr, map[ssa.Value]bool{}, rs)
				outer := false
				for y := range rs {
					if !l.local(y) && !l.elem[y] && !l.inBody(y) {
						outer = true
					}
				}
				if !outer {
					continue
				}
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if l.fills[x] {
						l.fx = in
						l.lists = append(l.lists, ia.X)
						continue
					}
					if l.isKey(ia.Index) {
						l.fx = in
						continue
					}
					if l.invariant(x.Val) && !l.invariant(ia.Index) {
						l.fx = in
						continue
					}
					l.fail(in, "the element stored depends on the order of the iterations")
					continue
				}
				found := false
				for _, c := range order {
					if sameAddr(c, x.Addr) {
						cells[c] = append(cells[c], x)
						found = true
					}
				}
				if !found {
					order = append(order, x.Addr)
					cells[x.Addr] = []*ssa.Store{x}
				}
			case *ssa.MapUpdate:
				l.mapUpdate(x)
			case *ssa.Send:
				l.fail(in, "sends on a channel in the order of the iterations")
			case *ssa.Select:
				l.fail(in, "waits on channels in the order of the iterations")
			case *ssa.Defer, *ssa.Go:
				l.fail(in, "starts calls in the order of the iterations")
			case *ssa.Call:
				if blt, ok := x.Call.Value.(*ssa.Builtin); ok && blt.Name() == "append" {
					continue
				}
				mut, what := l.m.callEffect(x)
				if what != "" {
					l.fail(in, "%s, in the order of the iterations", what)
					continue
				}
				args := fxArgs(x.Common())
				for i, k := range mut {
					if i >= len(args) {
						continue
					}
					var key ssa.Value
					if k >= 0 && k < len(args) {
						key = args[k]
					}
					name := "a call"
					if o := calleeObj(x.Common()); o != nil {
						name = o.Name()
					}
					l.changed(in, args[i], key, name)
				}
			case *ssa.Return:
				g := l.guarded(b)
				sig := "return"
				for _, v := range x.Results {
					if g == nil && !l.invariant(v) {
						l.fail(in, "returns a value of whichever iteration comes first")
					}
					sig += " " + valueKey(v)
				}
				exits[sig] = true
				exitAt = in
				if g == nil {
					unguarded = true
				} else {
					guards[valueKey(g)] = true
				}
			case *ssa.Panic:
				exits["panic"] = true
				exitAt = in
				unguarded = true
			}
		}
		for _, s := range b.Succs {
			if l.body[s] || s == l.header {
				continue
			}
			g := l.guarded(b)
			sig := fmt.Sprintf("to %d", s.Index)
			for i, p := range s.Preds {
				if p != b {
					continue
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if g == nil && !l.invariant(phi.Edges[i]) {
						l.fail(b.Instrs[len(b.Instrs)-1], "keeps a value of whichever iteration comes first")
					}
					sig += " " + valueKey(phi.Edges[i])
				}
			}
			exits[sig] = true
			exitAt = b.Instrs[len(b.Instrs)-1]
			if g == nil {
				unguarded = true
			} else {
				guards[valueKey(g)] = true
			}
		}
	}
	for _, c := range order {
		var starts []ssa.Value
		for _, s := range cells[c] {
			starts = append(starts, s.Val)
		}
		if _, isG := c.(*ssa.Global); !isG {
			if _, isA := c.(*ssa.Alloc); !isA && !l.invariant(c) {
				l.fail(cells[c][0], "stores into memory that outlives the iteration")
				continue
			}
		}
		l.accumulate(c, starts, cells[c][0], "a variable")
	}
	if len(exits) > 1 && (unguarded || len(guards) > 1) {
		l.fail(exitAt, "the iteration that comes first decides how the loop is left")
	}
	if len(exits) > 0 && l.fx != nil {
		l.fail(exitAt, "what happened before the loop is left depends on the order of the iterations")
	}
}

// counter: the index of a loop over a list.
func (l *mapLoop) counter(phi *ssa.Phi) bool {
	_, isSlice := l.src.Type().Underlying().(*types.Slice)
	if !isSlice {
		return false
	}
	for _, in := range l.header.Instrs {
		if b, ok := in.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == phi {
			return true
		}
	}
	iff, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	return ok && c.X == phi
}

func (l *mapLoop) mapUpdate(x *ssa.MapUpdate) {
	rs := map[ssa.Value]bool{}
	l.m.roots(x.Map, map[ssa.Value]bool{}, rs)
	outer := false
	for y := range rs {
		if !l.local(y) && !l.elem[y] && !l.inBody(y) {
			outer = true
		}
	}
	if !outer {
		return
	}
	l.fx = x
	same := func(v ssa.Value) bool { return v == x.Map || sameLoad(v, x.Map) }
	// Reading what other iterations stored shows their order.
	reads := func(allowed ssa.Value, keyed bool) {
		for b := range l.body {
			for _, in := range b.Instrs {
				lk, ok := in.(*ssa.Lookup)
				if !ok || !same(lk.X) || lk == allowed {
					continue
				}
				if keyed && l.isKey(lk.Index) {
					continue
				}
				l.fail(in, "an iteration looks at what the ones before it stored")
			}
		}
	}
	if l.isKey(x.Key) {
		reads(nil, true)
		return
	}
	if same(l.src) {
		l.fail(x, "adds to the map it ranges over")
		return
	}
	if l.invariant(x.Value) {
		reads(nil, false)
		return
	}
	base := func(v ssa.Value) *ssa.Lookup {
		if e, ok := v.(*ssa.Extract); ok {
			v = e.Tuple
		}
		lk, ok := v.(*ssa.Lookup)
		if ok && same(lk.X) && lk.Index == x.Key {
			return lk
		}
		return nil
	}
	switch v := x.Value.(type) {
	case *ssa.BinOp:
		bt, isB := v.Type().Underlying().(*types.Basic)
		if isB && bt.Info()&types.IsInteger != 0 && v.Op == token.ADD {
			lk := base(v.X)
			if lk == nil {
				lk = base(v.Y)
			}
			if lk != nil {
				reads(lk, false)
				return
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if lk := base(v.Call.Args[0]); lk != nil {
				reads(lk, false)
				l.maps = append(l.maps, x)
				return
			}
		}
	}
	l.fail(x, "two iterations may store under one key, and the last one wins")
}

// ---- finding the loops ----

func unorderedMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// loopAt builds the loop with the given header: the blocks its body entry
// dominates.
func (m *mapAn) loopAt(f *ssa.Function, header, entry *ssa.BasicBlock, at ssa.Instruction, what string, src ssa.Value) *mapLoop {
	l := &mapLoop{m: m, f: f, at: at, what: what, header: header, body: map[*ssa.BasicBlock]bool{}, elem: map[ssa.Value]bool{}, fills: map[*ssa.Store]bool{}, src: src}
	for _, b := range f.Blocks {
		if b != header && entry.Dominates(b) {
			l.body[b] = true
		}
	}
	return l
}

// decide runs the loop and what becomes of the lists it collects.
func (m *mapAn) decide(l *mapLoop) {
	m.r.count("loops", 1)
	l.run()
	cons := fname(l.f) + "|" + l.what
	if l.bad != "" {
		m.r.bad("order", cons, m.w.At(l.badAt), "%s in the loop over %s at %s", l.bad, l.what, m.w.At(l.at))
		return
	}
	for _, v := range l.lists {
		if !m.list(l.f, v, l, cons) {
			return
		}
	}
	for _, u := range l.maps {
		if !m.listMap(l, u, cons) {
			return
		}
	}
	m.r.ok("order", cons, m.w.At(l.at), "no effect of an iteration depends on the ones before it")
}

// mapRange handles one range over a map.
func (m *mapAn) mapRange(f *ssa.Function, rg *ssa.Range) {
	if !unorderedMapType(rg.X.Type()) {
		return
	}
	for _, u := range *rg.Referrers() {
		nx, ok := u.(*ssa.Next)
		if !ok {
			continue
		}
		var keys []ssa.Value
		var okv ssa.Value
		for _, e := range *nx.Referrers() {
			if x, isE := e.(*ssa.Extract); isE {
				switch x.Index {
				case 0:
					okv = x
				case 1:
					keys = append(keys, x)
				}
			}
		}
		entry := ifTrue(nx.Block(), okv)
		if entry == nil {
			m.r.bad("order", fname(f)+"|range", m.w.At(rg), "a loop over a map of a form not understood")
			continue
		}
		l := m.loopAt(f, nx.Block(), entry, rg, "a map", rg.X)
		for _, k := range keys {
			l.elem[k] = true
		}
		// The values too belong to one iteration; only the key tells it apart,
		// but memory reached through either is its own.
		m.decide(l)
	}
}

func ifTrue(b *ssa.BasicBlock, cond ssa.Value) *ssa.BasicBlock {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || cond == nil || iff.Cond != cond {
		return nil
	}
	return b.Succs[0]
}

// source: v is a list or a channel in no order.
func (m *mapAn) source(f *ssa.Function, v ssa.Value, what string) {
	if m.seen[v] {
		return
	}
	m.seen[v] = true
	cons := fname(f) + "|" + what
	if _, ok := v.Type().Underlying().(*types.Chan); ok {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				var okv ssa.Value
				l0 := map[ssa.Value]bool{}
				if x.CommaOk {
					for _, e := range *x.Referrers() {
						if y, isE := e.(*ssa.Extract); isE {
							if y.Index == 0 {
								l0[y] = true
							} else {
								okv = y
							}
						}
					}
				}
				entry := ifTrue(x.Block(), okv)
				if entry == nil {
					m.r.bad("order", cons, m.w.At(x), "receives in no order outside of a loop")
					continue
				}
				l := m.loopAt(f, x.Block(), entry, x, what, v)
				l.elem = l0
				m.decide(l)
			default:
				m.r.bad("order", cons, m.w.At(u), "the entries, in no order, are used for something not understood")
			}
		}
		return
	}
	if m.list(f, v, nil, cons) {
		m.r.ok("order", cons, m.w.Pos(v.Pos()), "sorted before its order shows")
	}
}

// list: v (a list value, or the variable holding it) is in no order after the
// loop (nil: everywhere). Every use must come after a sort, or not care.
func (m *mapAn) list(f *ssa.Function, v ssa.Value, l *mapLoop, cons string) bool {
	in := func(i ssa.Instruction) bool { return l != nil && (l.body[i.Block()] || i.Block() == l.header) }
	fam := []ssa.Value{v}
	seen := map[ssa.Value]bool{v: true}
	cellsSeen := map[ssa.Value]bool{}
	var sorts, uses []ssa.Instruction
	useOf := map[ssa.Instruction]ssa.Value{}
	add := func(x ssa.Value) {
		if !seen[x] {
			seen[x] = true
			fam = append(fam, x)
		}
	}
	switch x := v.(type) {
	case *ssa.FieldAddr, *ssa.Global:
		m.r.bad("order", cons, m.w.At(l.at), "collects a list in no order into memory that outlives the function")
		return false
	case *ssa.Alloc:
		_ = x
	case *ssa.FreeVar, *ssa.Parameter:
		m.r.bad("order", cons, m.w.At(l.at), "collects a list in no order into a variable of another function")
		return false
	}
	for i := 0; i < len(fam); i++ {
		x := fam[i]
		if x.Referrers() == nil {
			continue
		}
		_, isCell := x.(*ssa.Alloc)
		for _, u := range *x.Referrers() {
			if in(u) {
				continue
			}
			switch y := u.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				add(y)
				continue
			case *ssa.ChangeType:
				add(y)
				continue
			case *ssa.MakeInterface:
				add(y)
				continue
			case *ssa.Slice:
				if y.Low == nil && y.High == nil {
					add(y)
					continue
				}
			case *ssa.UnOp:
				if isCell && y.Op == token.MUL {
					// Loads before the loop see what was there before.
					if l == nil || blockReaches(l.header, y.Block()) {
						add(y)
					}
					continue
				}
			case *ssa.Store:
				if isCell && y.Addr == x {
					continue
				}
				if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == x {
					if !cellsSeen[al] {
						cellsSeen[al] = true
						add(al)
					}
					continue
				}
			case *ssa.MakeClosure:
				if onlySorts(y) {
					continue
				}
			case ssa.CallInstruction:
				c := y.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap":
						continue
					case "append":
						if c.Args[0] == x && len(c.Args) == 2 {
							add(y.Value())
							continue
						}
					}
				}
				o := calleeObj(c)
				if o != nil && o.Pkg() != nil {
					if p := o.Pkg().Path(); p == "sort" || p == "slices" && strings.HasPrefix(o.Name(), "Sort") {
						if o.Name() == "Reverse" {
							add(y.Value())
							continue
						}
						if why := m.weakSort(c, x); why != "" {
							m.r.bad("order", cons, m.w.At(u), "%s", why)
							return false
						}
						sorts = append(sorts, u)
						continue
					}
				}
			}
			uses = append(uses, u)
			useOf[u] = x
		}
	}
	for _, u := range uses {
		sorted := false
		for _, s := range sorts {
			if s != u && dominatesInstr(s, u) {
				sorted = true
			}
		}
		if sorted {
			continue
		}
		switch y := u.(type) {
		case *ssa.Return:
			if f.Object() == nil && f.Parent() != nil {
				break
			}
			if !m.unord[f] {
				m.unord[f] = true
				for _, call := range m.w.callersOf[f] {
					cv := call.Value()
					if cv == nil {
						continue
					}
					if len(y.Results) == 1 {
						m.source(call.Parent(), cv, "the list made by "+f.Name())
						continue
					}
					for _, e := range *cv.Referrers() {
						if x, isE := e.(*ssa.Extract); isE && y.Results[x.Index] == useOf[u] {
							m.source(call.Parent(), x, "the list made by "+f.Name())
						}
					}
				}
			}
			continue
		case *ssa.IndexAddr, *ssa.Index:
			if l2 := m.sliceLoop(f, y, useOf[u]); l2 != nil {
				m.decide(l2)
				continue
			}
		}
		m.r.bad("order", cons, m.w.At(u), "a list collected in no order is used before it is sorted")
		return false
	}
	return true
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	return reachFrom(a, 0, func(in ssa.Instruction) int {
		if in.Block() == b {
			return 1
		}
		return 0
	}) != nil
}

// onlySorts: a closure that is only given to a sort.
func onlySorts(c *ssa.MakeClosure) bool {
	for _, u := range *c.Referrers() {
		call, ok := u.(ssa.CallInstruction)
		if !ok {
			if _, dbg := u.(*ssa.DebugRef); dbg {
				continue
			}
			return false
		}
		o := calleeObj(call.Common())
		if o == nil || o.Pkg() == nil || o.Pkg().Path() != "sort" && o.Pkg().Path() != "slices" {
			return false
		}
	}
	return true
}

// weakSort: a sort whose comparison never compares elements or their fields.
func (m *mapAn) weakSort(c *ssa.CallCommon, v ssa.Value) string {
	var less *ssa.Function
	for _, a := range c.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok {
			less, _ = mc.Fn.(*ssa.Function)
		}
		if fn, ok := a.(*ssa.Function); ok {
			less = fn
		}
	}
	if less == nil {
		t := v.Type()
		if mi, ok := v.(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		n := namedOf(t)
		if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return ""
		}
		for _, mth := range []types.Type{t, types.NewPointer(t)} {
			if sel := types.NewMethodSet(mth).Lookup(n.Obj().Pkg(), "Less"); sel != nil {
				if o, ok := sel.Obj().(*types.Func); ok {
					less = m.w.Prog.FuncValue(o)
				}
			}
		}
	}
	if less == nil {
		return ""
	}
	direct := false
	var elem func(v ssa.Value, d int) bool
	elem = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.UnOp:
			return x.Op == token.MUL && elem(x.X, d+1)
		case *ssa.FieldAddr:
			return elem(x.X, d+1)
		case *ssa.Field:
			return elem(x.X, d+1)
		case *ssa.Convert:
			return elem(x.X, d+1)
		case *ssa.IndexAddr:
			return true
		case *ssa.Index:
			return true
		case *ssa.Parameter:
			_, isInt := x.Type().Underlying().(*types.Basic)
			return !isInt || x.Type().Underlying().(*types.Basic).Kind() != types.Int
		case *ssa.Alloc:
			for _, u := range *x.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == x {
					return elem(s.Val, d+1)
				}
			}
		}
		return false
	}
	instrs(less, func(in ssa.Instruction) {
		switch x := in.(type) {
		case *ssa.BinOp:
			if isCompare(x.Op) && elem(x.X, 0) && elem(x.Y, 0) {
				direct = true
			}
		case *ssa.Call:
			if o := calleeObj(x.Common()); o != nil && o.Pkg() != nil && (o.Name() == "Compare" || o.Name() == "Cmp" || o.Name() == "Less") {
				direct = true
			}
		}
	})
	if !direct {
		return "sorted by something that two elements may share, so that their order is left to the map"
	}
	return ""
}

// sliceLoop: the loop that visits the elements of a list one by one.
func (m *mapAn) sliceLoop(f *ssa.Function, in ssa.Instruction, list ssa.Value) *mapLoop {
	var idx ssa.Value
	switch x := in.(type) {
	case *ssa.IndexAddr:
		idx = x.Index
	case *ssa.Index:
		idx = x.Index
	}
	var phi *ssa.Phi
	switch x := idx.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		phi, _ = x.X.(*ssa.Phi)
	}
	if phi == nil {
		return nil
	}
	h := phi.Block()
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if c, ok := iff.Cond.(*ssa.BinOp); !ok || c.Op != token.LSS || c.X != idx {
		return nil
	}
	entry := h.Succs[0]
	if !entry.Dominates(in.Block()) {
		return nil
	}
	l := m.loopAt(f, h, entry, in, "a list in no order", list)
	for b := range l.body {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.UnOp:
				if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL && ia.X == list && ia.Index == idx {
					l.elem[x] = true
				}
			case *ssa.Index:
				if x.X == list && x.Index == idx {
					l.elem[x] = true
				}
			}
		}
	}
	// Other iterations are seen through the index.
	for b := range l.body {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if *op != idx {
					continue
				}
				switch y := i.(type) {
				case *ssa.IndexAddr:
					if y.X == list {
						continue
					}
				case *ssa.Index:
					if y.X == list {
						continue
					}
				case *ssa.DebugRef:
					continue
				case *ssa.BinOp:
					if y.X == phi && y.Op == token.ADD {
						continue
					}
				}
				l.fail(i, "the place in the list is used")
			}
		}
	}
	return l
}

// listMap: the loop collected lists under keys of a map; each must be sorted
// where it is looked up.
func (m *mapAn) listMap(l *mapLoop, u *ssa.MapUpdate, cons string) bool {
	mk, ok := u.Map.(*ssa.MakeMap)
	if !ok {
		m.r.bad("order", cons, m.w.At(u), "collects lists in no order into memory that outlives the function")
		return false
	}
	var sorted, looked []*ssa.Lookup
	sortAt := map[*ssa.Lookup]ssa.Instruction{}
	for _, ref := range *mk.Referrers() {
		if l.body[ref.Block()] {
			continue
		}
		switch x := ref.(type) {
		case *ssa.DebugRef, *ssa.MapUpdate, *ssa.Range:
			if rg, isR := ref.(*ssa.Range); isR {
				for _, nu := range *rg.Referrers() {
					for _, e := range *nu.(*ssa.Next).Referrers() {
						if ex, isE := e.(*ssa.Extract); isE && ex.Index == 2 && len(*ex.Referrers()) > 0 {
							m.r.bad("order", cons, m.w.At(ref), "the lists, in no order, are visited")
							return false
						}
					}
				}
			}
		case *ssa.Lookup:
			looked = append(looked, x)
			fam := []ssa.Value{x}
			for i := 0; i < len(fam); i++ {
				if fam[i].Referrers() == nil {
					continue
				}
				for _, y := range *fam[i].Referrers() {
					switch z := y.(type) {
					case *ssa.ChangeType:
						fam = append(fam, z)
					case *ssa.MakeInterface:
						fam = append(fam, z)
					case *ssa.Call:
						if o := calleeObj(z.Common()); o != nil && o.Pkg() != nil && (o.Pkg().Path() == "sort" || o.Pkg().Path() == "slices") {
							if o.Name() == "Reverse" {
								fam = append(fam, z)
							} else if m.weakSort(z.Common(), fam[i]) == "" {
								sorted = append(sorted, x)
								sortAt[x] = z
							}
						}
					}
				}
			}
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB && (b.Name() == "len" || b.Name() == "delete") {
				continue
			}
			m.r.bad("order", cons, m.w.At(ref), "the lists, in no order, are handed on")
			return false
		default:
			m.r.bad("order", cons, m.w.At(ref), "the lists, in no order, are handed on")
			return false
		}
	}
	for _, lk := range looked {
		fine := false
		for _, s := range sorted {
			if s.Index != lk.Index {
				continue
			}
			at := sortAt[s]
			fine = true
			fam := []ssa.Value{lk}
			for i := 0; i < len(fam); i++ {
				for _, y := range *fam[i].Referrers() {
					switch z := y.(type) {
					case *ssa.DebugRef:
					case *ssa.ChangeType:
						fam = append(fam, z)
					case *ssa.MakeInterface:
						fam = append(fam, z)
					case *ssa.Call:
						if o := calleeObj(z.Common()); o != nil && o.Name() == "Reverse" {
							fam = append(fam, z)
							continue
						}
						if y != at && !dominatesInstr(at, y) {
							fine = false
						}
					default:
						if !dominatesInstr(at, y) {
							fine = false
						}
					}
				}
			}
			if fine {
				break
			}
		}
		if !fine {
			m.r.bad("order", cons, m.w.At(lk), "a list collected in no order is used before it is sorted")
			return false
		}
	}
	return true
}

// generated says whether a file was written by a program.
func generated(f *ast.File) bool {
	return len(f.Comments) > 0 && f.Comments[0].Pos() < f.Package && strings.HasPrefix(f.Comments[0].Text(), "Code generated ")
}

func checkMaps(w *World, r *Report) {
	m := &mapAn{w: w, r: r, memo: map[string]bool{}, sums: map[*ssa.Function]*fxSum{}, fresh: map[*ssa.Function]int{}, unord: map[*ssa.Function]bool{}, seen: map[ssa.Value]bool{}}
	for _, f := range w.hashFields() {
		m.memo[f] = true
	}
	m.summarise()
	for _, f := range w.Funcs {
		if file := w.fileOf(f.Pos()); file != nil && generated(file) {
			continue
		}
		r.count("functions", 1)
		instrs(f, func(in ssa.Instruction) {
			switch x := in.(type) {
			case *ssa.Range:
				m.mapRange(f, x)
			case *ssa.Call:
				o := calleeObj(x.Common())
				if o == nil || o.Pkg() == nil {
					return
				}
				p := o.Pkg().Path()
				cons := fname(f) + "|" + o.Name()
				switch {
				case strings.HasSuffix(p, "concurrent-map"):
					switch o.Name() {
					case "Keys", "IterBuffered", "Iter":
						m.source(f, x, "the entries of a concurrent map")
					case "IterCb":
						r.bad("order", cons, w.At(in), "calls a function for the entries of a concurrent map in no order")
					}
				case p == "maps" && (o.Name() == "Keys" || o.Name() == "Values" || o.Name() == "All"):
					for _, u := range *x.Referrers() {
						c, ok := u.(*ssa.Call)
						if !ok {
							r.bad("order", cons, w.At(u), "the entries of a map, in no order, are used for something not understood")
							continue
						}
						o2 := calleeObj(c.Common())
						switch {
						case o2 != nil && strings.HasPrefix(o2.Name(), "Sorted"):
							r.ok("order", cons, w.At(u), "sorted")
						case o2 != nil && o2.Name() == "Collect":
							m.source(f, c, "the entries of a map")
						default:
							r.bad("order", cons, w.At(u), "the entries of a map, in no order, are used for something not understood")
						}
					}
				case p == "reflect" && (o.Name() == "MapKeys" || o.Name() == "MapRange"), p == "sync" && o.Name() == "Range":
					r.bad("order", cons, w.At(in), "visits a map in no order in a way not understood")
				}
			}
		})
	}
	r.atLeast("functions", 600)
	r.atLeast("loops", 4)
}
