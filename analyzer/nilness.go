package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val decides facts about what a value may be - that it is not nil, or that an
// interface holds a value of some type - from how it was made, the conditions
// known where it is used, the returns of the functions that computed it, the
// arguments at every caller and what is stored into fields and elements.
type Val struct {
	w    *World
	b    *Bnd
	memo map[string]string
	busy map[string]bool
	// elemSeen: element classes whose stores are obligations.
	glob   map[*ssa.Global][]*ssa.Store
	sigs   map[string][]*ssa.Function
	trace  bool
	depth  int
	splits int
}

func NewVal(w *World, b *Bnd) *Val {
	n := &Val{w: w, b: b, memo: map[string]string{}, busy: map[string]bool{}, glob: map[*ssa.Global][]*ssa.Store{}, sigs: map[string][]*ssa.Function{}}
	for _, f := range w.Funcs {
		instrs(f, func(in ssa.Instruction) {
			if st, ok := in.(*ssa.Store); ok {
				if g, ok := st.Addr.(*ssa.Global); ok {
					n.glob[g] = append(n.glob[g], st)
				}
			}
		})
		if len(w.addrTaken[f]) > 0 {
			k := sigKey(f.Signature)
			n.sigs[k] = append(n.sigs[k], f)
		}
	}
	return n
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

// goal is what is to be shown of a value: not nil (ty == nil) or of a type.
type goal struct {
	ty types.Type
	el string // constant indices: the goal is about this element of the expression
}

func (g goal) key() string {
	if g.ty == nil {
		return "nn"
	}
	return types.TypeString(g.ty, nil) + g.el
}

func refKind(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// conforms: a value of static type t is certainly what the goal asks for.
func (g goal) conforms(t types.Type) bool {
	if g.ty == nil || g.el != "" {
		return false
	}
	if types.Identical(t, g.ty) {
		return true
	}
	if i, ok := g.ty.Underlying().(*types.Interface); ok {
		return types.Implements(t, i)
	}
	return false
}

// show returns "" if the goal holds of v at the point, or why it is not shown.
func (n *Val) show(g goal, v ssa.Value, at bpoint) string {
	k := g.key() + "|" + n.ptKey(v, at)
	if r, ok := n.memo[k]; ok {
		return r
	}
	if n.busy[k] {
		return "" // coinductively
	}
	if n.depth > 60 {
		return "too deep at " + n.w.Pos(v.Pos())
	}
	n.busy[k] = true
	n.depth++
	r := n.show1(g, v, at)
	n.depth--
	delete(n.busy, k)
	n.memo[k] = r
	return r
}

func (n *Val) ptKey(v ssa.Value, at bpoint) string {
	k := strconv.Itoa(n.b.id(v)) + "@"
	if at.blk != nil {
		k += at.blk.Parent().RelString(nil) + "." + strconv.Itoa(at.blk.Index)
	}
	if at.to != nil {
		k += ">" + strconv.Itoa(at.to.Index)
	}
	if at.x != nil {
		for _, c := range *at.x {
			k += "," + strconv.Itoa(n.b.id(c.v)) + strconv.FormatBool(c.truth) + strconv.FormatBool(c.nn)
		}
	}
	return k
}

// known: the conditions at the point settle the goal, or exclude the point.
func (n *Val) known(g goal, v ssa.Value, f *facts) bool {
	if f.contra {
		return true
	}
	if g.el != "" {
		// known of the part itself
		p := n.b.pathOf(v)
		for _, e := range strings.Split(g.el[1:], ".") {
			i, _ := strconv.ParseInt(e, 10, 64)
			p = withTok(withTok(p, tok{kind: 'f', name: "Parts", fv: n.partsVar()}), tok{kind: 'i', n: i})
		}
		k := n.b.key(p)
		for _, t := range f.typ {
			if t.k == k && (goal{ty: g.ty}).conforms(t.t) {
				return true
			}
		}
		return false
	}
	pk := n.b.key(n.b.pathOf(v))
	if g.ty == nil && f.nn[pk] {
		return true
	}
	if n.noKind(f) {
		return true
	}
	if ld, ok := v.(*ssa.UnOp); ok && g.ty == nil {
		if fa, ok := ld.X.(*ssa.FieldAddr); ok {
			k := n.b.fieldKey(fa)
			for _, t := range f.nnv {
				if t.k == k && n.b.unchanged(t.at, ld, fieldVar(fa.X.Type(), fa.Field)) {
					return true
				}
			}
		}
	}
	for _, t := range f.typ {
		if t.k == pk && (g.ty == nil || g.conforms(t.t)) {
			return true
		}
	}
	return false
}

// noKind: the conditions say of a value that it is of none of the kinds of
// values of its interface type, which excludes the point.
func (n *Val) noKind(f *facts) bool {
	not := map[string][]types.Type{}
	val := map[string]ssa.Value{}
	for v, t := range f.bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || t || ex.Index != 1 {
			continue
		}
		if ta, ok := ex.Tuple.(*ssa.TypeAssert); ok {
			k := n.b.key(n.b.pathOf(ta.X))
			not[k] = append(not[k], ta.AssertedType)
			val[k] = ta.X
		}
	}
	for k, ts := range not {
		it, ok := val[k].Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() == 0 || len(ts) < 2 {
			continue
		}
		all, some := true, false
		for _, c := range n.w.Kinds(it) {
			some = true
			one := false
			for _, t := range ts {
				if types.Identical(t, c) {
					one = true
				} else if ti, ok := t.Underlying().(*types.Interface); ok && types.Implements(c, ti) {
					one = true
				}
			}
			all = all && one
		}
		if some && all && n.show(goal{}, val[k], bpoint{}) == "" {
			return true
		}
	}
	return false
}

func (n *Val) show1(g goal, v ssa.Value, at bpoint) string {
	f := newFacts()
	if at.blk != nil {
		f = n.b.pf(at)
	}
	if n.known(g, v, f) || g.ty == nil && n.usedBefore(v, at) {
		return ""
	}
	r := n.show2(g, v, at, f)
	if r != "" && at.blk != nil && n.split(g, v, at) {
		return ""
	}
	return r
}

// usedBefore: on every way to the point a method of the value has been called or
// a field of it addressed, which would have panicked.
func (n *Val) usedBefore(v ssa.Value, at bpoint) bool {
	for _, r := range *orEmpty(v.Referrers()) {
		switch x := r.(type) {
		case ssa.CallInstruction:
			if !x.Common().IsInvoke() || x.Common().Value != v {
				continue
			}
		case *ssa.FieldAddr:
			if x.X != v {
				continue
			}
		default:
			continue
		}
		b := r.Block()
		if _, d := r.(*ssa.Defer); d || at.blk == nil || b.Parent() != at.blk.Parent() {
			continue
		}
		if b == at.blk && at.to != nil || b != at.blk && b.Dominates(at.blk) {
			return true
		}
	}
	return false
}

// split decides the goal separately for the ways into a block above the point.
func (n *Val) split(g goal, v ssa.Value, at bpoint) bool {
	if n.splits > 2 {
		return false
	}
	var def *ssa.BasicBlock
	if in, ok := v.(ssa.Instruction); ok {
		def = in.Block()
		if def == nil || def.Parent() != at.blk.Parent() {
			return false
		}
	}
	n.splits++
	defer func() { n.splits-- }()
	tried := 0
	for d := at.blk; d != nil && tried < 6; d = d.Idom() {
		if def != nil && !(def != d && def.Dominates(d)) {
			break
		}
		if len(d.Preds) < 2 || at.to != nil && d == at.blk && false {
			continue
		}
		tried++
		if n.splitAt(g, v, at, d) {
			return true
		}
	}
	return false
}

func (n *Val) splitAt(g goal, v ssa.Value, at bpoint, d *ssa.BasicBlock) bool {
	f := n.b.pf(at)
	for i, p := range d.Preds {
		if n.edgeOut(d, i, f) {
			continue
		}
		var xs []bcond
		loop := false
		for _, q := range d.Preds {
			loop = loop || d.Dominates(q)
		}
		if !loop {
			if c := n.b.carry(at, d); c != nil {
				xs = append(xs, *c...)
			}
		}
		xs = append(xs, n.edgeKnown(d, i, f)...)
		pt := bpoint{blk: p, to: d}
		if len(xs) > 0 {
			pt.x = &xs
		}
		if r := n.show(g, v, pt); r != "" {
			return false
		}
	}
	return true
}

// edgeOut: what is known after the join excludes this way into it.
func (n *Val) edgeOut(d *ssa.BasicBlock, i int, f *facts) bool {
	if len(d.Instrs) > 0 {
		if iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok {
			bo, isBo := iff.Cond.(*ssa.BinOp)
			if t, known := f.bool[iff.Cond]; known && isBo && isInt(bo.X.Type()) {
				if n.edgeContra(d, i, bo, t) {
					return true
				}
			}
		}
	}
	for _, in := range d.Instrs {
		q, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		cv, isC := q.Edges[i].(*ssa.Const)
		if !isC {
			continue
		}
		if t, known := f.bool[q]; known && cv.Value != nil && (cv.Value.String() == "true") != t {
			return true
		}
		if isNilConst(cv) && f.nn[n.b.key(n.b.pathOf(q))] {
			return true
		}
		if cv.Value == nil {
			continue
		}
		for _, r := range *orEmpty(q.Referrers()) {
			bo, ok := r.(*ssa.BinOp)
			if !ok || bo.X != q || bo.Op != token.EQL && bo.Op != token.NEQ {
				continue
			}
			k, isK := bo.Y.(*ssa.Const)
			t, known := f.bool[bo]
			if isK && known && k.Value != nil && (bo.Op == token.EQL) == t && !constant.Compare(k.Value, token.EQL, cv.Value) {
				return true
			}
		}
	}
	return false
}

// edgeContra: on this way into the block, the integer comparison that ends the
// block has the other truth value.
func (n *Val) edgeContra(d *ssa.BasicBlock, i int, bo *ssa.BinOp, truth bool) bool {
	at := func(v ssa.Value) (sym, int64, bool) {
		off := int64(0)
		if x, ok := v.(*ssa.BinOp); ok && x.Op == token.ADD {
			if k, isK := constInt(x.Y); isK {
				v, off = x.X, k
			}
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == d {
			s, c := n.b.norm(ph.Edges[i])
			return s, c + off, true
		}
		s, c := n.b.norm(v)
		return s, c + off, true
	}
	s, c, _ := at(bo.X)
	t, e, _ := at(bo.Y)
	p := d.Preds[i]
	le := func(s sym, c int64, t sym, e int64) bool { return n.b.LE(s, c, t, e, p) }
	op := bo.Op
	if !truth {
		switch op {
		case token.LSS: // known s >= t
			return le(s, c+1, t, e)
		case token.LEQ:
			return le(s, c, t, e)
		case token.GTR:
			return le(t, e+1, s, c)
		case token.GEQ:
			return le(t, e, s, c)
		}
		return false
	}
	switch op {
	case token.LSS:
		return le(t, e, s, c)
	case token.LEQ:
		return le(t, e+1, s, c)
	case token.GTR:
		return le(s, c, t, e)
	case token.GEQ:
		return le(s, c+1, t, e)
	}
	return false
}

func (n *Val) show2(g goal, v ssa.Value, at bpoint, f *facts) string {
	if g.ty != nil && g.conforms(v.Type()) {
		return n.show(goal{}, v, at)
	}
	pos := func(v ssa.Value) string {
		if in, ok := v.(ssa.Instruction); ok {
			return n.w.At(in)
		}
		return n.w.Pos(v.Pos())
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return "nil"
		}
		return ""
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar, *ssa.Builtin, *ssa.Slice:
		return ""
	case *ssa.MakeInterface:
		if g.el != "" {
			return n.show(g, x.X, at)
		}
		if g.ty != nil && !g.conforms(x.X.Type()) {
			return "a " + types.TypeString(x.X.Type(), shortQual) + " made at " + pos(x)
		}
		if _, ptr := x.X.Type().Underlying().(*types.Pointer); ptr {
			return n.show(goal{}, x.X, at)
		}
		return ""
	case *ssa.ChangeInterface:
		return n.show(g, x.X, at)
	case *ssa.ChangeType:
		return n.show(g, x.X, at)
	case *ssa.Convert, *ssa.BinOp, *ssa.SliceToArrayPointer:
		return ""
	case *ssa.TypeAssert:
		if g.ty == nil {
			return ""
		}
		return n.show(g, x.X, at)
	case *ssa.Phi:
		return n.phi(g, x, at, f)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.TypeAssert:
			if ok, known := n.okOf(t, f); known && ok {
				if g.ty == nil {
					return ""
				}
				return n.show(g, t.X, at)
			}
			return "the type assertion at " + pos(t) + " may have failed"
		case *ssa.Lookup:
			if ok, known := n.okOf(t, f); known && ok {
				return n.elem(g, t.X, pos(t))
			}
			return "the key may be missing at " + pos(t)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				return n.elem(g, r.X, pos(t))
			}
			return ""
		case *ssa.Call:
			return n.result(g, t, x.Index, at, f)
		case *ssa.UnOp: // receive
			return ""
		}
		return "unknown value at " + pos(x)
	case *ssa.Lookup:
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			if n.keyOf(x.Index, x.X) {
				return n.elem(g, x.X, pos(x))
			}
			return "the key may be missing at " + pos(x)
		}
		return ""
	case *ssa.Index:
		return n.elem(g, x.X, pos(x))
	case *ssa.Call:
		if g.el != "" {
			if src := copiedFrom(&x.Call); src != nil {
				return n.show(g, src, at)
			}
			if v := n.literalPart(g, x); v != nil {
				h := g
				h.el = g.el[1:]
				if j := strings.IndexByte(h.el, '.'); j >= 0 {
					h.el = h.el[j:]
				} else {
					h.el = ""
				}
				return n.show(h, v, bpoint{blk: x.Block()})
			}
		}
		return n.result(g, x, 0, at, f)
	case *ssa.Parameter:
		return n.param(g, x, f)
	case *ssa.Field:
		return n.field(g, fieldVar(x.X.Type(), x.Field), pos(x))
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.Global:
			return n.global(g, a)
		case *ssa.FieldAddr:
			if al, ok := a.X.(*ssa.Alloc); ok {
				if sv := n.b.localField(al, a.Field); sv != nil {
					return n.show(g, sv, at)
				}
			}
			r := n.field(g, fieldVar(a.X.Type(), a.Field), pos(x))
			if r != "" && g.ty == nil && n.ensured(a, x) {
				return ""
			}
			return r
		case *ssa.IndexAddr:
			if g.ty != nil {
				if i, ok := constInt(a.Index); ok {
					return n.element(g, a, i, x, at)
				}
			}
			return n.elem(g, a.X, pos(x))
		case *ssa.Alloc:
			return n.cell(g, a, x)
		case *ssa.FreeVar:
			bind := n.b.binding(a)
			if al, ok := bind.(*ssa.Alloc); ok {
				return n.cell(g, al, x)
			}
			if bind != nil {
				return n.show(g, bind, bpoint{})
			}
			return "captured variable " + a.Name() + " at " + pos(x)
		}
		return "value behind a pointer at " + pos(x)
	}
	return "unknown value " + v.String() + " at " + pos(v)
}

func shortQual(p *types.Package) string { return p.Name() }

// okOf is the truth of the ok result of a comma-ok instruction, if known.
func (n *Val) okOf(tuple ssa.Value, f *facts) (bool, bool) {
	for _, r := range *orEmpty(tuple.Referrers()) {
		if ex, is := r.(*ssa.Extract); is && ex.Index == 1 {
			if t, known := f.bool[ex]; known {
				return t, true
			}
		}
	}
	return false, false
}

func (n *Val) phi(g goal, x *ssa.Phi, at bpoint, f *facts) string {
	blk := x.Block()
	for i, e := range x.Edges {
		if n.edgeOut(blk, i, f) {
			continue
		}
		pt := bpoint{blk: blk.Preds[i], to: blk}
		if at.blk != nil && at.blk.Parent() == blk.Parent() && blk.Dominates(at.blk) {
			xs := n.edgeKnown(blk, i, f)
			if c := n.b.carryPhi(at, x, i); c != nil {
				xs = append(xs, *c...)
			}
			if len(xs) > 0 {
				pt.x = &xs
			}
		}
		if r := n.show(g, e, pt); r != "" {
			return r
		}
	}
	return ""
}

// edgeKnown: what is known of the values merged in the block, said of the values
// that came in one way.
func (n *Val) edgeKnown(blk *ssa.BasicBlock, i int, f *facts) []bcond {
	var xs []bcond
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if t, known := f.bool[ph]; known {
			xs = append(xs, bcond{v: ph.Edges[i], truth: t})
		}
		if refKind(ph.Type()) && f.nn[n.b.key(n.b.pathOf(ph))] {
			if _, c := ph.Edges[i].(*ssa.Const); !c {
				xs = append(xs, bcond{v: ph.Edges[i], truth: true, nn: true})
			}
		}
	}
	return xs
}

// result: the i-th result of a call.
func (n *Val) result(g goal, call *ssa.Call, i int, at bpoint, f *facts) string {
	res := call.Call.Signature().Results()
	if i >= res.Len() {
		return ""
	}
	cs := n.w.Callees(call)
	ext := true
	for _, c := range cs {
		if len(c.Blocks) > 0 && n.w.inScope[c] {
			ext = false
		}
	}
	if ext && call.Call.StaticCallee() == nil && !call.Call.IsInvoke() {
		if fn, ok := call.Call.Value.(*ssa.Builtin); ok {
			_ = fn
			return ""
		}
		if mc, ok := call.Call.Value.(*ssa.MakeClosure); ok {
			cs = []*ssa.Function{mc.Fn.(*ssa.Function)}
		} else {
			cs = n.sigs[sigKey(call.Call.Signature())]
		}
		ext = false
	}
	if ext {
		return n.external(g, call, i, f)
	}
	if g.ty == nil && i == 0 && n.foldOfNumbers(call) {
		return ""
	}
	for _, c := range cs {
		if len(c.Blocks) == 0 {
			continue
		}
		for _, blk := range c.Blocks {
			ret, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return)
			if !ok || blk == c.Recover || i >= len(ret.Results) {
				continue
			}
			if n.b.excluded(ret, call, f) {
				continue
			}
			if g.ty == nil && len(ret.Results) > 1 && madeHere(ret.Results[i]) && onlyFailing(ret) {
				return "what is returned with false at " + n.w.At(ret)
			}
			pt := bpoint{blk: blk}
			var xs []bcond
			for j := range ret.Results {
				if j == i {
					continue
				}
				for _, r := range *orEmpty(call.Referrers()) {
					if ex, is := r.(*ssa.Extract); is && ex.Index == j {
						if t, known := f.bool[ex]; known {
							xs = append(xs, bcond{v: ret.Results[j], truth: t})
						}
					}
				}
			}
			if len(xs) > 0 {
				pt.x = &xs
			}
			if r := n.show(g, ret.Results[i], pt); r != "" {
				if g.ty == nil && n.setBefore(call, c, ret.Results[i]) {
					continue
				}
				if r == "nil" {
					r = "nil returned at " + n.w.At(ret)
				}
				return r
			}
		}
	}
	return ""
}

// Library functions that may return nil without an error or ok result.
var mayNil = map[string]bool{
	"(*math/big.Int).ModInverse": true, "(*math/big.Int).ModSqrt": true, "(*math/big.Int).Exp": true,
	"(*math/big.Float).Rat": true, "(*math/big.Rat).SetFloat64": true, "(*flag.FlagSet).Lookup": true, "flag.Lookup": true,
	"(*regexp.Regexp).FindStringSubmatch": true, "runtime.FuncForPC": true, "recover": true,
}

func (n *Val) external(g goal, call *ssa.Call, i int, f *facts) string {
	res := call.Call.Signature().Results()
	where := n.w.At(call)
	name := "a library function"
	if o := calleeObj(&call.Call); o != nil {
		name = o.FullName()
	}
	if g.ty != nil {
		if g.conforms(res.At(i).Type()) {
			return ""
		}
		if n.containerOf(g, call.Call.Signature().Recv(), call.Call.StaticCallee()) {
			if i > 0 || res.Len() == 1 {
				return ""
			}
			for _, r := range *orEmpty(call.Referrers()) {
				if ex, is := r.(*ssa.Extract); is && ex.Index == res.Len()-1 && f.bool[ex] {
					return ""
				}
			}
			return name + " may have found nothing at " + where
		}
		return "result of " + name + " at " + where
	}
	if mayNil[name] && !(name == "(*math/big.Int).Exp" && isNilConst(call.Call.Args[3])) {
		return name + " may return nil at " + where
	}
	if isErr(res.At(i).Type()) {
		return "the error of " + name + " may be nil at " + where
	}
	last := res.Len() - 1
	if last > 0 && i != last {
		sib := func(j int) ssa.Value {
			for _, r := range *orEmpty(call.Referrers()) {
				if ex, is := r.(*ssa.Extract); is && ex.Index == j {
					return ex
				}
			}
			return nil
		}
		lt := res.At(last).Type()
		s := sib(last)
		if isErr(lt) && (s == nil || !f.isnil[n.b.key(n.b.pathOf(s))]) {
			return name + " may have failed at " + where
		}
		if bt, ok := lt.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			if s == nil || !f.bool[s] {
				return name + " may have failed at " + where
			}
		}
	}
	return ""
}

func isErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func (n *Val) param(g goal, x *ssa.Parameter, fs *facts) string {
	f := x.Parent()
	idx := -1
	for i, p := range f.Params {
		if p == x {
			idx = i
		}
	}
	for _, call := range n.w.callersOf[f] {
		c := call.Common()
		var arg ssa.Value
		if c.IsInvoke() {
			if idx == 0 {
				// the receiver of an interface call: the value inside it
				if r := n.show(goal{}, c.Value, bpoint{blk: call.Block()}); r != "" {
					if r == "nil" {
						r = "nil receiver at " + n.w.At(call)
					}
					return r
				}
				continue
			}
			arg = c.Args[idx-1]
		} else if idx < len(c.Args) {
			arg = c.Args[idx]
		}
		if arg == nil {
			continue
		}
		pt := bpoint{blk: call.Block()}
		if !c.IsInvoke() {
			var xs []bcond
			for j, p := range f.Params {
				if t, known := fs.bool[p]; known && j < len(c.Args) {
					xs = append(xs, bcond{v: c.Args[j], truth: t})
				}
			}
			if len(xs) > 0 {
				pt.x = &xs
			}
		}
		if r := n.show(g, arg, pt); r != "" {
			if r == "nil" {
				r = "nil passed at " + n.w.At(call)
			}
			return r
		}
	}
	if g.ty != nil && (len(n.w.callersOf[f]) == 0 || !n.b.onlyCalled(f)) {
		return "parameter " + x.Name() + " of " + fname(f)
	}
	return ""
}

func (n *Val) global(g goal, x *ssa.Global) string {
	if n.w.SSA[x.Pkg.Pkg.Path()] == nil {
		if g.ty != nil {
			return "library variable " + x.Name()
		}
		return ""
	}
	if len(n.glob[x]) == 0 {
		return "variable " + x.Name() + " is never set"
	}
	for _, st := range n.glob[x] {
		if r := n.show(g, st.Val, bpoint{blk: st.Block()}); r != "" {
			return r
		}
	}
	return ""
}

func (n *Val) field(g goal, fv *types.Var, where string) string {
	if fv == nil {
		return "field at " + where
	}
	if fv.Pkg() == nil || n.w.SSA[fv.Pkg().Path()] == nil {
		if g.ty != nil {
			if fv.Pkg() != nil && n.containerPkg(g, fv.Pkg()) {
				return ""
			}
			return "library field " + fv.Name()
		}
		return ""
	}
	k := g.key() + "|field|" + strconv.Itoa(int(fv.Pos())) + fv.Name()
	if r, ok := n.memo[k]; ok {
		return r
	}
	if n.busy[k] {
		return ""
	}
	n.busy[k] = true
	r := ""
	for _, st := range n.b.fstores[fv] {
		if r = n.show(g, st.Val, bpoint{blk: st.Block()}); r != "" && !n.published(g, st) {
			if r == "nil" {
				r = "nil stored into field " + fv.Name() + " at " + n.w.At(st)
			}
			break
		}
		r = ""
	}
	if r == "" && (len(n.b.fstores[fv]) == 0 || !n.b.alwaysSet(fv)) {
		r = "field " + fv.Name() + " is not set everywhere its struct is made (read at " + where + ")"
	}
	delete(n.busy, k)
	n.memo[k] = r
	return r
}

// published: the struct is new, and wherever it is passed on after the store
// the stored value is known to satisfy the goal.
func (n *Val) published(g goal, st *ssa.Store) bool {
	fa := st.Addr.(*ssa.FieldAddr)
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *orEmpty(al.Referrers()) {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
			continue
		case *ssa.Store:
			if x.Addr == al {
				continue
			}
		}
		if !reaches(st, r) {
			continue
		}
		if onlyFailing(r) {
			continue
		}
		if n.show(g, st.Val, bpoint{blk: r.Block()}) != "" && !n.afterStore(g, st, r) {
			return false
		}
	}
	return true
}

// onlyFailing: the value is only returned together with false.
func onlyFailing(r ssa.Instruction) bool {
	switch x := r.(type) {
	case *ssa.Return:
		for _, v := range x.Results {
			if cv, ok := v.(*ssa.Const); ok && cv.Value != nil && cv.Value.Kind() == constant.Bool && !constant.BoolVal(cv.Value) {
				return true
			}
		}
	case *ssa.MakeInterface:
		for _, r2 := range *orEmpty(x.Referrers()) {
			if _, dbg := r2.(*ssa.DebugRef); !dbg && !onlyFailing(r2) {
				return false
			}
		}
		return true
	}
	return false
}

// madeHere: a struct made in the function itself.
func madeHere(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	_, ok := v.(*ssa.Alloc)
	return ok
}

// afterStore: some join between the store and the use tells, for every way into
// it that comes from the store, that the goal holds.
func (n *Val) afterStore(g goal, st *ssa.Store, use ssa.Instruction) bool {
	for d := use.Block(); d != nil; d = d.Idom() {
		if len(d.Preds) < 2 || d.Dominates(st.Block()) {
			continue
		}
		f := n.b.pf(bpoint{blk: use.Block()})
		good, from := true, 0
		for i, p := range d.Preds {
			if !st.Block().Dominates(p) {
				if n.b.blockReaches(st.Block(), p, d) {
					good = false
				}
				continue
			}
			from++
			if n.edgeOut(d, i, f) {
				continue
			}
			xs := n.edgeKnown(d, i, f)
			pt := bpoint{blk: p, to: d}
			if len(xs) > 0 {
				pt.x = &xs
			}
			if n.show(g, st.Val, pt) != "" {
				good = false
			}
		}
		if good && from > 0 {
			return true
		}
	}
	return false
}

// blockReaches: a path from one block to another not through the third.
func (b *Bnd) blockReaches(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		if x == to {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// elem: elements of slices and maps; every store of one is an obligation.
func (n *Val) elem(g goal, of ssa.Value, where string) string {
	if g.ty != nil {
		return "element at " + where
	}
	et := elemType(of.Type())
	if et == nil || n.elemObliged(et) {
		return ""
	}
	k := "elem|" + types.TypeString(et, nil)
	if r, ok := n.memo[k]; ok {
		return r
	}
	if n.busy[k] {
		return ""
	}
	n.busy[k] = true
	r := ""
	for _, f := range n.w.Funcs {
		instrs(f, func(in ssa.Instruction) {
			var v ssa.Value
			switch x := in.(type) {
			case *ssa.Store:
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok && types.Identical(elemType(ia.X.Type()), et) {
					v = x.Val
				}
			case *ssa.MapUpdate:
				if types.Identical(elemType(x.Map.Type()), et) {
					v = x.Value
				}
			}
			if v != nil && r == "" {
				r = n.show(goal{}, v, bpoint{blk: in.Block()})
				if r == "nil" {
					r = "nil stored as element at " + n.w.At(in)
				}
			}
		})
	}
	delete(n.busy, k)
	n.memo[k] = r
	return r
}

// elemObliged: every store of such an element is an obligation of its own.
func (n *Val) elemObliged(t types.Type) bool {
	return isNamed(t, pkgAPI, "Ex") || isNamed(t, pkgAPI, "ExpressionInterface")
}

func elemType(t types.Type) types.Type {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		return x.Elem()
	case *types.Array:
		return x.Elem()
	case *types.Map:
		return x.Elem()
	case *types.Pointer:
		return elemType(x.Elem())
	}
	return nil
}

// keyOf: the value is an element of a slice into which only keys of the map
// have been put.
func (n *Val) keyOf(k, m ssa.Value) bool {
	mapKey := func(v ssa.Value) string {
		if ld, ok := v.(*ssa.UnOp); ok {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				return n.b.fieldKey(fa)
			}
		}
		return n.b.key(n.b.pathOf(v))
	}
	mk := mapKey(m)
	sameMap := func(v ssa.Value) bool { return mapKey(v) == mk }
	isKey := func(v ssa.Value) bool {
		ex, ok := v.(*ssa.Extract)
		if !ok || ex.Index != 1 {
			return false
		}
		nx, ok := ex.Tuple.(*ssa.Next)
		if !ok {
			return false
		}
		rg, ok := nx.Iter.(*ssa.Range)
		return ok && sameMap(rg.X)
	}
	if isKey(k) {
		return true
	}
	ld, ok := k.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !from(e) {
					return false
				}
			}
			return true
		case *ssa.MakeSlice:
			return !storesInto(x) || filledWith(x, isKey)
		case *ssa.Slice:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				return from(x.X)
			}
			for _, r := range *orEmpty(al.Referrers()) {
				if a, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *orEmpty(a.Referrers()) {
						if st, ok := r2.(*ssa.Store); ok && !isKey(st.Val) {
							return false
						}
					}
				}
			}
			return true
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				return from(x.Call.Args[0]) && from(x.Call.Args[1])
			}
			// A function that returns such a slice for the same map.
			callee := x.Call.StaticCallee()
			if callee == nil || x.Call.IsInvoke() || !n.w.inScope[callee] || callee.Signature.Results().Len() != 1 || len(callee.FreeVars) > 0 {
				return false
			}
			outer := sameMap
			defer func() { sameMap = outer }()
			sameMap = func(v ssa.Value) bool {
				for i, p := range callee.Params {
					if v == p {
						return outer(x.Call.Args[i])
					}
					ld, ok := v.(*ssa.UnOp)
					if !ok {
						continue
					}
					fa, ok := ld.X.(*ssa.FieldAddr)
					if !ok || fa.X != p {
						continue
					}
					mld, ok := m.(*ssa.UnOp)
					if !ok {
						continue
					}
					mfa, ok := mld.X.(*ssa.FieldAddr)
					if ok && mfa.Field == fa.Field && types.Identical(mfa.X.Type(), fa.X.Type()) && (mfa.X == x.Call.Args[i] || n.b.key(n.b.pathOf(mfa.X)) == n.b.key(n.b.pathOf(x.Call.Args[i]))) {
						return true
					}
				}
				return false
			}
			ok := true
			instrs(callee, func(in ssa.Instruction) {
				if ret, isR := in.(*ssa.Return); isR && !from(ret.Results[0]) {
					ok = false
				}
			})
			return ok
		}
		return false
	}
	return from(ia.X)
}

// filledWith: a slice as long as a map, of which the loop over the map fills one
// element after the other.
func filledWith(mk *ssa.MakeSlice, isKey func(ssa.Value) bool) bool {
	ln, ok := mk.Len.(*ssa.Call)
	if !ok {
		return false
	}
	if bi, isB := ln.Call.Value.(*ssa.Builtin); !isB || bi.Name() != "len" {
		return false
	}
	any := false
	for _, r := range *orEmpty(mk.Referrers()) {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *orEmpty(ia.Referrers()) {
			st, ok := r2.(*ssa.Store)
			if !ok {
				continue
			}
			phi, ok := ia.Index.(*ssa.Phi)
			if !ok || !isKey(st.Val) || any {
				return false
			}
			nx := st.Val.(*ssa.Extract).Tuple.(*ssa.Next)
			mp := nx.Iter.(*ssa.Range).X
			if !sameLoad(mp, ln.Call.Args[0]) && mp != ln.Call.Args[0] || phi.Block() != nx.Block() {
				return false
			}
			for i, e := range phi.Edges {
				p := phi.Block().Preds[i]
				if c, isC := constInt(e); isC && c == 0 && p.Dominates(phi.Block()) {
					continue
				}
				add, isA := e.(*ssa.BinOp)
				one, isOne := int64(0), false
				if isA {
					one, isOne = constInt(add.Y)
				}
				if !isA || add.Op != token.ADD || add.X != phi || !isOne || one != 1 || !st.Block().Dominates(p) {
					return false
				}
			}
			any = true
		}
	}
	return any
}

func storesInto(v ssa.Value) bool {
	for _, r := range *orEmpty(v.Referrers()) {
		if _, ok := r.(*ssa.IndexAddr); ok {
			return true
		}
	}
	return false
}

// cell: a variable that closures share, or that is not lifted to a register.
func (n *Val) cell(g goal, al *ssa.Alloc, load *ssa.UnOp) string {
	stores := cellStores(al)
	dom := false
	for _, st := range stores {
		if r := n.show(g, st.Val, bpoint{blk: st.Block()}); r != "" {
			if r == "nil" {
				r = "nil assigned at " + n.w.At(st)
			}
			return r
		}
		if st.Parent() == load.Parent() {
			if st.Block() == load.Block() && before(st, load) || st.Block() != load.Block() && st.Block().Dominates(load.Block()) {
				dom = true
			}
		} else if st.Parent() == al.Parent() {
			dom = true // set where the closure is made
		}
	}
	if !dom {
		if len(stores) == 0 {
			return "variable never assigned, at " + n.w.At(load)
		}
		return "variable may not have been assigned at " + n.w.At(load)
	}
	return ""
}

func before(a, b ssa.Instruction) bool {
	for _, in := range a.Block().Instrs {
		if in == a {
			return true
		}
		if in == b {
			return false
		}
	}
	return false
}

// cellStores are the stores to a variable in its function and closures.
func cellStores(al *ssa.Alloc) []*ssa.Store {
	var out []*ssa.Store
	var visit func(v ssa.Value)
	seen := map[ssa.Value]bool{}
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		for _, r := range *orEmpty(v.Referrers()) {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, x)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						visit(fn.FreeVars[i])
					}
				}
			}
		}
	}
	visit(al)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// localField is the value stored into a field of a struct made here, if it is
// stored exactly once and the struct does not escape before.
func (b *Bnd) localField(al *ssa.Alloc, field int) ssa.Value {
	var val ssa.Value
	n := 0
	for _, r := range *orEmpty(al.Referrers()) {
		fa, ok := r.(*ssa.FieldAddr)
		if !ok || fa.Field != field {
			continue
		}
		for _, r2 := range *orEmpty(fa.Referrers()) {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == fa {
				val = st.Val
				n++
			}
		}
	}
	fv := fieldVar(al.Type(), field)
	if n != 1 || fv == nil || b.mutF[fv] || b.fieldEscapes(fv) {
		return nil
	}
	return val
}

// ensured: a method called on the struct before makes sure the field is set.
func (n *Val) ensured(fa *ssa.FieldAddr, load ssa.Instruction) bool {
	fv := fieldVar(fa.X.Type(), fa.Field)
	base := n.b.key(n.b.pathOf(fa.X))
	ok := false
	instrs(load.Parent(), func(in ssa.Instruction) {
		if ok {
			return
		}
		switch x := in.(type) {
		case *ssa.Call:
			if len(x.Call.Args) == 0 || n.b.key(n.b.pathOf(x.Call.Args[0])) != base || x.Call.StaticCallee() == nil {
				return
			}
			if in.Block() == load.Block() && before(in, load) || in.Block() != load.Block() && in.Block().Dominates(load.Block()) {
				ok = n.ensures(x.Call.StaticCallee(), fv)
			}
		case *ssa.Store:
			st, is := x.Addr.(*ssa.FieldAddr)
			if !is || fieldVar(st.X.Type(), st.Field) != fv || n.b.key(n.b.pathOf(st.X)) != base {
				return
			}
			if in.Block() == load.Block() && before(in, load) || in.Block() != load.Block() && in.Block().Dominates(load.Block()) {
				ok = n.show(goal{}, x.Val, bpoint{blk: in.Block()}) == ""
			}
		}
	})
	return ok
}

// fillGuard: the write puts what is ranged over in one map into another, and
// before the loop the other is made if there is anything to put.
func (n *Val) fillGuard(w *ssa.MapUpdate) bool {
	to, ok := w.Map.(*ssa.UnOp)
	if !ok {
		return false
	}
	dst, ok := to.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	fv := fieldVar(dst.X.Type(), dst.Field)
	base := n.b.key(n.b.pathOf(dst.X))
	found := false
	instrs(w.Parent(), func(in ssa.Instruction) {
		rg, ok := in.(*ssa.Range)
		if !ok || found {
			return
		}
		ld, ok := rg.X.(*ssa.UnOp)
		if !ok {
			return
		}
		src, ok := ld.X.(*ssa.FieldAddr)
		if !ok || fieldVar(src.X.Type(), src.Field) != fv || !n.inBody(rg, w.Block()) {
			return
		}
		srcKey := n.b.key(n.b.pathOf(src.X))
		seen := map[*ssa.BasicBlock]bool{}
		var back func(blk *ssa.BasicBlock) bool
		back = func(blk *ssa.BasicBlock) bool {
			if seen[blk] {
				return true
			}
			seen[blk] = true
			for _, x := range blk.Instrs {
				c, ok := x.(*ssa.Call)
				if ok && c.Call.StaticCallee() != nil && len(c.Call.Args) > 0 && n.b.key(n.b.pathOf(c.Call.Args[0])) == base && n.ensures(c.Call.StaticCallee(), fv) {
					return true
				}
			}
			if len(blk.Preds) == 0 {
				return false
			}
			for _, p := range blk.Preds {
				if !n.emptyOn(p, blk, srcKey, fv) && !back(p) {
					return false
				}
			}
			return true
		}
		found = back(rg.Block())
	})
	return found
}

// inBody: the block is only reached with an element of the range.
func (n *Val) inBody(rg *ssa.Range, blk *ssa.BasicBlock) bool {
	for _, r := range *orEmpty(rg.Referrers()) {
		nx, ok := r.(*ssa.Next)
		if !ok {
			continue
		}
		for _, r2 := range *orEmpty(nx.Referrers()) {
			ex, ok := r2.(*ssa.Extract)
			if !ok || ex.Index != 0 {
				continue
			}
			for _, r3 := range *orEmpty(ex.Referrers()) {
				if iff, ok := r3.(*ssa.If); ok {
					s := iff.Block().Succs[0]
					if len(s.Preds) == 1 && s.Dominates(blk) {
						return true
					}
				}
			}
		}
	}
	return false
}

// emptyOn: on the way from one block to the other the map field of the struct
// is known to be empty.
func (n *Val) emptyOn(p, to *ssa.BasicBlock, base string, fv *types.Var) bool {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if _, isC := constInt(x); isC {
		x, y = y, x
		op = map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}[op]
	}
	k, isC := constInt(y)
	if !isC || !n.lenOfMap(x, base, fv) {
		return false
	}
	if p.Succs[0] != to {
		op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
	}
	switch op {
	case token.LSS:
		return k <= 1
	case token.LEQ, token.EQL:
		return k <= 0
	}
	return false
}

// lenOfMap: the value is the length of the map field of the struct.
func (n *Val) lenOfMap(v ssa.Value, base string, fv *types.Var) bool {
	call, ok := v.(*ssa.Call)
	if !ok || len(call.Call.Args) != 1 {
		return false
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() != "len" {
			return false
		}
		ld, ok := call.Call.Args[0].(*ssa.UnOp)
		if !ok {
			return false
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		return ok && fieldVar(fa.X.Type(), fa.Field) == fv && n.b.key(n.b.pathOf(fa.X)) == base
	}
	c := call.Call.StaticCallee()
	if c == nil || len(c.Blocks) == 0 || len(c.Params) != 1 || n.b.key(n.b.pathOf(call.Call.Args[0])) != base {
		return false
	}
	own := n.b.key(n.b.pathOf(c.Params[0]))
	var ret func(v ssa.Value, at bpoint) bool
	ret = func(v ssa.Value, at bpoint) bool {
		if k, isC := constInt(v); isC {
			if k != 0 {
				return false
			}
			fs := n.b.pf(at)
			fk := n.b.key(withTok(apath{root: c.Params[0]}, tok{kind: 'f', name: fv.Name(), fv: fv}))
			if fs.isnil[fk] {
				return true
			}
			for t, truth := range fs.bool {
				bo, ok := t.(*ssa.BinOp)
				if !ok || !isNilConst(bo.Y) || (bo.Op == token.EQL) != truth {
					continue
				}
				if ld, ok := bo.X.(*ssa.UnOp); ok {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && fieldVar(fa.X.Type(), fa.Field) == fv {
						return true
					}
				}
			}
			return false
		}
		if ph, ok := v.(*ssa.Phi); ok {
			for i, e := range ph.Edges {
				if !ret(e, bpoint{blk: ph.Block().Preds[i], to: ph.Block()}) {
					return false
				}
			}
			return true
		}
		return n.lenOfMap(v, own, fv)
	}
	for _, blk := range c.Blocks {
		if r, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok {
			if len(r.Results) != 1 || !ret(r.Results[0], bpoint{blk: blk}) {
				return false
			}
		}
	}
	return true
}

// setBefore: the call reads a field of its receiver that a call before has set
// and that is never set to nil.
func (n *Val) setBefore(call *ssa.Call, callee *ssa.Function, res ssa.Value) bool {
	ld, ok := res.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || len(callee.Params) == 0 || fa.X != callee.Params[0] {
		return false
	}
	fv := fieldVar(fa.X.Type(), fa.Field)
	recv := func(c *ssa.CallCommon) ssa.Value {
		if c.IsInvoke() {
			return c.Value
		}
		if len(c.Args) > 0 {
			return c.Args[0]
		}
		return nil
	}
	rk := n.b.key(n.b.pathOf(recv(&call.Call)))
	for _, st := range n.b.fstores[fv] {
		if n.show(goal{}, st.Val, bpoint{blk: st.Block()}) != "" {
			return false
		}
	}
	ok = false
	instrs(call.Parent(), func(in ssa.Instruction) {
		c, is := in.(*ssa.Call)
		if !is || ok || recv(&c.Call) == nil || n.b.key(n.b.pathOf(recv(&c.Call))) != rk {
			return
		}
		if !(in.Block() == call.Block() && before(in, call)) && !(in.Block() != call.Block() && in.Block().Dominates(call.Block())) {
			return
		}
		cs := n.w.Callees(c)
		ok = len(cs) == 1 && n.b.setsField(cs[0], fv, 0)
	})
	return ok
}

// ensures: the field of the receiver is not nil at every return.
func (n *Val) ensures(f *ssa.Function, fv *types.Var) bool {
	if len(f.Blocks) == 0 || len(f.Params) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(blk *ssa.BasicBlock) bool
	back = func(blk *ssa.BasicBlock) bool {
		if seen[blk] {
			return true
		}
		seen[blk] = true
		for _, in := range blk.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if ok && fa.X == f.Params[0] && fieldVar(fa.X.Type(), fa.Field) == fv && n.show(goal{}, st.Val, bpoint{blk: blk}) == "" {
					return true
				}
			}
		}
		if len(blk.Preds) == 0 {
			return false
		}
		for _, p := range blk.Preds {
			fs := n.b.pf(bpoint{blk: p, to: blk})
			done := false
			fk := n.b.key(withTok(apath{root: f.Params[0]}, tok{kind: 'f', name: fv.Name(), fv: fv}))
			for _, q := range fs.nnv {
				if q.k == fk && n.b.unchanged(q.at, p.Instrs[len(p.Instrs)-1], fv) {
					done = true
				}
			}
			if !done && !back(p) {
				return false
			}
		}
		return true
	}
	for _, blk := range f.Blocks {
		if _, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.Return); ok && !back(blk) {
			return false
		}
	}
	return true
}

// foldOfNumbers: the numeric part of an expression made here of numbers. That
// the fold of numbers is a number is decided by C08.
func (n *Val) foldOfNumbers(call *ssa.Call) bool {
	c := call.Call.StaticCallee()
	if c == nil || c.RelString(nil) != pkgAtoms+".ComputeNumericPart" || len(call.Call.Args) != 2 {
		return false
	}
	a := call.Call.Args[1]
	if mi, ok := a.(*ssa.MakeInterface); ok {
		a = mi.X
	}
	lit, ok := a.(*ssa.Call)
	if !ok || lit.Call.StaticCallee() == nil {
		return false
	}
	f := lit.Call.StaticCallee().RelString(nil)
	return f == pkgAtoms+".NewExpression" || f == pkgAtoms+".E"
}

// partsVar is the field that holds the parts of an expression.
func (n *Val) partsVar() *types.Var {
	if t := n.w.Type(pkgAtoms, "Expression"); t != nil {
		st := t.Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if n.b.isPartsVar(st.Field(k)) {
				return st.Field(k)
			}
		}
	}
	return nil
}

// literalPart is the part of a newly made expression that the goal is about.
func (n *Val) literalPart(g goal, call *ssa.Call) ssa.Value {
	is := g.el[1:]
	if j := strings.IndexByte(is, '.'); j >= 0 {
		is = is[:j]
	}
	i, _ := strconv.ParseInt(is, 10, 64)
	parts := n.partsVar()
	if parts == nil {
		return nil
	}
	s := n.b.mk('l', apath{call, []tok{{kind: 'f', name: "Parts", fv: parts}}})
	u, d, ok := n.b.callSym(s)
	if !ok || d != 0 || len(u.p.sel) != 0 {
		return nil
	}
	sl, ok := u.p.root.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || sl.Low != nil {
		return nil
	}
	return arrayElem(al, i)
}

// allChecked: a loop over the whole list, left only at its end, found every
// element to satisfy the goal.
func (n *Val) allChecked(g goal, ia *ssa.IndexAddr, load *ssa.UnOp) bool {
	want := n.b.pathOf(ia.X)
	i, _ := constInt(ia.Index)
	for _, h := range load.Parent().Blocks {
		if h == load.Block() || !h.Dominates(load.Block()) || len(h.Instrs) == 0 {
			continue
		}
		iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cond, ok := iff.Cond.(*ssa.BinOp)
		if !ok || cond.Op != token.LSS {
			continue
		}
		exit := h.Succs[1]
		if len(exit.Preds) != 1 || !exit.Dominates(load.Block()) {
			continue
		}
		// the index: starts at 0, steps by 1
		start, ok := loopStart(cond.X, h)
		if !ok {
			continue
		}
		// an element load at that index inside the loop
		for _, r := range *orEmpty(cond.X.Referrers()) {
			el, ok := r.(*ssa.IndexAddr)
			if !ok || el.Index != cond.X {
				continue
			}
			ls, lc := n.b.norm(cond.Y)
			es, ec := n.b.lenOf(el.X)
			if ls.k != es.k || lc != ec {
				continue
			}
			lo, ok := sliceOffset(n.b, n.b.pathOf(el.X), want)
			if !ok || start+lo > i {
				continue
			}
			for _, r2 := range *orEmpty(el.Referrers()) {
				v, ok := r2.(*ssa.UnOp)
				if !ok || v.Op != token.MUL {
					continue
				}
				good := true
				for _, p := range h.Preds {
					if h.Dominates(p) && !n.known(g, v, n.b.pf(bpoint{blk: p, to: h})) {
						good = false
					}
				}
				if good {
					return true
				}
			}
		}
	}
	return false
}

// loopStart is the first value of a loop index tested in the header that
// advances by one.
func loopStart(v ssa.Value, h *ssa.BasicBlock) (int64, bool) {
	off := int64(0)
	ph, ok := v.(*ssa.Phi)
	if bo, is := v.(*ssa.BinOp); is && bo.Op == token.ADD {
		if k, isK := constInt(bo.Y); isK {
			off = k
			ph, ok = bo.X.(*ssa.Phi)
		}
	}
	if !ok || ph.Block() != h {
		return 0, false
	}
	var start int64
	have := false
	for i, p := range h.Preds {
		if h.Dominates(p) {
			bo, is := ph.Edges[i].(*ssa.BinOp)
			if !is || bo.Op != token.ADD || bo.X != ph {
				return 0, false
			}
			if k, isK := constInt(bo.Y); !isK || k != 1 {
				return 0, false
			}
			continue
		}
		k, isK := constInt(ph.Edges[i])
		if !isK || have && start != k {
			return 0, false
		}
		start, have = k, true
	}
	return start + off, have
}

// sliceOffset: the first path is the second sliced from a constant offset.
func sliceOffset(b *Bnd, p, q apath) (int64, bool) {
	if n := len(p.sel); n > 0 && p.sel[n-1].kind == 's' {
		return p.sel[n-1].n, b.key(apath{p.root, p.sel[:n-1]}) == b.key(q)
	}
	return 0, b.key(p) == b.key(q)
}

// element: a goal about the i-th part of an expression, at a load of it.
func (n *Val) element(g goal, ia *ssa.IndexAddr, i int64, load *ssa.UnOp, at bpoint) string {
	where := "part " + strconv.FormatInt(i, 10) + " at " + n.w.At(load)
	// every element of the list was checked in a loop before
	if g.el == "" && n.allChecked(g, ia, load) {
		return ""
	}
	if len(g.el) > 12 {
		return where
	}
	var owner ssa.Value
	switch s := ia.X.(type) {
	case *ssa.Call:
		if s.Call.IsInvoke() {
			owner = s.Call.Value
		} else if len(s.Call.Args) == 1 {
			owner = s.Call.Args[0]
		}
	case *ssa.UnOp:
		if fa, ok := s.X.(*ssa.FieldAddr); ok {
			owner = fa.X
		}
	}
	if owner == nil || !isParts(n.b.pathOf(ia.X)) && !isParts(withTok(n.b.pathOf(ia.X), tok{})) {
		return where
	}
	if r := n.show(goal{g.ty, "." + strconv.FormatInt(i, 10) + g.el}, owner, at); r != "" {
		return where + " (" + r + ")"
	}
	return ""
}

// containerOf: a library container into which only values satisfying the goal
// are put.
func (n *Val) containerOf(g goal, recv *types.Var, f *ssa.Function) bool {
	return f != nil && f.Pkg != nil && recv != nil && n.containerPkg(g, f.Pkg.Pkg)
}

func (n *Val) containerPkg(g goal, pkg *types.Package) bool {
	if !strings.Contains(pkg.Path(), ".") {
		return false // the standard library
	}
	puts := 0
	for _, f := range n.w.Funcs {
		bad := false
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			s := c.Common().StaticCallee()
			if s == nil || s.Pkg == nil || s.Pkg.Pkg != pkg {
				return
			}
			for _, a := range c.Common().Args {
				if it, ok := a.Type().Underlying().(*types.Interface); ok && it.Empty() {
					puts++
					if n.show(g, a, bpoint{blk: in.Block()}) != "" {
						bad = true
					}
				}
				if _, fn := a.Type().Underlying().(*types.Signature); fn {
					bad = true
				}
			}
		})
		if bad {
			return false
		}
	}
	return puts > 0
}
