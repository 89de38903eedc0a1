package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C12", Title: "Iteration visits every combination once and restores its variables", Run: checkIter,
		Explain: "SpecFromList is interpreted abstractly on every shape of iterator (2 to 6 parts, each kind of variable, bound and step, with symbolic values) and the iterator it gives is driven: acceptance, start, successive values as formulas, and the continuation test. The multi-iterator is interpreted over one to three abstract iterators under every outcome of their continuation tests: which iterators advance and restart, and when it ends. Snapshot and restore of the variables are interpreted with every outcome of the lookup. EvalIterationFunc is interpreted for 0 to 3 rounds. Every function that takes a snapshot must restore it on every way to its end.",
		Assume:  []string{"Plus and Times evaluate sums and products of numbers (C08); the canonical order compares numbers by value (C07)."}})
}

type iterRun struct {
	w   *World
	ai  *AI
	ev  []string
	mem aMem
}

// newIter: an interpretation in which evaluation folds sums and products of
// real numbers and otherwise gives its argument back.
func newIter(w *World, fold bool) *iterRun {
	it := &iterRun{w: w, ai: NewAI(w), mem: aMem{}}
	n := 0
	it.ai.LoopBound = 16
	it.ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
		o := calleeObj(call.Common())
		if o == nil {
			return nil, false
		}
		switch o.FullName() {
		case "(" + pkgAPI + ".EvalStateInterface).Eval":
			if !fold {
				it.ev = append(it.ev, "eval "+ai.render(st.mem, args[1], 0))
				return []aVal{aSymV("E(" + ai.render(st.mem, args[1], 0) + ")")}, true
			}
			e, ok := args[1].single()
			if ok && kindOf(e) == kExpr {
				if v, ok := it.foldNumbers(st.mem, e); ok {
					n++
					nm := fmt.Sprintf("folded%d", n)
					x := w.mkAtom(st.mem, nm, kInt)
					st.mem[nm+"V.$v"] = one(ai.numKey(v))
					return []aVal{x}, true
				}
			}
			return []aVal{args[1]}, true
		case "(" + pkgAPI + ".Ex).DeepCopy", "(" + pkgAPI + ".Ex).Copy", "(" + pkgAPI + ".ExpressionInterface).DeepCopy":
			return []aVal{args[0]}, true
		}
		if fn != nil && (fn.Name() == "DeepCopy" || fn.Name() == "Copy") {
			return []aVal{args[0]}, true
		}
		return nil, false
	}
	return it
}

func (it *iterRun) foldNumbers(mem aMem, e aElem) (*ratFn, bool) {
	pl, ok := mem[e.Key+".Parts"]
	if !ok {
		return nil, false
	}
	pe, ok := pl.single()
	if !ok || pe.Kind != aSlice {
		return nil, false
	}
	n := sliceLen(&aState{mem: mem}, pe)
	at := func(i int) (aElem, bool) {
		return aiLoad(&aState{mem: mem}, fmt.Sprintf("%s[%d]", pe.Base, pe.Lo+i), it.w.Type(pkgAPI, "Ex")).single()
	}
	if n < 1 {
		return nil, false
	}
	h, ok := at(0)
	if !ok || kindOf(h) != kSymb {
		return nil, false
	}
	name := mem[h.Key+".Name"].key1()
	var acc *ratFn
	switch name {
	case "System`Plus":
		acc = rConst(0)
	case "System`Times":
		acc = rConst(1)
	default:
		return nil, false
	}
	for i := 1; i < n; i++ {
		x, ok := at(i)
		if !ok {
			return nil, false
		}
		var v *ratFn
		if kindOf(x) == kExpr {
			v, ok = it.foldNumbers(mem, x)
		} else {
			var err error
			v, err = it.ai.realOf(mem, x)
			ok = err == nil
		}
		if !ok {
			return nil, false
		}
		if name == "System`Plus" {
			acc = rAdd(acc, v)
		} else {
			acc = rMul(acc, v)
		}
	}
	return acc, true
}

func (it *iterRun) method(recv aVal, name string, args ...aVal) (aVal, string) {
	res, m, err := it.ai.RunMethod(recv, name, args, it.mem)
	it.mem = m
	if err != nil {
		return aTop, err.Error()
	}
	if len(res) == 0 {
		return aVal{}, ""
	}
	return res[0], ""
}

func checkIter(w *World, r *Report) {
	checkIterShapes(w, r)
	checkMulti(w, r)
	checkSnapshots(w, r)
	checkIterFunc(w, r)
	checkRestored(w, r)
}

// ---- one iterator ----

func checkIterShapes(w *World, r *Report) {
	fn := w.Fn(pkgIter, "SpecFromList")
	where := w.Pos(fn.Pos())
	type shape struct {
		name   string
		head   string
		v      string // kind of variable
		rest   []atomKind
		accept bool
	}
	nums := []atomKind{kInt, kRat, kFlt, kCplx}
	var shapes []shape
	add := func(name, head, v string, accept bool, rest ...atomKind) {
		shapes = append(shapes, shape{name, head, v, rest, accept})
	}
	for _, v := range []string{"symbol", "f[x]"} {
		for _, k := range nums {
			add(fmt.Sprintf("{%s, %s}", v, k), "System`List", v, true, k)
			add(fmt.Sprintf("{%s, %s, Integer}", v, k), "System`List", v, true, k, kInt)
			add(fmt.Sprintf("{%s, Integer, %s}", v, k), "System`List", v, true, kInt, k)
			add(fmt.Sprintf("{%s, Integer, Integer, %s}", v, k), "System`List", v, true, kInt, kInt, k)
		}
		add(fmt.Sprintf("{%s, list}", v), "System`List", v, true, "list")
		for _, k := range []atomKind{kSymb, kStr, kExpr} {
			add(fmt.Sprintf("{%s, %s}", v, k), "System`List", v, false, k)
			for p := 0; p < 3; p++ {
				ks := []atomKind{kInt, kInt, kInt}
				ks[p] = k
				add(fmt.Sprintf("{%s, %v}", v, ks), "System`List", v, false, ks...)
				if p < 2 {
					ks2 := []atomKind{kInt, kInt}
					ks2[p] = k
					add(fmt.Sprintf("{%s, %v}", v, ks2), "System`List", v, false, ks2...)
				}
			}
		}
		add(fmt.Sprintf("{%s}", v), "System`List", v, false)
		add(fmt.Sprintf("{%s, 4 numbers}", v), "System`List", v, false, kInt, kInt, kInt, kInt)
		add(fmt.Sprintf("{%s, list, Integer}", v), "System`List", v, false, "list", kInt)
		add(fmt.Sprintf("g[%s, Integer]", v), "System`Hold", v, false, kInt)
	}
	for _, v := range []string{"Integer", "String", "2[x]", "empty"} {
		add(fmt.Sprintf("{%s, Integer}", v), "System`List", v, false, kInt)
		add(fmt.Sprintf("{%s, list}", v), "System`List", v, false, "list")
	}
	for _, s := range shapes {
		it := newIter(w, true)
		it.mem = it.ai.initGlobals(pkgIter)
		mem := it.mem
		var parts []aVal
		parts = append(parts, w.mkSym(mem, "lh", s.head))
		var vr aVal
		switch s.v {
		case "symbol":
			vr = w.mkSym(mem, "iv", "Global`i")
		case "f[x]":
			vr = w.mkExpr(mem, "iv", w.mkSym(mem, "ivh", "Global`i"), w.mkSym(mem, "ivx", "Global`x"))
		case "Integer":
			vr = w.mkAtom(mem, "iv", kInt)
		case "String":
			vr = w.mkAtom(mem, "iv", kStr)
		case "2[x]":
			vr = w.mkExpr(mem, "iv", w.mkAtom(mem, "ivh", kInt), w.mkSym(mem, "ivx", "Global`x"))
		}
		if s.v != "empty" {
			parts = append(parts, vr)
		}
		for i, k := range s.rest {
			nm := fmt.Sprintf("p%d", i)
			switch k {
			case "list":
				parts = append(parts, w.mkExpr(mem, nm, w.mkSym(mem, nm+"h", "System`List"), w.mkSym(mem, "e0", "Global`e0"), w.mkSym(mem, "e1", "Global`e1"), w.mkSym(mem, "e2", "Global`e2")))
			case kExpr:
				parts = append(parts, w.mkExpr(mem, nm, w.mkSym(mem, nm+"h", "Global`g"), w.mkSym(mem, nm+"x", "Global`y")))
			case kSymb:
				parts = append(parts, w.mkSym(mem, nm, "Global`n"))
			default:
				parts = append(parts, w.mkAtom(mem, nm, k))
			}
		}
		res, m := it.ai.Run(fn, []aVal{aSymV("es"), w.mkExpr(mem, "spec", parts...)}, mem)
		it.mem = m
		r.count("iterator shapes", 1)
		if len(res) != 2 {
			r.bad("shape", s.name, where, "%s: not decided: %s", s.name, it.ai.giveUps())
			continue
		}
		ok, known := res[1].boolean()
		if !known {
			r.bad("shape", s.name, where, "whether %s is an iterator is not determined: %v %s", s.name, res[1], it.ai.giveUps())
			continue
		}
		if ok != s.accept {
			r.bad("shape", s.name, where, "%s: accepted as an iterator: %v, want %v", s.name, ok, s.accept)
			continue
		}
		if !ok {
			r.ok("shape", s.name, where, "refused")
			continue
		}
		hasC := false
		for _, k := range s.rest {
			hasC = hasC || k == kCplx || k == kRat || k == kFlt
		}
		if hasC {
			r.ok("shape", s.name, where, "accepted")
			continue
		}
		if why := it.drive(res[0], s.rest); why != "" {
			r.bad("values", s.name, where, "%s: %s", s.name, why)
		} else {
			r.ok("values", s.name, where, "visits the values of the specification")
		}
	}
	r.atLeast("iterator shapes", 60)
}

// drive steps an iterator and compares its values.
func (it *iterRun) drive(spec aVal, rest []atomKind) string {
	if rest[0] == "list" {
		for i := 0; i < 3; i++ {
			c, why := it.method(spec, "Cont")
			if b, ok := c.boolean(); !ok || !b {
				return fmt.Sprintf("ends before element %d of its list %v %s", i+1, c, why)
			}
			v, _ := it.method(spec, "GetCurr")
			if got := it.ai.render(it.mem, v, 0); got != fmt.Sprintf("Global`e%d", i) {
				return fmt.Sprintf("value %d is %s instead of element %d", i+1, got, i+1)
			}
			it.method(spec, "Next")
		}
		c, _ := it.method(spec, "Cont")
		if b, ok := c.boolean(); !ok || b {
			return "does not end after the last element of its list"
		}
		return ""
	}
	sym := func(i int) *ratFn { return it.ai.num(aElem{Kind: aSym, Key: fmt.Sprintf("num:p%d", i)}) }
	lo, hi, step := rConst(1), sym(0), rConst(1)
	if len(rest) >= 2 {
		lo, hi = sym(0), sym(1)
	}
	if len(rest) == 3 {
		step = sym(2)
	}
	want := lo
	base := it.ai.Hook
	for i := 0; i < 3; i++ {
		v, why := it.method(spec, "GetCurr")
		e, ok := v.single()
		if !ok {
			return fmt.Sprintf("value %d is not determined %s %s", i+1, why, it.ai.giveUps())
		}
		got, err := it.ai.realOf(it.mem, e)
		if err != nil {
			return fmt.Sprintf("value %d: %v", i+1, err)
		}
		if !rEq(got, want) {
			return fmt.Sprintf("value %d is %v instead of %v", i+1, got, want)
		}
		for _, c := range []int{-1, 0, 1} {
			asked := ""
			c := c
			it.ai.NumCmp = func(a, b *ratFn) (int, bool) {
				switch {
				case rEq(a, want) && rEq(b, hi):
					asked = "yes"
					return c, true
				case rEq(a, hi) && rEq(b, want):
					asked = "yes"
					return -c, true
				}
				asked = "wrong: " + a.String() + " with " + b.String()
				return 0, false
			}
			t, _ := it.method(spec, "Cont")
			it.ai.NumCmp = nil
			b, ok := t.boolean()
			if !ok {
				return fmt.Sprintf("whether it goes on after %d values is not determined (%v; %s) %s", i, t, asked, it.ai.giveUps())
			}
			if b != (c <= 0) {
				return fmt.Sprintf("where the current value compares %d with the limit it goes on: %v", c, b)
			}
		}
		it.ai.Hook = base
		it.method(spec, "Next")
		want = rAdd(want, step)
	}
	return ""
}

// ---- several iterators ----

// abstractMulti makes a multi-iterator over n abstract iterators whose
// continuation tests give outcome(k).
func abstractMulti(w *World, n int, outcome func(k int) bool) (*iterRun, aVal, string) {
	it := newIter(w, false)
	it.mem = it.ai.initGlobals(pkgIter)
	old := it.ai.Hook
	spec := w.Fn(pkgIter, "SpecFromList")
	k := 0
	it.ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
		if fn == spec {
			k++
			return []aVal{aSymV("it" + strings.TrimPrefix(args[1].key(), "list")), aBool(true)}, true
		}
		if call.Common().IsInvoke() && isNamed(call.Common().Value.Type(), pkgIter, "IterSpec") {
			m := call.Common().Method
			var i int
			if _, err := fmt.Sscanf(args[0].key(), "it%d", &i); err != nil {
				return nil, false
			}
			res := m.Type().(*types.Signature).Results()
			switch {
			case res.Len() == 0:
				nm := m.Name()
				if nm != "Next" {
					nm = "restart"
				}
				it.ev = append(it.ev, fmt.Sprintf("%s %d", nm, i))
				return nil, true
			case res.Len() == 1 && m.Name() == "Cont":
				return []aVal{aBool(outcome(i))}, true
			case res.Len() == 1 && isStringOrBytes(res.At(0).Type()):
				return []aVal{aSymV(fmt.Sprintf("name%d", i))}, true
			case m.Name() == "GetCurr":
				return []aVal{aSymV(fmt.Sprintf("value%d", i))}, true
			case res.Len() == 1:
				return []aVal{aSymV(fmt.Sprintf("var%d", i))}, true
			}
		}
		return old(ai, fr, call, fn, args, st)
	}
	for i := 0; i < n; i++ {
		it.mem[fmt.Sprintf("lists[%d]", i)] = aSymV(fmt.Sprintf("list%d", i))
	}
	mk := w.Fn(pkgIter, "MultiSpecFromLists")
	res, m := it.ai.Run(mk, []aVal{aSymV("es"), aList("lists", n)}, it.mem)
	it.mem = m
	if len(res) != 2 {
		return it, aTop, "not decided: " + it.ai.giveUps()
	}
	if b, ok := res[1].boolean(); !ok || !b {
		return it, aTop, fmt.Sprintf("a list of %d valid iterators is refused (%v) %s", n, res[1], it.ai.giveUps())
	}
	// put the struct into memory
	mt := w.Type(pkgIter, "MultiIterSpec")
	st := &aState{mem: it.mem}
	it.mem["live:new:mis"] = aBool(true)
	if e, ok := res[0].single(); ok && e.Kind == aAddr {
		return it, res[0], ""
	}
	aiStore(st, "new:mis", res[0], mt, true)
	return it, aObj("new:mis", types.NewPointer(mt)), ""
}

func checkMulti(w *World, r *Report) {
	where := w.Pos(w.Fn(pkgIter, "MultiSpecFromLists").Pos())
	for n := 1; n <= 3; n++ {
		for start := 0; start < 1<<n; start++ {
			cur := start
			it, mis, why := abstractMulti(w, n, func(k int) bool { return cur&(1<<k) != 0 })
			cons := fmt.Sprintf("%d iterators, start %0*b", n, n, start)
			r.count("multi-iterator cases", 1)
			if why != "" {
				r.bad("multi", cons, where, "%s", why)
				continue
			}
			if len(it.ev) > 0 {
				r.bad("multi-start", cons, where, "starting performs %v", it.ev)
				continue
			}
			c, _ := it.method(mis, "Cont")
			b, ok := c.boolean()
			if !ok || b != (start == 1<<n-1) {
				r.bad("multi-start", cons, where, "iteration over %d iterators of which those in %0*b have a value begins: %v %s", n, n, start, c, it.ai.giveUps())
				continue
			}
			r.ok("multi-start", cons, where, "begins exactly if every iterator has a value")
		}
		for next := 0; next < 1<<n; next++ {
			cur := 1<<n - 1
			it, mis, why := abstractMulti(w, n, func(k int) bool { return cur&(1<<k) != 0 })
			cons := fmt.Sprintf("%d iterators, after the step %0*b", n, n, next)
			r.count("multi-iterator cases", 1)
			if why != "" {
				r.bad("multi", cons, where, "%s", why)
				continue
			}
			cur = next
			it.ev = nil
			_, why = it.method(mis, "Next")
			ops := map[int]string{}
			for _, e := range it.ev {
				var op string
				var k int
				fmt.Sscanf(e, "%s %d", &op, &k)
				ops[k] += op + ";"
			}
			bad := ""
			done := false
			for k := n - 1; k >= 0; k-- {
				want := ""
				if !done {
					want = "Next;"
					if next&(1<<k) != 0 {
						done = true
					} else {
						want += "restart;"
					}
				}
				got := ops[k]
				if got != want && !(next == 0 && got == "Next;") { // an exhausted iteration may leave them
					bad = fmt.Sprintf("iterator %d performs %q instead of %q", k+1, got, want)
				}
			}
			c, _ := it.method(mis, "Cont")
			b, ok := c.boolean()
			if bad == "" && (!ok || b != done) {
				bad = fmt.Sprintf("it goes on: %v, want %v %s %s", c, done, why, it.ai.giveUps())
			}
			if bad != "" {
				r.bad("multi-next", cons, where, "one step of %d iterators, those in %0*b not being exhausted by it (the first is the lowest bit): %s", n, n, next, bad)
			} else {
				r.ok("multi-next", cons, where, "the last iterator that has a next value takes it, those after it restart")
			}
		}
	}
	r.atLeast("multi-iterator cases", 28)
}

// ---- variables ----

func checkSnapshots(w *World, r *Report) {
	mt := w.Type(pkgIter, "MultiIterSpec")
	where := w.Pos(mt.Obj().Pos())
	for n := 1; n <= 3; n++ {
		for defd := 0; defd < 1<<n; defd++ {
			it, mis, why := abstractMulti(w, n, func(int) bool { return true })
			cons := fmt.Sprintf("%d variables, defined %0*b", n, n, defd)
			r.count("snapshots", 1)
			if why != "" {
				r.bad("snapshot", cons, where, "%s", why)
				continue
			}
			old := it.ai.Hook
			it.ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
				if call.Common().IsInvoke() && isNamed(call.Common().Value.Type(), pkgAPI, "EvalStateInterface") {
					m := call.Common().Method.Name()
					var ks []string
					for _, a := range args[1:] {
						ks = append(ks, collapse(a))
					}
					if m == "GetDefined" {
						var i int
						fmt.Sscanf(args[1].key(), "name%d", &i)
						return []aVal{aSymV("definition of " + args[1].key()), aBool(defd&(1<<i) != 0)}, true
					}
					it.ev = append(it.ev, m+" "+strings.Join(ks, ", "))
					return tops(call.Common().Signature().Results().Len()), true
				}
				return old(ai, fr, call, fn, args, st)
			}
			es := aSymV("es")
			it.method(mis, "TakeVarSnapshot", es)
			took := it.ev
			it.ev = nil
			it.method(mis, "DefineCurrent", es)
			defs := it.ev
			it.ev = nil
			it.method(mis, "RestoreVarSnapshot", es)
			bad := ""
			if len(took) > 0 {
				bad = fmt.Sprintf("taking the snapshot changes definitions: %v", took)
			}
			want := map[string]bool{}
			for k := 0; k < n; k++ {
				want[fmt.Sprintf("Define var%d, value%d", k, k)] = true
			}
			if !sameSet(defs, want) {
				bad = fmt.Sprintf("defining the current values performs %v", defs)
			}
			want = map[string]bool{}
			for k := 0; k < n; k++ {
				if defd&(1<<k) != 0 {
					want[fmt.Sprintf("SetDefined name%d, definition of name%d", k, k)] = true
				} else {
					want[fmt.Sprintf("Clear name%d", k)] = true
				}
			}
			if !sameSet(it.ev, want) {
				bad = fmt.Sprintf("restoring performs %v", it.ev)
			}
			if bad != "" {
				r.bad("snapshot", cons, where, "%s: %s %s", cons, bad, it.ai.giveUps())
			} else {
				r.ok("snapshot", cons, where, "every variable gets its definition back, or has none as before")
			}
		}
	}
	r.atLeast("snapshots", 14)
}

// collapse names a struct that is an unchanged copy of a symbolic one.
func collapse(v aVal) string {
	e, ok := v.single()
	if !ok {
		return v.String()
	}
	if e.Kind != aStruct {
		return strings.TrimRight(e.Key, "#{}^")
	}
	p := ""
	for n, f := range e.Flds {
		k := collapse(f)
		if !strings.HasSuffix(k, "."+n) {
			return e.Key
		}
		k = strings.TrimSuffix(k, "."+n)
		if p != "" && p != k {
			return e.Key
		}
		p = k
	}
	return p
}

func sameSet(got []string, want map[string]bool) bool {
	if len(got) != len(want) {
		return false
	}
	for _, g := range got {
		if !want[g] {
			return false
		}
	}
	return true
}

// ---- EvalIterationFunc ----

func checkIterFunc(w *World, r *Report) {
	fn := w.Fn(pkgIter, "EvalIterationFunc")
	where := w.Pos(fn.Pos())
	for k := 0; k <= 3+3; k++ {
		// 0 to 3 rounds, then a throw in each of three rounds
		rounds, throwAt := k, 0
		if k > 3 {
			rounds, throwAt = 4, k-3
		}
		bodies := 0
		left := rounds
		it, _, _ := abstractMulti(w, 1, func(int) bool { return left > 0 })
		it.ev = nil
		it.mem = it.ai.initGlobals(pkgIter)
		old := it.ai.Hook
		it.ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
			if call.Common().IsInvoke() && isNamed(call.Common().Value.Type(), pkgAPI, "EvalStateInterface") {
				switch m := call.Common().Method.Name(); m {
				case "Eval":
					out, ok := old(ai, fr, call, fn, args, st)
					if n := len(it.ev); n > 0 && it.ev[n-1] == "eval body" {
						bodies++
					}
					return out, ok
				case "HasThrown":
					return []aVal{aBool(throwAt > 0 && bodies >= throwAt)}, true
				case "Thrown":
					return []aVal{aSymV("thrown")}, true
				case "GetDefined":
					it.ev = append(it.ev, "take")
					return []aVal{aSymV("old"), aBool(true)}, true
				case "Define", "SetDefined":
					it.ev = append(it.ev, m)
					return tops(call.Common().Signature().Results().Len()), true
				}
			}
			if call.Common().IsInvoke() && isNamed(call.Common().Value.Type(), pkgIter, "IterSpec") && call.Common().Method.Name() == "Next" {
				left--
			}
			return old(ai, fr, call, fn, args, st)
		}
		this := w.mkExpr(it.mem, "this", w.mkSym(it.mem, "hd", "System`Sum"), aSymV("body"), aSymV("list0"))
		res, m := it.ai.Run(fn, []aVal{this, aSymV("es"), aSymV("init"), aStr("op")}, it.mem)
		cons := fmt.Sprintf("%d rounds", rounds)
		r.count("folds", 1)
		want, acc := []string{"take"}, "init"
		for i := 0; i < rounds; i++ {
			want = append(want, "Define", "eval body", "eval op["+acc+", E(body)]")
			acc = "E(op[" + acc + ", E(body)])"
			if i+1 == throwAt {
				acc = "thrown"
				break
			}
			want = append(want, "Next 0")
		}
		if throwAt > 0 {
			cons = fmt.Sprintf("throw in round %d", throwAt)
			if len(it.ev) > 0 && len(want) > 0 && !strings.Contains(strings.Join(it.ev, ""), fmt.Sprint(want[len(want)-1])) {
				want = want[:len(want)-1] // nothing is combined with what was thrown
			}
		} else if rounds > 0 {
			want = append(want, "restart 0")
		}
		want = append(want, "SetDefined")
		norm := func(s []string) string {
			var o []string
			for _, x := range s {
				if x != "restart 0" {
					o = append(o, x)
				}
			}
			return strings.Join(o, "; ")
		}
		got := ""
		if len(res) == 1 {
			got = it.ai.render(m, res[0], 0)
		}
		switch {
		case norm(it.ev) != norm(want):
			r.bad("fold", cons, where, "%s: performs %s instead of %s %s", cons, norm(it.ev), norm(want), it.ai.giveUps())
		case got != acc:
			r.bad("fold", cons, where, "%s: gives %s instead of %s %s", cons, got, acc, it.ai.giveUps())
		default:
			r.ok("fold", cons, where, "folds the values in order and restores the variable")
		}
	}
	r.atLeast("folds", 7)
}

// ---- every snapshot is restored ----

func checkRestored(w *World, r *Report) {
	isCall := func(c *ssa.CallCommon, name string) bool {
		o := calleeObj(c)
		return o != nil && o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkgIter
	}
	restores := func(in ssa.Instruction) bool {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return false
		}
		if isCall(c.Common(), "RestoreVarSnapshot") {
			return true
		}
		for _, g := range w.Callees(c) {
			hit := false
			instrs(g, func(i2 ssa.Instruction) {
				if c2, ok := i2.(ssa.CallInstruction); ok && isCall(c2.Common(), "RestoreVarSnapshot") && i2.Block().Dominates(i2.Block()) && mustRun(i2) {
					hit = true
				}
			})
			if hit {
				return true
			}
		}
		return false
	}
	for _, f := range w.Funcs {
		if f.Name() == "TakeVarSnapshot" {
			continue
		}
		f := f
		instrs(f, func(in ssa.Instruction) {
			c, ok := in.(ssa.CallInstruction)
			if !ok || !isCall(c.Common(), "TakeVarSnapshot") {
				return
			}
			r.count("snapshot takers", 1)
			if at := escapesWithout(in, restores); at != nil {
				r.bad("restored", fname(f), w.At(in), "the variables of iteration are not restored on a way that ends at %s", w.At(at))
			} else {
				r.ok("restored", fname(f), w.At(in), "restored on every way")
			}
		})
	}
	r.atLeast("snapshot takers", 2)
}

// mustRun: the instruction runs whenever its function returns.
func mustRun(in ssa.Instruction) bool {
	for _, b := range in.Parent().Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !in.Block().Dominates(b) {
			return false
		}
	}
	return true
}

// escapesWithout: an end of the function reachable from the instruction without
// passing one that satisfies done (a deferred call counts where it is deferred).
func escapesWithout(from ssa.Instruction, done func(ssa.Instruction) bool) ssa.Instruction {
	// deferred before
	for b := from.Block(); b != nil; b = b.Idom() {
		for _, in := range b.Instrs {
			if in == from {
				break
			}
			if _, ok := in.(*ssa.Defer); ok && done(in) {
				return nil
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) ssa.Instruction
	walk = func(b *ssa.BasicBlock, i int) ssa.Instruction {
		for ; i < len(b.Instrs); i++ {
			if _, rd := b.Instrs[i].(*ssa.RunDefers); !rd && done(b.Instrs[i]) {
				return nil
			}
			if _, ok := b.Instrs[i].(*ssa.Return); ok {
				return b.Instrs[i]
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if at := walk(s, 0); at != nil {
					return at
				}
			}
		}
		return nil
	}
	return walk(from.Block(), instrIndex(from)+1)
}
