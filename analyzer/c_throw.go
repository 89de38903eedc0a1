package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C13", Title: "What is thrown ends every evaluation up to its Catch", Run: checkThrow,
		Explain: "EvalState.Eval is interpreted abstractly with something thrown before it starts, by the builtin function, by the condition of a rule, by a part, for every attribute of the head: nothing more may be evaluated, no rule or builtin function applied, and the result is what was thrown. The same expression, evaluated again after the throw has been dealt with, must go through the same evaluations. In addition every write to the field that holds what was thrown is enumerated: it is emptied only by Catch and at top level.",
		Assume:  []string{"The recursive evaluation of a part meets the same description (induction over the evaluation)."}})
	register(&Check{ID: "C16", Title: "Evaluation uses the current definitions", Run: checkCurrent,
		Explain: "EvalState.Eval is interpreted abstractly twice on the same expression; between the two evaluations, or in the middle of the first one, definitions change. The second result is compared with the one that the new definitions prescribe. The methods of the definition map are interpreted for every field of a definition: a change changes what Eval compares. Every write into a list of rules is checked to be a write into a list that nobody else has.",
		Assume:  []string{"The recursive evaluation of a part meets the same description (induction over the evaluation)."}})
}

// twice evaluates the same object with c and then with d, and reports where
// the results and the events of the second evaluation differ from d's reference.
func (c *evalCase) twice(w *World, d *evalCase, pending, change bool) string {
	show := func(s string) string { return ctxRE.ReplaceAllString(s, "") }
	x := w.newEvalRun(c)
	mem := x.ai.initGlobals(pkgCore)
	for k, v := range x.ai.initGlobals(pkgAtoms) {
		mem[k] = v
	}
	es := w.evalState(mem)
	t := parseTree(c.text)
	v := w.freshTree(mem, t, "in")
	st := &aState{mem: mem}
	if pending && !x.throw(es, st) {
		return "throwing is not determined"
	}
	run := func(want *tree, wantEv []string) string {
		x.ev = nil
		res, out, err := x.ai.RunMethod(es, "Eval", []aVal{v}, st.mem)
		if err != nil || len(res) != 1 || x.ai.giveUps() != "" {
			return fmt.Sprint("not determined: ", err, x.ai.giveUps())
		}
		st.mem = out
		if want != nil {
			if got := x.ai.toTree(out, res[0]); got.String() != want.String() {
				return show(fmt.Sprintf("gives %s instead of %s", got, want))
			}
		}
		if wantEv != nil {
			if g, e := distinct(x.ev), distinct(wantEv); g != e {
				return show(fmt.Sprintf("%s; instead it should be: %s", orNothing(g), orNothing(e)))
			}
		}
		return ""
	}
	ev := []string{}
	if pending {
		return run(parseTree(thrownText), ev)
	}
	ref := *c
	if c.builtinThrows != "" {
		ref.builtin = map[string]string{}
		ref.rules = map[string]string{}
	}
	if c.ruleThrows != "" {
		ref.rules = map[string]string{}
	}
	want := ref.reference(t, &ev)
	if c.builtinThrows != "" || c.ruleThrows != "" {
		want = parseTree(thrownText)
		if c.ruleThrows != "" {
			ev = append(ev, "tries the rules on "+c.ruleThrows)
		}
	}
	if s := run(want, ev); s != "" {
		return s
	}
	if d == nil {
		return ""
	}
	if _, m, err := x.ai.RunMethod(es, "Throw", []aVal{aNilV}, st.mem); err == nil {
		st.mem = m
	}
	x.c = d
	if change {
		x.gen++
	}
	var ev2 []string
	want2 := d.reference(t, &ev2)
	if d == c {
		// what threw must be done again
		want2, ev2 = want, ev
	} else {
		ev2 = nil // parts known to be as they were need not be evaluated again
	}
	if s := run(want2, ev2); s != "" {
		return "the second time it " + s
	}
	return ""
}

func checkThrow(w *World, r *Report) {
	g := shortNames
	m := func(kv ...string) map[string]string {
		o := map[string]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			o[g(kv[i])] = g(kv[i+1])
		}
		return o
	}
	type job struct {
		c       *evalCase
		pending bool
		again   bool
	}
	var jobs []job
	f := g("f")
	fn := map[string]bool{f: true}
	for _, a := range append([]string{""}, "HoldFirst", "HoldRest", "HoldAll", "HoldAllComplete", "SequenceHold", "Flat", "Orderless", "Listable", "NumericFunction") {
		at := map[string][]string{f: nil}
		if a != "" {
			at[f] = []string{a}
		}
		for _, t := range []string{"f[p, r]", "f[]", "f[5]", "f[Evaluate[p]]", "f[Sequence[p, r]]", "f[f[p]]", "f[List[p, r]]", "f[ConditionalExpression[p, r]]", "f", "f[p][r]", "Function[p][r]"} {
			c := &evalCase{text: g(t), attrs: at, hasFn: fn, outcome: m("p", "q", "f", "h"), builtin: m(t, "s"), rules: m(t, "s", "f", "h")}
			jobs = append(jobs, job{c: c, pending: true})
		}
		for _, t := range []string{"f[p, r]", "f[]", "f[5]"} {
			for _, b := range []string{t, "s", "g[p]", "Throw[p]", "5"} {
				c := &evalCase{text: g(t), attrs: at, hasFn: fn, builtin: m(t, b), rules: m("s", "u", "g[p]", "u"), builtinThrows: g(t)}
				jobs = append(jobs, job{c: c}, job{c: c, again: true})
				c = &evalCase{text: g(t), attrs: at, rules: m(t, b, "s", "u"), ruleThrows: g(t)}
				jobs = append(jobs, job{c: c}, job{c: c, again: true})
			}
			c := &evalCase{text: g(t), attrs: at, ruleThrows: g(t)}
			jobs = append(jobs, job{c: c}, job{c: c, again: true})
			c = &evalCase{text: g(t), attrs: at, hasFn: fn, builtinThrows: g(t)}
			jobs = append(jobs, job{c: c}, job{c: c, again: true})
		}
		for _, p := range []string{"p", "r"} {
			c := &evalCase{text: g("f[p, r, 5]"), attrs: at, throws: g(p), hasFn: fn, rules: m("f[p, r, 5]", "s")}
			jobs = append(jobs, job{c: c, again: true})
		}
	}
	for _, t := range []string{"5", "1/2", "2.5", "\"s\"", "x"} {
		jobs = append(jobs, job{c: &evalCase{text: g(t), attrs: map[string][]string{}, rules: m("x", "v")}, pending: true})
	}
	res := parallel(len(jobs), func(i int) string {
		j := jobs[i]
		d := j.c
		if !j.again {
			d = nil
		}
		return j.c.twice(w, d, j.pending, false)
	})
	at := w.Pos(w.Fn(pkgCore, "EvalState.Eval").Pos())
	for i, j := range jobs {
		n := j.c.name()
		if j.pending {
			n += ", when something has been thrown before"
		}
		if j.again {
			n += ", twice"
		}
		r.check("evaluation", n, at, res[i] == "", res[i])
	}
	r.count("abstract evaluations", len(jobs))
	r.atLeast("abstract evaluations", 300)
	w.thrownWrites(r)
}

func parallel(n int, f func(i int) string) []string {
	res := make([]string, n)
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				res[i] = f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return res
}

// thrownWrites checks who empties the field that holds what was thrown.
func (w *World) thrownWrites(r *Report) {
	// calls of Throw with nil
	n := 0
	for _, f := range w.Funcs {
		if !w.inScope[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				return
			}
			o := calleeObj(call.Common())
			if o == nil || o.Name() != "Throw" {
				return
			}
			sig := o.Type().(*types.Signature)
			if sig.Recv() == nil || sig.Params().Len() != 1 || !(isNamed(sig.Recv().Type(), pkgAPI, "EvalStateInterface") || isNamed(deref(sig.Recv().Type()), pkgCore, "EvalState")) {
				return
			}
			a := call.Common().Args
			c, isConst := a[len(a)-1].(*ssa.Const)
			if !isConst || c.Value != nil {
				return
			}
			n++
			who := ""
			root := f
			for root.Parent() != nil {
				root = root.Parent()
			}
			for name, b := range w.builtins() {
				if b.Eval() == f || root == b.Eval() {
					who = name
				}
			}
			okay := who == "Catch" || w.topLevelOnly(f)
			r.check("clears", fname(f)+" forgets what was thrown", w.At(in), okay, "only Catch and the end of a top-level evaluation may do that")
			// only after what was thrown has been looked at
			if okay {
				used := false
				instrs(f, func(k ssa.Instruction) {
					if c2, ok := k.(ssa.CallInstruction); ok {
						if o2 := calleeObj(c2.Common()); o2 != nil && (o2.Name() == "Thrown" || o2.Name() == "HasThrown") {
							used = true
						}
					}
				})
				r.check("clears", fname(f)+" looks at what was thrown before forgetting it", w.At(in), used, "what was thrown is lost")
			}
		})
	}
	r.count("places that forget what was thrown", n)
}

// topLevelOnly: no builtin function leads to f.
func (w *World) topLevelOnly(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var up func(f *ssa.Function) bool
	up = func(f *ssa.Function) bool {
		if seen[f] {
			return true
		}
		seen[f] = true
		for _, b := range w.builtins() {
			if b.Eval() == f {
				return false
			}
		}
		for _, c := range w.callersOf[f] {
			if !up(c.Parent()) {
				return false
			}
		}
		return true
	}
	return up(f)
}

func deref(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func checkCurrent(w *World, r *Report) {
	g := shortNames
	m := func(kv ...string) map[string]string {
		o := map[string]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			o[g(kv[i])] = g(kv[i+1])
		}
		return o
	}
	type job struct {
		c, d   *evalCase
		change bool
	}
	var jobs []job
	f := g("f")
	fn := map[string]bool{f: true}
	for _, a := range []string{"", "HoldFirst", "HoldAll", "HoldAllComplete", "SequenceHold", "Flat", "Orderless", "Listable"} {
		at := map[string][]string{f: nil}
		if a != "" {
			at[f] = []string{a}
		}
		other := map[string][]string{f: {"Orderless", "Flat"}}
		mk := func(attrs map[string][]string, out, rules, bi map[string]string) *evalCase {
			c := &evalCase{text: g("f[r, p]"), attrs: attrs, outcome: out, rules: rules, builtin: bi}
			if bi != nil {
				c.hasFn = fn
			}
			return c
		}
		none := mk(at, nil, nil, nil)
		some := []*evalCase{
			mk(at, m("p", "q"), nil, nil),
			mk(at, m("r", "q", "p", "b"), nil, nil),
			mk(at, m("p", "Sequence[a, b]"), nil, nil),
			mk(at, nil, m("f[r, p]", "s", "f[p, r]", "s"), nil),
			mk(at, nil, nil, m("f[r, p]", "s", "f[p, r]", "s")),
			mk(other, nil, nil, nil),
			mk(at, m("f", "h"), nil, nil),
		}
		for _, d := range some {
			jobs = append(jobs, job{none, d, true})
			// the definitions change while the first evaluation is under way
			for _, p := range []string{"p", "r"} {
				c := *none
				c.changes = g(p)
				if !strings.Contains(distinctEvents(&c), g(p)) {
					continue
				}
				jobs = append(jobs, job{&c, d, false})
			}
		}
		jobs = append(jobs, job{none, none, false})
	}
	res := parallel(len(jobs), func(i int) string {
		j := jobs[i]
		if j.c == j.d {
			d := *j.d
			return j.c.twice(w, &d, false, j.change)
		}
		return j.c.twice(w, j.d, false, j.change)
	})
	at := w.Pos(w.Fn(pkgCore, "EvalState.Eval").Pos())
	for i, j := range jobs {
		r.check("evaluation", j.c.name()+" and later "+strings.TrimPrefix(j.d.name(), ctxRE.ReplaceAllString(j.d.text, "")+" "), at, res[i] == "", res[i])
	}
	r.count("pairs of abstract evaluations", len(jobs))
	r.atLeast("pairs of abstract evaluations", 60)
	w.mapChanges(r)
	w.ruleListWrites(r)
}

func distinctEvents(c *evalCase) string {
	var ev []string
	c.reference(parseTree(c.text), &ev)
	return distinct(ev)
}

// mapChanges interprets the definition map.
func (w *World) mapChanges(r *Report) {
	it, _ := w.Type(pkgAPI, "DefinitionMap").Underlying().(*types.Interface)
	var impls []types.Type
	for _, p := range []string{pkgCore} {
		sc := w.Type(p, "EvalState").Obj().Pkg().Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if t := types.NewPointer(tn.Type()); types.Implements(t, it) {
				impls = append(impls, t)
			}
		}
	}
	s := w.Type(pkgAPI, "Def").Underlying().(*types.Struct)
	for _, t := range impls {
		name := types.TypeString(t, func(*types.Package) string { return "" })
		for _, known := range []bool{false, true} {
			for i := -1; i < s.NumFields(); i++ {
				if i < 0 && !known {
					continue // no definition before, none after
				}
				what := "an empty definition"
				if i >= 0 {
					what = "a definition with only " + s.Field(i).Name()
				}
				if known {
					what += " for a symbol that had another"
				} else {
					what += " for a new symbol"
				}
				why := w.mapChange(t, i, known)
				fn := w.Prog.LookupMethod(t, nil, "Set")
				at := ""
				if fn != nil {
					at = w.Pos(fn.Pos())
				}
				r.check("map", name+": "+what, at, why == "", why)
			}
		}
	}
	r.count("definition maps", len(impls))
	r.atLeast("definition maps", 1)
}

func (w *World) mapChange(t types.Type, field int, known bool) string {
	ai := NewAI(w)
	ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
		o := calleeObj(call.Common())
		if o == nil || o.Pkg() == nil || strings.HasPrefix(o.Pkg().Path(), "github.com/corywalker") {
			return nil, false
		}
		sig := o.Type().(*types.Signature)
		if o.Name() == "Get" && sig.Results().Len() == 2 {
			return []aVal{aSymV("old"), aBool(known)}, true
		}
		if o.Name() == "Has" {
			return []aVal{aBool(known)}, true
		}
		return nil, false
	}
	mem := ai.initGlobals(pkgCore)
	for k, v := range ai.initGlobals(pkgAPI) {
		mem[k] = v
	}
	mem["live:new:dm"] = aBool(true)
	dm := aObj("new:dm", t)
	s := w.Type(pkgAPI, "Def").Underlying().(*types.Struct)
	flds := map[string]aVal{}
	for i := 0; i < s.NumFields(); i++ {
		v := zeroOf(s.Field(i).Type())
		if i == field {
			switch u := s.Field(i).Type().Underlying().(type) {
			case *types.Slice:
				v = aList("new:rules", 1)
			case *types.Struct:
				f := map[string]aVal{}
				for k := 0; k < u.NumFields(); k++ {
					f[u.Field(k).Name()] = aBool(k == 0)
				}
				v = mkStruct(f)
			case *types.Signature:
				v = aObj("builtin:x", nil)
			default:
				v = w.mkSym(mem, "new:dflt", "Global`x")
			}
		} else if u, ok := s.Field(i).Type().Underlying().(*types.Struct); ok {
			f := map[string]aVal{}
			for k := 0; k < u.NumFields(); k++ {
				f[u.Field(k).Name()] = aBool(false)
			}
			v = mkStruct(f)
		}
		flds[s.Field(i).Name()] = v
	}
	// the pointers in the map are to objects of their own
	if st, ok := deref(t).Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if p, ok := st.Field(i).Type().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Basic); ok {
					k := "new:dm" + st.Field(i).Name()
					mem["live:"+k] = aBool(true)
					mem["new:dm."+st.Field(i).Name()] = aObj(k, p)
					mem[k] = aInt(0)
				}
			}
		}
	}
	read := func() (string, string) {
		res, m, err := ai.RunMethod(dm, "Generation", nil, mem)
		if err != nil || len(res) != 1 || ai.giveUps() != "" {
			return "", fmt.Sprint("not determined: ", err, ai.giveUps())
		}
		mem = m
		if _, ok := res[0].single(); !ok {
			return "", fmt.Sprintf("the generation is not determined: %v", res[0])
		}
		return res[0].String(), ""
	}
	before, why := read()
	if why != "" {
		return why
	}
	_, m, err := ai.RunMethod(dm, "Set", []aVal{aStr("Global`s"), mkStruct(flds)}, mem)
	if err != nil || ai.giveUps() != "" {
		return fmt.Sprint("not determined: ", err, ai.giveUps())
	}
	mem = m
	after, why := read()
	if why != "" {
		return why
	}
	if before == after {
		return "the change is not noticed: the generation stays " + before
	}
	return ""
}

// ruleListWrites checks writes into lists of rules.
func (w *World) ruleListWrites(r *Report) {
	dv := w.Type(pkgAPI, "DownValue")
	n := 0
	for _, f := range w.Funcs {
		if !w.inScope[f] {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			a := st.Addr
			for {
				if fa, ok := a.(*ssa.FieldAddr); ok {
					a = fa.X
					continue
				}
				break
			}
			ia, ok := a.(*ssa.IndexAddr)
			if !ok {
				return
			}
			if e := elemType(ia.X.Type()); e == nil || !types.Identical(e, dv) {
				return
			}
			n++
			r.check("rules", fname(f)+" writes into a list of rules", w.At(in), freshSlice(ia.X, map[ssa.Value]bool{}), "the list may be in use, and the change is not noticed")
		})
	}
	r.count("writes into lists of rules", n)
}

// freshSlice: the array behind the slice was made in this function.
func freshSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice, *ssa.Alloc:
		return true
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Slice:
		return freshSlice(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return freshSlice(x.Call.Args[0], seen)
		}
	case *ssa.UnOp:
		// a field or local variable that was last set to a fresh list
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return freshField(fa, x, seen)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			return freshField(al, x, seen)
		}
	}
	return false
}

// freshField: the store before the load in its block, to the same place, is of
// a fresh list.
func freshField(addr ssa.Value, load *ssa.UnOp, seen map[ssa.Value]bool) bool {
	var last ssa.Value
	for _, in := range load.Block().Instrs {
		if in == ssa.Instruction(load) {
			break
		}
		if st, ok := in.(*ssa.Store); ok && samePlace(st.Addr, addr) {
			last = st.Val
		}
	}
	return last != nil && freshSlice(last, seen)
}

func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && samePlace(x.X, y.X)
}
