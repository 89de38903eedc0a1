package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C20", Title: "Evaluation follows the attributes of the head until nothing changes", Run: checkEval,
		Explain: "EvalState.Eval is interpreted abstractly on calls whose parts are opaque: the recursive evaluation of a part, the builtin function and the rules of the head have every prescribed outcome (unchanged, another value, a sequence, a list, the same head, a conditional value, a throw). For every attribute alone and every pair of attributes the result, the parts that are evaluated and their order are compared with those the attributes prescribe.",
		Assume:  []string{"The recursive evaluation of a part meets the same description (induction over the evaluation); structural comparison and hashing tell expressions apart (C03, C04); the canonical order is a total order (C07); rules are applied as C09 and C10 say."}})
}

// evalCase is one abstract evaluation.
type evalCase struct {
	text    string
	attrs   map[string][]string
	outcome map[string]string // evaluation of parts
	throws  string            // the part whose evaluation throws
	builtin map[string]string // calls for which the builtin function has a result
	hasFn   map[string]bool   // heads with a builtin function
	rules   map[string]string // calls a rule applies to
	trace   bool
	// calls whose builtin function or rule throws
	builtinThrows, ruleThrows string
	// the part whose evaluation changes the definitions
	changes string
}

func (c *evalCase) eval(t *tree) *tree {
	if s, ok := c.outcome[t.String()]; ok {
		return parseTree(s)
	}
	return t
}

func (c *evalCase) attr(head *tree, a string) bool {
	if head.parts != nil {
		return false
	}
	for _, x := range c.attrs[head.leaf] {
		if x == a {
			return true
		}
	}
	return false
}

const thrownText = "Global`thrown[1]"

// reference is the evaluation that the attributes prescribe.
func (c *evalCase) reference(t *tree, ev *[]string) *tree {
	inside := false
	last := ""
	for n := 0; n < 20; n++ {
		if t.String() == last {
			return t
		}
		last = t.String()
		if t.parts == nil && n == 0 {
			// a symbol has the value of its definition
			r, ok := c.rules[t.leaf]
			if !ok || r == t.leaf || !isSymLeaf(t.leaf) {
				return t
			}
			v := parseTree(r)
			*ev = append(*ev, "evaluates "+v.String())
			v = c.eval(v)
			if v.parts != nil && v.parts[0].leaf == "System`Return" {
				if len(v.parts) > 1 {
					return v.parts[1]
				}
				return &tree{leaf: "System`Null"}
			}
			return v
		}
		if t.parts == nil {
			*ev = append(*ev, "evaluates "+t.String())
			return c.eval(t)
		}
		if inside && t.parts[0].leaf == "System`Return" {
			if len(t.parts) > 1 {
				return t.parts[1]
			}
			return &tree{leaf: "System`Null"}
		}
		h := t.parts[0]
		is := func(a string) bool { return c.attr(h, a) }
		if is("NumericFunction") {
			conds := &tree{parts: []*tree{{leaf: "System`And"}}}
			inner := &tree{parts: []*tree{h}}
			for _, p := range t.parts[1:] {
				if len(p.parts) == 3 && p.parts[0].leaf == "System`ConditionalExpression" {
					conds.parts = append(conds.parts, p.parts[2])
					p = p.parts[1]
				}
				inner.parts = append(inner.parts, p)
			}
			if len(conds.parts) > 1 {
				r := &tree{parts: []*tree{{leaf: "System`ConditionalExpression"}, inner, conds}}
				*ev = append(*ev, "evaluates "+r.String())
				return c.eval(r)
			}
		}
		var parts []*tree
		for i, p := range t.parts {
			if is("HoldAll") || is("HoldAllComplete") || i == 1 && is("HoldFirst") || i > 1 && is("HoldRest") {
				parts = append(parts, p)
				continue
			}
			*ev = append(*ev, "evaluates "+p.String())
			if c.throws == p.String() {
				return parseTree(thrownText)
			}
			parts = append(parts, c.eval(p))
		}
		thrown := false
		splice := func(head string, eval bool) {
			var out []*tree
			for _, p := range parts {
				if p.parts == nil || p.parts[0].leaf != head {
					out = append(out, p)
					continue
				}
				for _, q := range p.parts[1:] {
					if eval {
						if thrown {
							continue
						}
						*ev = append(*ev, "evaluates "+q.String())
						thrown = thrown || c.throws == q.String()
						q = c.eval(q)
					}
					out = append(out, q)
				}
			}
			parts = out
		}
		if !is("SequenceHold") && !is("HoldAllComplete") {
			splice("System`Sequence", false)
		}
		if !is("HoldAllComplete") {
			splice("System`Evaluate", true)
		}
		if thrown {
			return parseTree(thrownText)
		}
		splice("System`Unevaluated", false)
		if is("Flat") {
			splice(h.leaf, false)
		}
		if is("Orderless") {
			sort.SliceStable(parts[1:], func(i, j int) bool { return parts[1+i].String() < parts[1+j].String() })
		}
		t = &tree{parts: parts}
		if is("Listable") {
			n, same := -1, true
			for _, p := range parts[1:] {
				if p.parts != nil && p.parts[0].leaf == "System`List" {
					if n >= 0 && n != len(p.parts)-1 {
						same = false
					}
					n = len(p.parts) - 1
				}
			}
			if n >= 0 && same {
				l := &tree{parts: []*tree{{leaf: "System`List"}}}
				for k := 1; k <= n; k++ {
					e := &tree{parts: []*tree{parts[0]}}
					for _, p := range parts[1:] {
						if p.parts != nil && p.parts[0].leaf == "System`List" {
							p = p.parts[k]
						}
						e.parts = append(e.parts, p)
					}
					l.parts = append(l.parts, e)
				}
				t = l
				continue
			}
		}
		if h.parts != nil {
			if h.parts[0].leaf == "System`Function" {
				if v, ok := applyFunction(h, t.parts[1:]); ok {
					t = v
				}
			}
			continue
		}
		s := t.String()
		if c.hasFn[h.leaf] {
			*ev = append(*ev, "calls the builtin function on "+s)
			if r, ok := c.builtin[s]; ok {
				t = parseTree(r)
				continue
			}
		}
		if r, ok := c.rules[s]; ok {
			t = parseTree(r)
			inside = true
		}
	}
	return &tree{leaf: "?no end"}
}

// ---- interpretation ----

type evalRun struct {
	w   *World
	ai  *AI
	c   *evalCase
	ev  []string
	n   int
	gen int // the definitions have changed so often
}

// fresh puts a tree into memory as new objects without hashes.
func (w *World) freshTree(mem aMem, t *tree, name string) aVal {
	v := t.build(w, mem, name)
	var zero func(t *tree)
	zero = func(t *tree) {
		if t.parts == nil {
			return
		}
		for _, f := range w.uintFields(string(kExpr)) {
			mem[fmt.Sprintf("%s%d.%s", name, t.id, f)] = aInt(0)
		}
		for _, p := range t.parts {
			zero(p)
		}
	}
	zero(t)
	return v
}

func treeHash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()>>1 | 1
}

// structural answers IsSameQ, Hash and sorting on known trees.
func (w *World) structural(ai *AI, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
	o := calleeObj(call.Common())
	if o == nil {
		return nil, false
	}
	switch o.Name() {
	case "IsSameQ":
		if len(args) == 2 && o.Pkg() != nil && o.Pkg().Path() == pkgAtoms {
			x, y := ai.toTree(st.mem, args[0]).String(), ai.toTree(st.mem, args[1]).String()
			if strings.Contains(x+y, "?") {
				return nil, false
			}
			return []aVal{aBool(x == y)}, true
		}
	case "Hash":
		if s, ok := o.Type().(*types.Signature); ok && s.Recv() != nil && s.Params().Len() == 0 && len(args) == 1 {
			x := ai.toTree(st.mem, args[0]).String()
			if strings.Contains(x, "?") {
				return nil, false
			}
			return []aVal{aInt(int64(treeHash(x)))}, true
		}
	case "Sort", "Stable", "IsSorted":
		if o.Pkg() == nil || o.Pkg().Path() != "sort" || len(args) != 1 {
			return nil, false
		}
		e, ok := args[0].single()
		if !ok || kindOf(e) != kExpr {
			return nil, false
		}
		pl, ok := st.mem[e.Key+".Parts"].single()
		if !ok || pl.Kind != aSlice {
			return nil, false
		}
		ps, _ := ai.parts(st.mem, e)
		if len(ps) == 0 {
			return nil, false
		}
		ts := make([]string, len(ps))
		idx := make([]int, len(ps))
		for i, p := range ps {
			ts[i] = ai.toTree(st.mem, p).String()
			idx[i] = i
		}
		less := func(i, j int) bool { return ts[idx[1+i]] < ts[idx[1+j]] }
		if o.Name() == "IsSorted" {
			return []aVal{aBool(sort.SliceIsSorted(idx[1:], less))}, true
		}
		sort.SliceStable(idx[1:], less)
		for i, k := range idx {
			st.mem[fmt.Sprintf("%s[%d]", pl.Base, pl.Lo+i)] = ps[k]
		}
		return nil, true
	}
	return nil, false
}

// attributes is the value of expreduceapi.Attributes with these set.
func (w *World) attributes(set []string) aVal {
	f := map[string]aVal{}
	s := w.Type(pkgAPI, "Attributes").Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f[s.Field(i).Name()] = aBool(false)
	}
	for _, a := range set {
		f[a] = aBool(true)
	}
	return mkStruct(f)
}

func (x *evalRun) hook(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
	w := x.w
	o := calleeObj(call.Common())
	if o == nil {
		v := fr.get(st, call.Common().Value)
		if e, ok := v.single(); ok && strings.HasPrefix(e.Key, "builtin:") && len(args) == 2 {
			s := ai.toTree(st.mem, args[0]).String()
			x.ev = append(x.ev, "calls the builtin function on "+s)
			if s == x.c.builtinThrows && !x.throw(args[1], st) {
				return nil, false
			}
			if r, ok := x.c.builtin[s]; ok {
				x.n++
				return []aVal{w.freshTree(st.mem, parseTree(r), fmt.Sprintf("b%d_", x.n))}, true
			}
			return []aVal{args[0]}, true
		}
		return nil, false
	}
	if r, ok := w.structural(ai, call, fn, args, st); ok {
		return r, true
	}
	sig, _ := o.Type().(*types.Signature)
	if sig == nil || sig.Recv() == nil {
		return nil, false
	}
	recv := sig.Recv().Type()
	switch {
	case isNamed(recv, pkgAPI, "LoggingInterface"):
		return tops(sig.Results().Len()), true
	case isNamed(recv, pkgAPI, "DefinitionMap") && o.Name() == "Generation":
		return []aVal{aInt(int64(x.gen))}, true
	case isNamed(recv, pkgAPI, "DefinitionMap") && o.Name() == "Get" && len(args) == 2:
		n, ok := args[1].str()
		if !ok {
			return nil, false
		}
		_, known := x.c.attrs[n]
		f := aNilV
		if x.c.hasFn[n] {
			known = true
			f = aObj("builtin:"+n, nil)
		}
		def := mkStruct(map[string]aVal{"Attributes": w.attributes(x.c.attrs[n]), "LegacyEvalFn": f, "DefaultExpr": aNilV, "Downvalues": aNilV})
		return []aVal{def, aBool(known)}, true
	case !x.onState(recv):
		return nil, false
	}
	switch o.Name() {
	case "GetDefinedMap":
		return []aVal{aSymV("defs")}, true
	case "GetDef":
		if len(args) == 3 {
			s := ai.toTree(st.mem, args[2]).String()
			if s == x.c.ruleThrows {
				x.ev = append(x.ev, "tries the rules on "+s)
				if !x.throw(args[0], st) {
					return nil, false
				}
			}
			if r, ok := x.c.rules[s]; ok {
				x.n++
				res := w.freshTree(st.mem, parseTree(r), fmt.Sprintf("r%d_", x.n))
				return []aVal{res, aBool(true), w.freshTree(st.mem, parseTree("System`Rule[Global`l, Global`r]"), fmt.Sprintf("d%d_", x.n))}, true
			}
			return []aVal{aNilV, aBool(false), aNilV}, true
		}
	case "Eval":
		t := ai.toTree(st.mem, args[1])
		s := t.String()
		x.ev = append(x.ev, "evaluates "+s)
		if s == x.c.throws && !x.throw(args[0], st) {
			return nil, false
		}
		if s == x.c.changes {
			x.gen++
		}
		if r, ok := x.c.outcome[s]; ok {
			x.n++
			return []aVal{w.freshTree(st.mem, parseTree(r), fmt.Sprintf("e%d_", x.n))}, true
		}
		return []aVal{args[1]}, true
	}
	return nil, false
}

// throw has something thrown in this state.
func (x *evalRun) throw(es aVal, st *aState) bool {
	x.n++
	v := x.w.freshTree(st.mem, parseTree(thrownText), fmt.Sprintf("t%d_", x.n))
	_, m, err := x.ai.RunMethod(es, "Throw", []aVal{v}, st.mem)
	st.mem = m
	return err == nil
}

// onState tells if a method belongs to the evaluator.
func (x *evalRun) onState(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	return isNamed(t, pkgCore, "EvalState") || isNamed(t, pkgAPI, "EvalStateInterface")
}

func distinct(l []string) string {
	seen := map[string]bool{}
	var o []string
	for _, s := range l {
		if !seen[s] {
			seen[s] = true
			o = append(o, s)
		}
	}
	return strings.Join(o, ", then ")
}

func (w *World) newEvalRun(c *evalCase) *evalRun {
	x := &evalRun{w: w, ai: NewAI(w), c: c}
	x.ai.Hook = x.hook
	x.ai.LoopBound = 40
	x.ai.MaxSteps = 200000
	return x
}

func (w *World) evalState(mem aMem) aVal {
	mem["live:new:es"] = aBool(true)
	return aObj("new:es", types.NewPointer(w.Type(pkgCore, "EvalState")))
}

// run compares one abstract evaluation with the reference.
func (c *evalCase) run(w *World) string {
	x := w.newEvalRun(c)
	mem := x.ai.initGlobals(pkgCore)
	for k, v := range x.ai.initGlobals(pkgAtoms) {
		mem[k] = v
	}
	es := w.evalState(mem)
	t := parseTree(c.text)
	v := w.freshTree(mem, t, "in")
	var tr aVal
	if c.trace {
		tr = w.freshTree(mem, parseTree("System`List[]"), "trace")
		_, m, err := x.ai.RunMethod(es, "SetTrace", []aVal{tr}, mem)
		if err != nil {
			return "the trace is not determined: " + err.Error()
		}
		mem = m
	}
	res, out, err := x.ai.RunMethod(es, "Eval", []aVal{v}, mem)
	if err != nil || len(res) != 1 || x.ai.giveUps() != "" {
		return fmt.Sprint("not determined: ", err, x.ai.giveUps())
	}
	var wantEv []string
	want := c.reference(t, &wantEv)
	got := x.ai.toTree(out, res[0])
	show := func(s string) string { return ctxRE.ReplaceAllString(s, "") }
	if got.String() != want.String() {
		return show(fmt.Sprintf("gives %s instead of %s", got, want))
	}
	if g, e := distinct(x.ev), distinct(wantEv); g != e {
		return show(fmt.Sprintf("%s; instead it should be: %s", g, e))
	}
	if after := x.ai.toTree(out, v).String(); after != t.String() {
		return show(fmt.Sprintf("changes its argument to %s", after))
	}
	if c.trace {
		r, _, err := x.ai.RunMethod(es, "GetTrace", nil, out)
		if err != nil || len(r) != 1 || r[0].String() != tr.String() {
			return fmt.Sprintf("leaves another trace than before: %v", first(r))
		}
	}
	return ""
}

func checkEval(w *World, r *Report) {
	var cases []*evalCase
	evalCases(func(c *evalCase) { cases = append(cases, c) })
	w.runEvalCases(cases, r)
	r.atLeast("abstract evaluations", 500)
}

func (w *World) runEvalCases(cases []*evalCase, r *Report) {
	res := make([]string, len(cases))
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				res[i] = cases[i].run(w)
			}
		}()
	}
	for i := range cases {
		ch <- i
	}
	close(ch)
	wg.Wait()
	at := w.Pos(w.Fn(pkgCore, "EvalState.Eval").Pos())
	for i, c := range cases {
		r.check("evaluation", c.name(), at, res[i] == "", res[i])
	}
	r.count("abstract evaluations", len(cases))
}

func (c *evalCase) name() string {
	var l []string
	for h, a := range c.attrs {
		if len(a) > 0 {
			l = append(l, h+" is "+strings.Join(a, " and "))
		}
	}
	arrow := func(m map[string]string, how string) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			l = append(l, k+how+m[k])
		}
	}
	sort.Strings(l)
	arrow(c.outcome, " evaluates to ")
	arrow(c.builtin, " has the builtin value ")
	arrow(c.rules, " has a rule giving ")
	if c.throws != "" {
		l = append(l, c.throws+" throws")
	}
	if c.builtinThrows != "" {
		l = append(l, "the builtin function throws for "+c.builtinThrows)
	}
	if c.ruleThrows != "" {
		l = append(l, "a condition of a rule throws for "+c.ruleThrows)
	}
	if c.changes != "" {
		l = append(l, "evaluating "+c.changes+" changes definitions")
	}
	if c.trace {
		l = append(l, "traced")
	}
	return ctxRE.ReplaceAllString(c.text+" where "+strings.Join(l, ", "), "")
}

func evalCases(add func(*evalCase)) {
	all := []string{"HoldFirst", "HoldRest", "HoldAll", "HoldAllComplete", "SequenceHold", "Flat", "Orderless", "Listable", "NumericFunction"}
	sets := [][]string{nil}
	for i, a := range all {
		sets = append(sets, []string{a})
		for _, b := range all[i+1:] {
			sets = append(sets, []string{a, b})
		}
	}
	sets = append(sets, []string{"Flat", "Orderless", "Listable"}, []string{"Flat", "Orderless", "Listable", "NumericFunction"}, []string{"HoldFirst", "HoldRest", "SequenceHold"})
	g := shortNames
	m := func(kv ...string) map[string]string {
		o := map[string]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			o[g(kv[i])] = g(kv[i+1])
		}
		return o
	}
	f := g("f")
	outs := []string{"p", "q", "Sequence[]", "Sequence[b, a]", "List[b, a]", "List[]", "List[c]", "f[b, a]", "f[]", "f", "g[a]", "Evaluate[a, b]", "Sequence[Sequence[a]]"}
	for _, set := range sets {
		at := map[string][]string{f: set}
		for _, o := range outs {
			for _, txt := range []string{"f[p]", "f[p, c]", "f[c, p]"} {
				c := &evalCase{text: g(txt), attrs: at}
				if o != "p" {
					c.outcome = m("p", o)
				}
				add(c)
			}
		}
		// both parts
		add(&evalCase{text: g("f[p, r]"), attrs: at, outcome: m("p", "List[b, a]", "r", "List[c, a]")})
		add(&evalCase{text: g("f[p, r]"), attrs: at, outcome: m("p", "List[b, a]", "r", "List[c]")})
		add(&evalCase{text: g("f[p, c, r]"), attrs: at, outcome: m("p", "Sequence[d, b]", "r", "f[a]")})
		add(&evalCase{text: g("f[r, q, p]"), attrs: at, outcome: m("p", "a", "q", "b")})
		add(&evalCase{text: g("f[]"), attrs: at})
		// held constructs written out
		for _, x := range []string{"Sequence[p, c]", "Evaluate[p]", "Evaluate[p, c]", "Evaluate[]", "Sequence[]", "f[p]", "List[p]"} {
			add(&evalCase{text: g("f[" + x + ", r]"), attrs: at, outcome: m("p", "q", "r", "a")})
			add(&evalCase{text: g("f[r, " + x + "]"), attrs: at, outcome: m("p", "q", "r", "a")})
		}
		// conditional values
		add(&evalCase{text: g("f[ConditionalExpression[p, c], r]"), attrs: at, outcome: m("p", "q", "r", "a")})
		add(&evalCase{text: g("f[ConditionalExpression[p, c], ConditionalExpression[r, d]]"), attrs: at})
		add(&evalCase{text: g("f[ConditionalExpression[p], r]"), attrs: at})
		add(&evalCase{text: g("f[p, r]"), attrs: at, outcome: m("p", "ConditionalExpression[a, c]")})
		// throws
		for _, p := range []string{"p", "r", "f", "c"} {
			for _, tr := range []bool{false, true} {
				add(&evalCase{text: g("f[p, r, c]"), attrs: at, outcome: m("p", "q"), throws: g(p), trace: tr})
			}
		}
		for _, p := range []string{"p", "q", "r"} {
			fn := map[string]bool{f: true}
			add(&evalCase{text: g("f[c, Evaluate[p, q], Evaluate[r]]"), attrs: at, outcome: m("p", "d"), throws: g(p), hasFn: fn, builtin: m("f[c, d, q, r]", "s", "f[c, p, q, r]", "s")})
		}
		add(&evalCase{text: g("f[p, r, c]"), attrs: at, outcome: m("p", "q", "r", "Sequence[a, b]"), trace: true})
		// builtin functions and rules see the arguments as they are after all this
		fn := map[string]bool{f: true}
		add(&evalCase{text: g("f[p, c]"), attrs: at, outcome: m("p", "b"), hasFn: fn})
		add(&evalCase{text: g("f[p, c]"), attrs: at, outcome: m("p", "b"), hasFn: fn, builtin: m("f[b, c]", "r", "f[p, c]", "s")})
		add(&evalCase{text: g("f[p, c]"), attrs: at, outcome: m("p", "b"), rules: m("f[b, c]", "r", "f[p, c]", "s")})
		add(&evalCase{text: g("f[p, c]"), attrs: at, outcome: m("p", "b"), hasFn: fn, rules: m("f[b, c]", "r", "f[p, c]", "s")})
		add(&evalCase{text: g("f[p, c]"), attrs: at, outcome: m("p", "b"), hasFn: fn, builtin: m("f[b, c]", "h[1]", "f[p, c]", "h[2]"), rules: m("f[b, c]", "r", "f[p, c]", "s", "h[1]", "r2", "h[2]", "s2")})
		add(&evalCase{text: g("f[Unevaluated[p], c]"), attrs: at, outcome: m("p", "b"), hasFn: fn, builtin: m("f[p, c]", "r", "f[c, p]", "r")})
		add(&evalCase{text: g("f[Unevaluated[p], c]"), attrs: at, outcome: m("p", "b"), rules: m("f[p, c]", "r", "f[c, p]", "r")})
		add(&evalCase{text: g("f[Unevaluated[p, d], c]"), attrs: at, outcome: m("p", "b"), rules: m("f[p, d, c]", "r", "f[c, d, p]", "r")})
	}
	// repeated evaluation until nothing changes
	none := map[string][]string{f: nil}
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "f[q]", "f[q]", "h[q]", "h[q]", "r"), outcome: m("r", "s")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "h[p]"), outcome: m("p", "p")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "h[p, q]"), outcome: m("q", "r")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "f[p]")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "p"), outcome: m("p", "p")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "5")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "\"text\"")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "s"), outcome: m("s", "g[a]"), trace: true})
	// Return ends a rule, not a builtin function
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "Return[q]"), outcome: m("q", "r")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "Return[]")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "Return[q, r]")})
	add(&evalCase{text: g("f[p]"), attrs: none, rules: m("f[p]", "h[p]", "h[p]", "Return[q]")})
	add(&evalCase{text: g("f[p]"), attrs: none, hasFn: map[string]bool{f: true}, builtin: m("f[p]", "Return[q]")})
	add(&evalCase{text: g("Return[p]"), attrs: none, outcome: m("p", "q")})
	// symbols
	for _, x := range []string{"x", "X", "z1"} {
		add(&evalCase{text: g(x), attrs: none})
		for _, v := range []string{x, "v", "f[" + x + "]", "5", "\"t\"", "Return[q]", "v2"} {
			add(&evalCase{text: g(x), attrs: none, rules: m(x, v)})
			add(&evalCase{text: g(x), attrs: none, rules: m(x, v), outcome: m(v, "w[1]")})
			add(&evalCase{text: g(x), attrs: none, rules: m(x, v), outcome: m(v, "Return[q]", "q", "u")})
			add(&evalCase{text: g(x), attrs: none, rules: m(x, v), outcome: m(v, "Return[]")})
			add(&evalCase{text: g(x), attrs: none, rules: m(x, v, "v2", "v3"), outcome: m("v", x)})
		}
	}
	for _, x := range []string{"5", "\"x\"", "2.5"} {
		add(&evalCase{text: g(x), attrs: none, rules: m("x", "v", x, "v")})
	}
	// heads
	add(&evalCase{text: g("f[p, r]"), attrs: none, outcome: m("f", "h", "p", "q"), rules: m("h[q, r]", "s")})
	add(&evalCase{text: g("g[p][r]"), attrs: none, outcome: m("g[p]", "h", "r", "q"), rules: m("h[q]", "s")})
	add(&evalCase{text: g("g[p][r]"), attrs: none, outcome: m("r", "Sequence[q, q]")})
	add(&evalCase{text: g("g[p][r, Evaluate[r]]"), attrs: none, outcome: m("r", "Sequence[q, q]")})
	add(&evalCase{text: g("2[r, p]"), attrs: none, outcome: m("r", "q")})
	add(&evalCase{text: g("\"s\"[r]"), attrs: none, outcome: m("r", "q")})
	// attributes of the head that results
	for _, a := range []string{"Flat", "Orderless", "Listable"} {
		add(&evalCase{text: g("f[p, r]"), attrs: map[string][]string{f: nil, g("h"): {a}}, outcome: m("f", "h", "p", "h[d, b]", "r", "List[a]")})
		add(&evalCase{text: g("f[p, r]"), attrs: map[string][]string{f: nil, g("h"): {a}}, rules: m("f[p, r]", "h[r, p, h[q, List[a, b]]]")})
	}
}

// shortNames puts symbols with a capital letter into System` and the others
// into Global`.
func shortNames(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		start := i == 0 || s[i-1] != '(' && !(s[i-1] >= 'a' && s[i-1] <= 'z' || s[i-1] >= 'A' && s[i-1] <= 'Z' || s[i-1] >= '0' && s[i-1] <= '9')
		if start && c >= 'a' && c <= 'z' {
			b.WriteString("Global`")
		} else if start && c >= 'A' && c <= 'Z' {
			b.WriteString("System`")
		}
		b.WriteByte(c)
	}
	return b.String()
}
