package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C26", Title: "Definitions are kept and tried in the right order", Run: checkDefs,
		Explain: "EvalState.Define, GetDef, GetSymDef, Clear and the functions of Set, SetDelayed, DownValues and Attributes are interpreted abstractly on sequences of definitions: every pair of 34 left-hand sides in both orders, longer sequences, left-hand sides that are defined again, right-hand sides with and without conditions, symbols that have attributes, a default or a builtin function. The rules that result are compared with the description: nothing else changes, the same left-hand side is replaced in its place, a rule that is an instance of another comes before it.",
		Assume:  []string{"The definition map stores what it is given under the name it is given (C16)."}})
}

type defRun struct {
	opRun
	impl *types.Interface
	defs []string // definitions made by Set and SetDelayed
	rec  bool
	mem  aMem
	es   aVal
	fail string
}

const defKey = "$def:"

func (d *defRun) dhook(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
	o := calleeObj(call.Common())
	if o != nil {
		if sig, _ := o.Type().(*types.Signature); sig != nil && sig.Recv() != nil {
			rt := sig.Recv().Type()
			if o.Name() == "StringForm" || o.Name() == "String" {
				if s := ai.toTree(st.mem, args[0]).String(); len(args) == 2 && !strings.Contains(s, "?") {
					return []aVal{aStr(ctxRE.ReplaceAllString(s, ""))}, true
				}
			}
			if isNamed(rt, pkgAPI, "DefinitionMap") || types.Implements(rt, d.impl) || types.Implements(types.NewPointer(rt), d.impl) {
				if r, ok := d.onMap(o.Name(), args, st); ok {
					return r, true
				}
				return nil, false
			}
			if d.onState(rt) {
				switch o.Name() {
				case "Define":
					if d.rec {
						d.defs = append(d.defs, ai.toTree(st.mem, args[1]).String()+" = "+ai.toTree(st.mem, args[2]).String())
						return tops(sig.Results().Len()), true
					}
					return nil, false
				case "IsProfiling":
					return []aVal{aBool(false)}, true
				case "Debugf", "Infof", "Errorf":
					return tops(sig.Results().Len()), true
				case "Eval", "HasThrown", "Thrown":
				default:
					return nil, false
				}
			}
		}
	}
	return d.opHook(ai, fr, call, fn, args, st)
}

func (d *defRun) zeroDef() aVal {
	return mkStruct(map[string]aVal{"Attributes": d.w.attributes(nil), "LegacyEvalFn": aNilV, "DefaultExpr": aNilV, "Downvalues": aNilV})
}

func (d *defRun) onMap(name string, args []aVal, st *aState) ([]aVal, bool) {
	if name == "Generation" {
		return []aVal{aInt(1)}, true
	}
	if len(args) < 2 {
		return nil, false
	}
	n, ok := args[1].str()
	if !ok {
		return nil, false
	}
	v, known := st.mem[defKey+n]
	switch name {
	case "Set":
		st.mem[defKey+n] = args[2]
		return []aVal{}, true
	case "Get":
		if !known {
			v = d.zeroDef()
		}
		return []aVal{v, aBool(known)}, true
	case "GetDef":
		if !known {
			d.fail = "a definition that is not there is read: " + n
			v = d.zeroDef()
		}
		return []aVal{v}, true
	}
	return nil, false
}

func (w *World) newDefRun() *defRun {
	d := &defRun{}
	d.oc = &opCase{match: true, quiet: true, seq: map[string][]string{}, throwAt: map[string]int{}}
	d.cnt, d.vars = map[string]int{}, map[string]string{}
	d.w, d.ai, d.c = w, NewAI(w), &evalCase{}
	d.impl, _ = w.Type(pkgAPI, "DefinitionMap").Underlying().(*types.Interface)
	d.ai.Hook = d.dhook
	d.ai.LoopBound = 60
	d.ai.MaxSteps = 400000
	d.ai.mapKeys = map[string]aElem{}
	d.mem = d.ai.initGlobals(pkgCore)
	for k, v := range d.ai.initGlobals(pkgAtoms) {
		d.mem[k] = v
	}
	d.es = w.evalState(d.mem)
	if s, ok := w.Type(pkgCore, "EvalState").Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			switch {
			case f.Type().String() == "bool":
				d.mem["new:es."+f.Name()] = aBool(false)
			case isNamed(f.Type(), pkgAPI, "DefinitionMap") || types.Implements(f.Type(), d.impl):
				d.mem["new:es."+f.Name()] = aObj("defs", nil)
			}
		}
	}
	return d
}

func (d *defRun) build(text string) aVal {
	d.n++
	return d.w.freshTree(d.mem, parseTree(shortNames(text)), fmt.Sprintf("d%d_", d.n))
}

// call a method of the state.
func (d *defRun) call(name string, args ...aVal) []aVal {
	if d.fail != "" {
		return nil
	}
	res, m, err := d.ai.RunMethod(d.es, name, args, d.mem)
	if err != nil || d.ai.giveUps() != "" {
		d.fail = fmt.Sprint(name, " is not determined: ", err, d.ai.giveUps())
		return nil
	}
	d.mem = m
	return res
}

type defRule struct{ lhs, rhs *tree }

func (r defRule) String() string {
	return ctxRE.ReplaceAllString(r.lhs.String()+" = "+r.rhs.String(), "")
}

func showRules(l []defRule) string {
	var s []string
	for _, r := range l {
		s = append(s, r.String())
	}
	return "{" + strings.Join(s, "; ") + "}"
}

// rules of a symbol.
func (d *defRun) rules(name string) []defRule {
	v, ok := d.mem[defKey+"Global`"+name]
	if !ok {
		return nil
	}
	e, ok := v.single()
	if !ok || e.Kind != aStruct {
		d.fail = "the definition of " + name + " is not determined: " + v.String()
		return nil
	}
	l, ok := e.Flds["Downvalues"].single()
	if !ok {
		d.fail = "the rules of " + name + " are not determined"
		return nil
	}
	if l.Kind == aNil {
		return nil
	}
	st := &aState{mem: d.mem}
	n := sliceLen(st, l)
	if l.Kind != aSlice || n < 0 {
		d.fail = "the number of rules of " + name + " is not determined"
		return nil
	}
	var out []defRule
	for i := 0; i < n; i++ {
		x, _ := aiLoad(st, fmt.Sprintf("%s[%d]", l.Base, l.Lo+i), d.w.Type(pkgAPI, "DownValue")).single()
		t := d.ai.toTree(d.mem, x.Flds["Rule"])
		if !isRule(t) || !headed(t.parts[1], "HoldPattern") || len(t.parts[1].parts) != 2 {
			d.fail = "a rule is kept as " + t.String()
			return nil
		}
		out = append(out, defRule{t.parts[1].parts[1], t.parts[2]})
	}
	return out
}

// rest is what else the definition of a symbol holds.
func (d *defRun) rest(name string) string {
	e, ok := d.mem[defKey+"Global`"+name].single()
	if !ok || e.Kind != aStruct {
		return "nothing"
	}
	var o []string
	for k, v := range e.Flds {
		if k != "Downvalues" {
			o = append(o, k+": "+v.String())
		}
	}
	sort.Strings(o)
	return strings.Join(o, ", ")
}

var patternHeads = map[string]bool{"Blank": true, "BlankSequence": true, "BlankNullSequence": true, "Pattern": true, "Alternatives": true, "Optional": true, "PatternTest": true, "Condition": true, "Except": true, "Repeated": true, "RepeatedNull": true, "HoldPattern": true, "Verbatim": true}

func isLiteralTree(t *tree) bool {
	if t.parts == nil {
		return true
	}
	if h := t.parts[0]; h.parts == nil && patternHeads[strings.TrimPrefix(h.leaf, "System`")] {
		return false
	}
	for _, p := range t.parts {
		if !isLiteralTree(p) {
			return false
		}
	}
	return true
}

// renamed gives the variables the names v1, v2, ... in order of appearance.
func renamed(t *tree) string {
	n := map[string]string{}
	var walk func(t *tree) *tree
	walk = func(t *tree) *tree {
		if t.parts == nil {
			return t
		}
		o := &tree{}
		for i, p := range t.parts {
			if i == 1 && headed(t, "Pattern") {
				if n[p.leaf] == "" {
					n[p.leaf] = fmt.Sprintf("v%d", len(n)+1)
				}
				p = &tree{leaf: n[p.leaf]}
			}
			o.parts = append(o.parts, walk(p))
		}
		return o
	}
	return walk(t).String()
}

// instance tells if a is b, or is got from b by replacing blanks by blanks with
// a head, or blanks or sequences by expressions; blanks and variables of a
// pattern are taken without their names.
func instance(a, b *tree) bool {
	for headed(b, "Pattern") && len(b.parts) == 3 {
		b = b.parts[2]
	}
	for headed(a, "Pattern") && len(a.parts) == 3 {
		a = a.parts[2]
	}
	head := func(t *tree) string {
		if t.parts != nil && t.parts[0].parts == nil {
			return strings.TrimPrefix(t.parts[0].leaf, "System`")
		}
		return ""
	}
	if head(b) == "Blank" {
		switch h := head(a); {
		case h == "Blank":
			return len(b.parts) == 1 || len(a.parts) == 2 && a.parts[1].String() == b.parts[1].String()
		case patternHeads[h]:
			return false
		default:
			return len(b.parts) == 1 || headOf(a).String() == b.parts[1].String()
		}
	}
	if patternHeads[head(b)] || patternHeads[head(a)] || a.parts == nil || b.parts == nil {
		return a.String() == b.String()
	}
	var seq func(as, bs []*tree) bool
	seq = func(as, bs []*tree) bool {
		if len(bs) == 0 {
			return len(as) == 0
		}
		q := bs[0]
		for headed(q, "Pattern") && len(q.parts) == 3 {
			q = q.parts[2]
		}
		h := head(q)
		if h == "BlankSequence" || h == "BlankNullSequence" {
			if len(q.parts) != 1 {
				return len(as) > 0 && renamed(as[0]) == renamed(bs[0]) && seq(as[1:], bs[1:])
			}
			for n := 0; n <= len(as); n++ {
				ok := n > 0 || h == "BlankNullSequence"
				one := false
				for _, x := range as[:n] {
					for headed(x, "Pattern") && len(x.parts) == 3 {
						x = x.parts[2]
					}
					hx := head(x)
					one = one || hx != "BlankNullSequence"
					ok = ok && (!patternHeads[hx] || hx == "Blank" || hx == "BlankSequence" || hx == "BlankNullSequence" && h == "BlankNullSequence")
				}
				if ok && (one || h == "BlankNullSequence") && seq(as[n:], bs[1:]) {
					return true
				}
			}
			return false
		}
		return len(as) > 0 && instance(as[0], q) && seq(as[1:], bs[1:])
	}
	return seq(a.parts, b.parts)
}

// varCounts tells if every variable is used once.
func linear(t *tree) bool {
	n := map[string]int{}
	var walk func(t *tree)
	walk = func(t *tree) {
		if headed(t, "Pattern") {
			n[t.parts[1].leaf]++
		}
		for _, p := range t.parts {
			walk(p)
		}
	}
	walk(t)
	for _, c := range n {
		if c > 1 {
			return false
		}
	}
	return true
}

func conditional(t *tree) bool { return headed(t, "Condition") && len(t.parts) == 3 }

// before compares two rules: -1 if a must come before b whatever the order of
// definition, 1 if after, 0 if they stay in the order of definition, 2 if
// nothing is said about them.
func (a defRule) before(b defRule) int {
	la, lb := isLiteralTree(a.lhs), isLiteralTree(b.lhs)
	ca, cb := conditional(a.rhs), conditional(b.rhs)
	switch {
	case la && lb:
		return 0
	case la:
		return -1
	case lb:
		return 1
	case ca && cb:
		return 0
	case ca || cb:
		return 2
	case renamed(a.lhs) == renamed(b.lhs):
		return 0
	}
	ab, ba := instance(a.lhs, b.lhs), instance(b.lhs, a.lhs)
	switch {
	case ab && ba:
		// they differ only in variables that are used more than once
		if linear(b.lhs) && !linear(a.lhs) {
			return -1
		}
		if linear(a.lhs) && !linear(b.lhs) {
			return 1
		}
	case ab && linear(b.lhs):
		return -1
	case ba && linear(a.lhs):
		return 1
	}
	return 2
}

// condOf is what of a right-hand side makes rules different.
func condOf(t *tree) string {
	switch {
	case conditional(t):
		return "Condition[" + condOf(t.parts[1]) + ", " + t.parts[2].String() + "]"
	case (headed(t, "With") || headed(t, "Module")) && len(t.parts) == 3 && headed(t.parts[2], "Condition"):
		return t.parts[0].leaf + "[" + t.parts[1].String() + ", " + condOf(t.parts[2]) + "]"
	}
	return "nothing"
}

// expect compares the rules after a definition with those before it.
func expectDefined(old, now []defRule, n defRule) string {
	for i, o := range old {
		if o.lhs.String() == n.lhs.String() && condOf(o.rhs) == condOf(n.rhs) {
			want := append(append([]defRule{}, old[:i]...), n)
			want = append(want, old[i+1:]...)
			if showRules(want) != showRules(now) {
				return fmt.Sprintf("defining %s again makes of %s the rules %s", n, showRules(old), showRules(now))
			}
			return ""
		}
	}
	at := -1
	var others []defRule
	for i, r := range now {
		if at < 0 && r.String() == n.String() {
			at = i
			continue
		}
		others = append(others, r)
	}
	if at < 0 || showRules(others) != showRules(old) {
		return fmt.Sprintf("defining %s makes of %s the rules %s", n, showRules(old), showRules(now))
	}
	for i, o := range old {
		b := n.before(o)
		if b == -1 && i < at || b == 1 && i >= at || b == 0 && i >= at {
			// an order that the other rules do not allow is not asked for
			return fmt.Sprintf("%s comes %s %s", n, map[bool]string{true: "after", false: "before"}[i < at], o)
		}
	}
	return ""
}

func checkDefs(w *World, r *Report) {
	w.builtins() // not to be made by several goroutines
	X := func(n string) string { return "Pattern[" + n + ", Blank[]]" }
	x, y, long := X("x"), X("y"), X("averylongname")
	lhs := []string{"f[]", "f[a]", "f[5]", "f[\"s\"]", "f[2.5]", "f[" + x + "]", "f[" + long + "]", "f[Pattern[x, Blank[Integer]]]", "f[Pattern[k, Blank[g]]]", "f[Pattern[averylongname, Blank[Symbol]]]",
		"f[Blank[]]", "f[Pattern[x, BlankSequence[]]]", "f[Pattern[x, BlankNullSequence[]]]", "f[a, b]", "f[5, " + y + "]", "f[" + x + ", 5]", "f[" + x + ", " + y + "]", "f[" + x + ", " + x + "]", "f[" + x + ", " + long + "]", "f[Pattern[x, Blank[Integer]], " + y + "]", "f[" + x + ", Pattern[y, Blank[Integer]]]",
		"f[" + x + ", Pattern[y, BlankSequence[]]]", "f[" + x + ", Pattern[y, BlankNullSequence[]]]", "f[5, Pattern[y, BlankNullSequence[]]]", "f[g[a]]", "f[g[" + x + "]]", "f[g[" + x + ", " + y + "]]", "f[g[Pattern[x, BlankNullSequence[]]]]", "f[g[g[a], b]]", "f[List[" + x + ", a]]", "f[a, b, c, d, e, " + x + "]", "f[a, b, c, d, e, " + long + "]", "f[g[g[g[g[" + x + "]]]]]", "f[g[g[g[" + X("y") + "]]]]"}
	tests := []string{"f[PatternTest[" + x + ", q]]", "f[Optional[" + x + ", 0]]", "f[Alternatives[a, b]]", "f[" + x + ", Optional[" + y + ", 0]]", "f[Except[a]]", "f[Condition[" + x + ", q[x]]]", "f[Repeated[" + x + "]]", "f[HoldPattern[" + x + "]]"}
	rhss := []string{"v1", "Condition[v2, p[x]]", "Condition[v3, q[x]]", "Module[List[m], Condition[v4, p[x]]]", "With[List[Set[m, 1]], Condition[v5, p[x]]]", "Condition[Condition[v6, p[x]], q[x]]", "Module[List[m], v7]"}

	type step struct{ l, r string }
	at := "-"
	if fn := w.Prog.LookupMethod(types.NewPointer(w.Type(pkgCore, "EvalState")), nil, "Define"); fn != nil {
		at = w.Pos(fn.Pos())
	}
	// what the symbol has before
	setup := func(d *defRun, with bool) {
		d.mem[defKey+"Global`g"] = mkStruct(map[string]aVal{"Attributes": d.w.attributes([]string{"Flat"}), "LegacyEvalFn": aObj("builtin:g", nil), "DefaultExpr": d.build("dg"), "Downvalues": aNilV})
		if with {
			d.mem[defKey+"Global`f"] = mkStruct(map[string]aVal{"Attributes": d.w.attributes([]string{"HoldFirst", "Listable"}), "LegacyEvalFn": aObj("builtin:f", nil), "DefaultExpr": d.build("df"), "Downvalues": aNilV})
		}
	}
	runSteps := func(steps []step, with bool) string {
		d := w.newDefRun()
		setup(d, with)
		restF, restG := d.rest("f"), d.rest("g")
		if !with {
			d2 := w.newDefRun()
			d2.mem[defKey+"Global`f"] = d2.zeroDef()
			restF = d2.rest("f")
		}
		for _, s := range steps {
			n := defRule{parseTree(shortNames(s.l)), parseTree(shortNames(s.r))}
			old := d.rules("f")
			lv, rv := d.build(s.l), d.build(s.r)
			d.call("Define", lv, rv)
			now := d.rules("f")
			if d.fail != "" {
				return d.fail
			}
			if why := expectDefined(old, now, n); why != "" {
				return why
			}
			if g := d.rest("f"); g != restF {
				return fmt.Sprintf("defining %s leaves %s of %s", n, g, restF)
			}
			if len(d.rules("g")) != 0 || d.rest("g") != restG {
				return fmt.Sprintf("defining %s changes the definition of g", n)
			}
			for k := range d.mem {
				if strings.HasPrefix(k, defKey) && k != defKey+"Global`f" && k != defKey+"Global`g" {
					return fmt.Sprintf("defining %s defines %s", n, strings.TrimPrefix(k, defKey))
				}
			}
			if t := d.ai.toTree(d.mem, lv).String() + " " + d.ai.toTree(d.mem, rv).String(); t != n.lhs.String()+" "+n.rhs.String() {
				return "the arguments are changed to " + t
			}
		}
		return ""
	}
	var all [][]step
	every := append(append([]string{}, lhs...), tests...)
	for i, a := range every {
		for j, b := range every {
			if i == j {
				continue
			}
			all = append(all, []step{{a, "v1"}, {b, "v2"}})
			all = append(all, []step{{a, "v1"}, {b, "v2"}, {a, "v3"}, {b, "v4"}})
			c := lhs[(i*7+j*3)%len(lhs)]
			if c != a && c != b {
				all = append(all, []step{{c, "v1"}, {a, "v2"}, {b, "v3"}})
			}
		}
		for _, p := range rhss {
			for _, q := range rhss {
				all = append(all, []step{{a, p}, {a, q}, {a, p}})
			}
		}
	}
	for i, a := range lhs {
		for j := range rhss {
			b := lhs[(i+j*5+1)%len(lhs)]
			all = append(all, []step{{a, rhss[j]}, {b, "v1"}, {a, "v2"}, {b, rhss[(j+2)%len(rhss)]}})
		}
	}
	name := func(l []step) string {
		var s []string
		for _, x := range l {
			s = append(s, x.l+" = "+x.r)
		}
		return strings.Join(s, "; ")
	}
	res := parallel(len(all), func(i int) string { return runSteps(all[i], i%3 == 0) })
	for i, why := range res {
		r.check("define", name(all[i]), at, why == "", why)
	}
	r.count("sequences of definitions", len(all))
	w.defsUse(r, lhs)
	w.defsOther(r)
	w.defsSet(r)
	w.defsCopied(r)
}

// defsUse: the first rule that applies is the one that is used.
func (w *World) defsUse(r *Report, lhs []string) {
	at := "-"
	if fn := w.Prog.LookupMethod(types.NewPointer(w.Type(pkgCore, "EvalState")), nil, "GetDef"); fn != nil {
		at = w.Pos(fn.Pos())
	}
	var simple []string
	for _, l := range lhs {
		if !strings.Contains(l, "NullSequence") {
			simple = append(simple, l)
		}
	}
	targets := []string{"f[]", "f[a]", "f[5]", "f[b, 5]", "f[a, b]", "f[b, b]", "f[g[a]]", "f[g[a, b]]", "f[\"t\"]", "g[a]"}
	type use struct {
		ls  []string
		t   string
		cnd string
	}
	var uses []use
	for i := range simple {
		for k, t := range targets {
			uses = append(uses, use{[]string{simple[i], simple[(i*5+k)%len(simple)], simple[(i+7+k)%len(simple)], "f[Pattern[z, BlankSequence[]]]"}, t, []string{"", "True", "False", "maybe"}[(i+k)%4]})
		}
	}
	res := parallel(len(uses), func(i int) string {
		u := uses[i]
		d := w.newDefRun()
		if u.cnd != "" {
			d.oc.compute = func(t *tree) *tree { return nil }
			d.oc.conditions(u.cnd)
		}
		for j, l := range u.ls {
			rhs := fmt.Sprintf("v%d[x, y]", j)
			if u.cnd != "" && j%2 == 0 {
				rhs = "Condition[" + rhs + ", p[x]]"
			}
			d.call("Define", d.build(l), d.build(rhs))
		}
		rules := d.rules("f")
		t := parseTree(shortNames(u.t))
		res := d.call("GetDef", aStr("Global`f"), d.build(u.t))
		if d.fail != "" {
			return d.fail
		}
		ref := &opRef{c: d.oc, n: map[string]int{}, vars: map[string]*tree{}}
		want := "nothing"
		for _, rl := range rules {
			if v, ok := ref.applyRule(t, sysTree("Rule", rl.lhs, rl.rhs)); ok {
				want = v.String()
				break
			}
		}
		got := "nothing"
		ok, known := res[1].boolean()
		if !known {
			return "whether a rule applies is not determined"
		}
		if ok {
			got = d.ai.toTree(d.mem, res[0]).String()
		}
		if got != want {
			return ctxRE.ReplaceAllString(fmt.Sprintf("of %s the rule used gives %s instead of %s", showRules(rules), got, want), "")
		}
		return ""
	})
	for i, why := range res {
		r.check("use", fmt.Sprintf("%s with rules for %s, conditions %s", uses[i].t, strings.Join(uses[i].ls, ", "), uses[i].cnd), at, why == "", why)
	}
	r.count("uses", len(uses))
}

// defsOther: values of symbols, Clear, Attributes and DownValues, left-hand
// sides that define nothing.
func (w *World) defsOther(r *Report) {
	try := func(what string, f func(d *defRun) string) {
		d := w.newDefRun()
		why := f(d)
		if d.fail != "" {
			why = d.fail
		}
		r.check("other", what, "expreduce/evalstate.go", why == "", why)
	}
	symDef := func(d *defRun, n string) string {
		res := d.call("GetSymDef", aStr("Global`"+n))
		if len(res) != 2 {
			return "?"
		}
		if ok, known := res[1].boolean(); !known || !ok {
			if !known {
				return "?"
			}
			return "nothing"
		}
		return ctxRE.ReplaceAllString(d.ai.toTree(d.mem, res[0]).String(), "")
	}
	want := func(got, want string) string {
		if got != want {
			return fmt.Sprintf("gives %s instead of %s", got, want)
		}
		return ""
	}
	rulesBefore := [][]string{{}, {"s[a]"}, {"s[Pattern[x, Blank[]]]", "s[]"}, {"s[Pattern[x, Blank[]], Pattern[y, Blank[]], Pattern[z, Blank[]]]"}}
	for i, rb := range rulesBefore {
		pre := func(d *defRun) {
			for _, l := range rb {
				d.call("Define", d.build(l), d.build("old"))
			}
		}
		try(fmt.Sprintf("the value of a symbol with %d rules", len(rb)+i), func(d *defRun) string {
			pre(d)
			if s := want(symDef(d, "s"), "nothing"); s != "" {
				return s
			}
			d.call("Define", d.build("s"), d.build("v[1]"))
			if s := want(symDef(d, "s"), "v[1]"); s != "" {
				return s
			}
			d.call("Define", d.build("s"), d.build("v[2]"))
			if s := want(symDef(d, "s"), "v[2]"); s != "" {
				return s
			}
			if n := len(d.rules("s")); n != len(rb)+1 {
				return fmt.Sprintf("the symbol has %d rules", n)
			}
			return want(symDef(d, "t"), "nothing")
		})
		try(fmt.Sprintf("Clear of a symbol with %d rules", len(rb)+i), func(d *defRun) string {
			pre(d)
			d.call("Define", d.build("s"), d.build("v"))
			d.call("Define", d.build("t"), d.build("v"))
			d.call("Clear", aStr("Global`s"))
			if n := len(d.rules("s")); n != 0 {
				return fmt.Sprintf("%d rules are left", n)
			}
			if len(d.rules("t")) != 1 {
				return "another symbol is cleared"
			}
			d.call("Clear", aStr("Global`u"))
			return want(symDef(d, "s"), "nothing")
		})
		try(fmt.Sprintf("definitions while frozen, %d rules", len(rb)+i), func(d *defRun) string {
			pre(d)
			d.call("Define", d.build("s"), d.build("v"))
			old := showRules(d.rules("s"))
			d.call("SetFrozen", aBool(true))
			for _, l := range []string{"s", "s[a]", "s[new]", "u", "u[a]", "Attributes[s]", "DownValues[s]"} {
				d.call("Define", d.build(l), d.build("List[]"))
			}
			if _, ok := d.mem[defKey+"Global`u"]; ok {
				return "a symbol is defined"
			}
			if s := want(showRules(d.rules("s")), old); s != "" {
				return s
			}
			d.call("SetFrozen", aBool(false))
			d.call("Define", d.build("u"), d.build("v"))
			return want(symDef(d, "u"), "v")
		})
	}
	for _, l := range []string{"5", "\"s\"", "2.5", "5[a]", "f[a][b]", "Attributes[]", "Attributes[5]", "Attributes[s, t]", "DownValues[]", "DownValues[5]", "DownValues[s, t]", "\"s\"[a]"} {
		try("definition of "+l, func(d *defRun) string {
			d.call("Define", d.build("s"), d.build("v"))
			old := showRules(d.rules("s"))
			d.call("Define", d.build(l), d.build("List[]"))
			for k := range d.mem {
				if strings.HasPrefix(k, defKey) && k != defKey+"Global`s" {
					return "defines " + strings.TrimPrefix(k, defKey)
				}
			}
			return want(showRules(d.rules("s")), old)
		})
	}
	// lists of rules
	for _, known := range []bool{false, true} {
		for _, l := range []string{"", "RuleDelayed[s[b], 1]", "Rule[HoldPattern[s[b]], 1], Rule[s[c], 2]", "RuleDelayed[s[Pattern[x, Blank[]]], x], Rule[s[a], 2], Rule[s[], 3]"} {
			try(fmt.Sprintf("DownValues[s] = {%s}, known: %v", l, known), func(d *defRun) string {
				if known {
					d.mem[defKey+"Global`s"] = mkStruct(map[string]aVal{"Attributes": w.attributes([]string{"Flat"}), "LegacyEvalFn": aNilV, "DefaultExpr": d.build("ds"), "Downvalues": aNilV})
					d.call("Define", d.build("s[a]"), d.build("old"))
				}
				rest := d.rest("s")
				d.call("Define", d.build("DownValues[s]"), d.build("List["+l+"]"))
				var rs []defRule
				for _, t := range parseTree(shortNames("List[" + l + "]")).args() {
					lh := t.parts[1]
					if headed(lh, "HoldPattern") {
						lh = lh.parts[1]
					}
					rs = append(rs, defRule{lh, t.parts[2]})
				}
				if g := d.rest("s"); known && g != rest {
					return "leaves " + g + " of " + rest
				}
				return want(showRules(d.rules("s")), showRules(rs))
			})
		}
		for _, l := range []string{"5", "List[5]", "List[Rule[a]]", "Rule[a, b]", "List[Rule[s[a], 1], x]"} {
			try(fmt.Sprintf("DownValues[s] = %s, known: %v", l, known), func(d *defRun) string {
				if known {
					d.call("Define", d.build("s[a]"), d.build("old"))
				}
				old := showRules(d.rules("s"))
				d.call("Define", d.build("DownValues[s]"), d.build(l))
				return want(showRules(d.rules("s")), old)
			})
		}
		// attributes
		a, _ := w.Type(pkgAPI, "Attributes").Underlying().(*types.Struct)
		var names []string
		for i := 0; a != nil && i < a.NumFields(); i++ {
			names = append(names, a.Field(i).Name())
		}
		for i := range names {
			set := []string{names[i], names[(i+3)%len(names)], names[(i+4)%len(names)]}
			if i == 0 {
				set = nil
			}
			try(fmt.Sprintf("Attributes[s] = %v, known: %v", set, known), func(d *defRun) string {
				if known {
					d.mem[defKey+"Global`s"] = mkStruct(map[string]aVal{"Attributes": w.attributes([]string{"Flat"}), "LegacyEvalFn": aObj("builtin:s", nil), "DefaultExpr": aNilV, "Downvalues": aNilV})
					d.call("Define", d.build("s[a]"), d.build("old"))
				}
				old := showRules(d.rules("s"))
				var l []string
				for _, n := range set {
					l = append(l, n)
				}
				d.call("Define", d.build("Attributes[s]"), d.build("List["+strings.Join(l, ", ")+"]"))
				if d.fail != "" {
					return ""
				}
				e, _ := d.mem[defKey+"Global`s"].single()
				if e.Kind != aStruct {
					return "the symbol is not defined"
				}
				if s := want(trueFields(e.Flds["Attributes"]), trueFields(w.attributes(set))); s != "" {
					return s
				}
				if known && e.Flds["LegacyEvalFn"].String() != aObj("builtin:s", nil).String() {
					return "the builtin function is lost"
				}
				return want(showRules(d.rules("s")), old)
			})
		}
	}
}

// defsSet: what Set and SetDelayed define, and what they give; DownValues.
func (w *World) defsSet(r *Report) {
	attrs := []string{"", "HoldAll", "HoldFirst", "HoldRest", "HoldAllComplete", "Flat"}
	var texts []string
	for _, op := range []string{"Set", "SetDelayed"} {
		for _, l := range []string{"s", "f[]", "f[a]", "f[a, b]", "f[a, b, c]", "f[g[a], a, Pattern[x, Blank[]]]", "g[f[a]]", "f[a][b]", "5"} {
			for _, v := range []string{"v", "f[a]", "List[a, b]"} {
				texts = append(texts, op+"["+l+", "+v+"]")
			}
		}
		texts = append(texts, op+"[]", op+"[a]", op+"[a, b, c]")
	}
	type cs struct{ text, attr string }
	var cases []cs
	for _, t := range texts {
		for _, a := range attrs {
			cases = append(cases, cs{t, a})
		}
	}
	ev := func(t *tree) *tree {
		if t.parts == nil && strings.HasPrefix(t.leaf, "Global`") && len(t.leaf) == len("Global`a") && strings.Contains("abc", t.leaf[7:]) {
			return parseTree("Global`ev[" + t.leaf + "]")
		}
		return nil
	}
	res := parallel(len(cases), func(i int) string {
		c := cases[i]
		d := w.newDefRun()
		d.rec = true
		d.oc.compute = ev
		if c.attr != "" {
			d.mem[defKey+"Global`f"] = mkStruct(map[string]aVal{"Attributes": w.attributes([]string{c.attr}), "LegacyEvalFn": aNilV, "DefaultExpr": aNilV, "Downvalues": aNilV})
		}
		t := parseTree(shortNames(c.text))
		op := strings.TrimPrefix(t.parts[0].leaf, "System`")
		got := d.builtin(op, t)
		if d.fail != "" {
			return d.fail
		}
		want, defs := t, ""
		if len(t.parts) == 3 {
			l := t.parts[1]
			held := func(k int) bool {
				if l.parts[0].leaf != "Global`f" {
					return false
				}
				switch c.attr {
				case "HoldAll", "HoldAllComplete":
					return true
				case "HoldFirst":
					return k == 1
				case "HoldRest":
					return k > 1
				}
				return false
			}
			if l.parts != nil {
				o := &tree{}
				for k, p := range l.parts {
					if n := ev(p); n != nil && !held(k) {
						p = n
					}
					o.parts = append(o.parts, p)
				}
				l = o
			}
			defs = l.String() + " = " + t.parts[2].String()
			want = t.parts[2]
			if op == "SetDelayed" {
				want = &tree{leaf: "System`Null"}
			}
		}
		if g := strings.Join(d.defs, "; "); g != defs {
			return ctxRE.ReplaceAllString(fmt.Sprintf("defines %s instead of %s", orNothing(g), orNothing(defs)), "")
		}
		if got.String() != want.String() {
			return ctxRE.ReplaceAllString(fmt.Sprintf("gives %s instead of %s", got, want), "")
		}
		return ""
	})
	for i, why := range res {
		r.check("set", fmt.Sprintf("%s where f is %s", cases[i].text, cases[i].attr), "expreduce/builtin_system.go", why == "", why)
	}
	// DownValues
	for _, ls := range [][]string{{}, {"s"}, {"s[a]"}, {"s", "s[a]", "s[Pattern[x, Blank[]]]"}, {"s[Pattern[x, Blank[]]]", "s[a]", "s", "s[]", "s[b]"}} {
		d := w.newDefRun()
		for i, l := range ls {
			d.call("Define", d.build(l), d.build(fmt.Sprintf("v%d", i)))
		}
		want := sysTree("List")
		for _, rl := range d.rules("s") {
			if rl.lhs.parts != nil {
				want.parts = append(want.parts, sysTree("RuleDelayed", sysTree("HoldPattern", rl.lhs), rl.rhs))
			}
		}
		got := d.builtin("DownValues", parseTree(shortNames("DownValues[s]")))
		why := d.fail
		if why == "" && got.String() != want.String() {
			why = ctxRE.ReplaceAllString(fmt.Sprintf("gives %s instead of %s", got, want), "")
		}
		r.check("set", "DownValues[s] after definitions of "+strings.Join(ls, ", "), "expreduce/builtin_system.go", why == "", why)
	}
}

// builtin calls the function of a builtin symbol.
func (d *defRun) builtin(name string, t *tree) *tree {
	b := d.w.builtins()[name]
	if b == nil || b.EvalValue() == nil {
		d.fail = name + " has no builtin function"
		return nil
	}
	d.n++
	v := d.w.freshTree(d.mem, t, fmt.Sprintf("d%d_", d.n))
	fv, mem, err := d.w.constValue(d.ai, b.EvalValue(), d.mem)
	if err != nil {
		d.fail = err.Error()
		return nil
	}
	res, out := d.ai.runFunc(fv, []aVal{v, d.es}, mem)
	if len(res) != 1 || d.ai.giveUps() != "" {
		d.fail = "not determined: " + d.ai.giveUps()
		return nil
	}
	d.mem = out
	return d.ai.toTree(out, res[0])
}

// trueFields names the fields of a struct that are true.
func trueFields(v aVal) string {
	e, _ := v.single()
	var o []string
	for n, x := range e.Flds {
		if b, ok := x.boolean(); !ok {
			o = append(o, "perhaps "+n+" "+x.String())
		} else if b {
			o = append(o, n)
		}
	}
	sort.Strings(o)
	return "{" + strings.Join(o, ", ") + "}"
}

// defsCopied: a copy of the definitions has every definition, whole.
func (w *World) defsCopied(r *Report) {
	it, _ := w.Type(pkgAPI, "DefinitionMap").Underlying().(*types.Interface)
	sc := w.Type(pkgCore, "EvalState").Obj().Pkg().Scope()
	n := 0
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || types.IsInterface(tn.Type()) || !types.Implements(types.NewPointer(tn.Type()), it) {
			continue
		}
		n++
		for rules := 0; rules < 3; rules++ {
			for _, dflt := range []bool{false, true} {
				at := "-"
				if fn := w.Prog.LookupMethod(types.NewPointer(tn.Type()), nil, "CopyDefs"); fn != nil {
					at = w.Pos(fn.Pos())
				}
				why := w.defCopied(types.NewPointer(tn.Type()), rules, dflt)
				r.check("copy", fmt.Sprintf("%s: a definition with %d rules, with a default: %v", name, rules, dflt), at, why == "", why)
			}
		}
	}
	r.count("definition maps", n)
	r.atLeast("definition maps", 1)
}

func (w *World) defCopied(t types.Type, rules int, dflt bool) string {
	d := w.newDefRun()
	attrs := []string{"Flat", "HoldRest", "Protected"}
	def := map[string]aVal{"Attributes": w.attributes(attrs), "LegacyEvalFn": aObj("builtin:s", nil), "DefaultExpr": aNilV, "Downvalues": aNilV}
	if dflt {
		def["DefaultExpr"] = d.build("dv[a]")
	}
	for i := 0; i < rules; i++ {
		d.call("Define", d.build(fmt.Sprintf("s[a%d]", i)), d.build(fmt.Sprintf("v[%d]", i)))
	}
	if d.fail != "" {
		return d.fail
	}
	orig := d.rules("s")
	if rules > 0 {
		e, _ := d.mem[defKey+"Global`s"].single()
		def["Downvalues"] = e.Flds["Downvalues"]
	}
	delete(d.mem, defKey+"Global`s")
	names := []string{"Global`other", "Global`s"}
	vals := []aVal{mkStruct(map[string]aVal{"Attributes": w.attributes([]string{"Flat"}), "LegacyEvalFn": aNilV, "DefaultExpr": aNilV, "Downvalues": aNilV}), mkStruct(def)}
	self := aObj("new:dm", t)
	d.mem["live:new:dm"] = aBool(true)
	d.ai.Recv = func(ch aElem, st *aState) (aVal, aVal, bool) {
		if ch.Key != "chan:defs" {
			return aVal{}, aVal{}, false
		}
		i, _ := st.mem["$recv"].integer()
		st.mem["$recv"] = aInt(int64(i + 1))
		if i >= len(names) {
			return mkStruct(map[string]aVal{"Key": aStr(""), "Val": aNilV}), aBool(false), true
		}
		return mkStruct(map[string]aVal{"Key": aStr(names[i]), "Val": typed(vals[i], w.Type(pkgAPI, "Def"))}), aBool(true), true
	}
	old := d.ai.Hook
	started := false
	d.ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
		o := calleeObj(call.Common())
		if o != nil && o.Pkg() != nil && !strings.HasPrefix(o.Pkg().Path(), "github.com/corywalker") {
			if sig := o.Type().(*types.Signature); sig.Results().Len() == 1 && sig.Params().Len() == 0 {
				if _, ok := sig.Results().At(0).Type().Underlying().(*types.Chan); ok {
					return []aVal{aObj("chan:defs", nil)}, true
				}
			}
			return nil, false
		}
		if o != nil && (o.Name() == "DeepCopy" || o.Name() == "Copy") && len(args) == 1 {
			d.n++
			return []aVal{w.freshTree(st.mem, numbered(ai.toTree(st.mem, args[0])), fmt.Sprintf("copy%d_", d.n))}, true
		}
		if o != nil && o.Name() == "CopyDefs" && !started {
			started = true
			return nil, false
		}
		return old(ai, fr, call, fn, args, st)
	}
	_, m, err := d.ai.RunMethod(self, "CopyDefs", nil, d.mem)
	if err != nil || d.ai.giveUps() != "" {
		return fmt.Sprint("not determined: ", err, d.ai.giveUps())
	}
	d.mem = m
	for i, n := range names {
		e, ok := d.mem[defKey+n].single()
		if !ok || e.Kind != aStruct {
			return "the definition of " + n + " is not in the copy"
		}
		if i == 0 {
			continue
		}
		if g, x := trueFields(e.Flds["Attributes"]), trueFields(w.attributes(attrs)); g != x {
			return "the copy has the attributes " + g + " instead of " + x
		}
		if e.Flds["LegacyEvalFn"].String() != def["LegacyEvalFn"].String() {
			return "the copy has no builtin function"
		}
		if dflt {
			if g := d.ai.toTree(d.mem, e.Flds["DefaultExpr"]).String(); g != "Global`dv[Global`a]" {
				return "the copy has the default " + g
			}
		} else if e.Flds["DefaultExpr"].String() != aNilV.String() {
			return "the copy has a default"
		}
		got := d.rules("s")
		if d.fail != "" {
			return d.fail
		}
		if showRules(got) != showRules(orig) {
			return "the copy has the rules " + showRules(got) + " instead of " + showRules(orig)
		}
	}
	return ""
}

// typed is a value in an interface.
func typed(v aVal, t types.Type) aVal {
	e, _ := v.single()
	e.Typ = t
	return one(e)
}
