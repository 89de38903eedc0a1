package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C42", Title: "Control structures evaluate exactly what they say, in order", Run: checkControl,
		Explain: "The Go function of each control structure is interpreted abstractly on calls whose parts are opaque; the evaluation of each part has prescribed outcomes (True, False, something undecided, Break, Return, a throw in the first, second or third round). The sequence of evaluations, with the values of the iteration variables at each, and the result are compared with those of the structure's definition.",
		Assume:  []string{"The evaluation of a part meets its own description (C20); pattern matching as such is the subject of C09 and C10; structural comparison and hashing tell expressions apart (C03, C04)."}})
}

// opCase is one call of a builtin function.
type opCase struct {
	fn, text string
	seq      map[string][]string // outcomes of evaluations; the last one repeats
	throwAt  map[string]int      // the evaluation (from 1) that throws
	attrs    map[string][]string
	quiet    bool                // what is evaluated does not matter, only the result
	match    bool                // the matcher is interpreted too
	compute  func(t *tree) *tree // further outcomes
	says     string
	thrown   string // what is thrown, if not the usual
}

// throwsWhat is the expression that is thrown.
func (c *opCase) throwsWhat() *tree {
	if c.thrown != "" {
		return parseTree(c.thrown)
	}
	return parseTree(thrownText)
}

type opThrow struct{}

// opRef carries out the definition of a structure.
type opRef struct {
	c     *opCase
	n     map[string]int
	ev    []string
	names []string
	vars  map[string]*tree
}

func (x *opRef) note(s string) string { return s + x.bindings() }

func (x *opRef) bindings() string {
	s := ""
	for _, n := range x.names {
		s += " with " + n + " = " + x.vars[n].String()
	}
	return s
}

func (x *opRef) eval(t *tree) *tree {
	v, thrown, quiet := x.c.outcome(t, x.n)
	if !quiet {
		x.ev = append(x.ev, "evaluates "+t.String()+x.bindings())
	}
	if thrown {
		panic(opThrow{})
	}
	return v
}

// outcome is the value of the next evaluation of t.
func (c *opCase) outcome(t *tree, n map[string]int) (v *tree, throws, quiet bool) {
	s := t.String()
	if r := arithmetic(t); r != nil {
		return r, false, true
	}
	if c.compute != nil {
		if r := c.compute(t); r != nil {
			return r, false, c.quiet
		}
	}
	n[s]++
	if c.throwAt[s] == n[s] {
		return c.throwsWhat(), true, false
	}
	o := c.seq[s]
	if len(o) == 0 {
		return t, false, c.quiet || c.bound(s)
	}
	k := n[s]
	if k > len(o) {
		k = len(o)
	}
	return parseTree(o[k-1]), false, c.quiet
}

// bound tells if s is part of an iterator: those may be evaluated at any time
// before the first round.
func (c *opCase) bound(s string) bool {
	t := parseTree(c.text)
	if c.fn != "Do" && c.fn != "Table" || t.parts == nil {
		return false
	}
	found := false
	var walk func(p *tree)
	walk = func(p *tree) {
		found = found || p.String() == s
		for _, q := range p.parts {
			walk(q)
		}
	}
	for i, p := range t.parts {
		if i > 1 {
			walk(p)
		}
	}
	_, err := strconv.Atoi(s)
	return found || err == nil
}

// arithmetic carries out what iterators ask for.
func arithmetic(t *tree) *tree {
	if len(t.parts) != 3 || t.parts[0].parts != nil {
		return nil
	}
	num := func(t *tree) (int, bool) {
		if r := arithmetic(t); r != nil {
			t = r
		}
		n, err := strconv.Atoi(t.leaf)
		return n, err == nil
	}
	a, ok1 := num(t.parts[1])
	b, ok2 := num(t.parts[2])
	if !ok1 || !ok2 {
		return nil
	}
	tf := func(b bool) *tree {
		if b {
			return &tree{leaf: "System`True"}
		}
		return &tree{leaf: "System`False"}
	}
	switch t.parts[0].leaf {
	case "System`Plus":
		return &tree{leaf: strconv.Itoa(a + b)}
	case "System`Subtract":
		return &tree{leaf: strconv.Itoa(a - b)}
	case "System`Times":
		return &tree{leaf: strconv.Itoa(a * b)}
	case "System`Less":
		return tf(a < b)
	case "System`LessEqual":
		return tf(a <= b)
	case "System`Greater":
		return tf(a > b)
	case "System`GreaterEqual":
		return tf(a >= b)
	case "System`Equal", "System`SameQ":
		return tf(a == b)
	}
	return nil
}

func sysLeaf(t *tree, n string) bool { return t.parts == nil && t.leaf == "System`"+n }

func headed(t *tree, n string) bool { return t.parts != nil && sysLeaf(t.parts[0], n) }

func sysTree(n string, p ...*tree) *tree {
	return &tree{parts: append([]*tree{{leaf: "System`" + n}}, p...)}
}

func returned(t *tree) (*tree, bool) {
	if !headed(t, "Return") {
		return nil, false
	}
	if len(t.parts) > 1 {
		return t.parts[1], true
	}
	return &tree{leaf: "System`Null"}, true
}

// patternMatches is the literal and blank patterns that the cases use.
func patternMatches(t, p *tree) bool {
	return p.String() == "System`Blank[]" || t.String() == p.String()
}

var nullTree = &tree{leaf: "System`Null"}

var controlRefs = map[string]func(x *opRef, t *tree, a []*tree) *tree{
	"If": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) < 2 || len(a) > 3 {
			return t
		}
		switch {
		case sysLeaf(a[0], "True"):
			return a[1]
		case sysLeaf(a[0], "False") && len(a) == 3:
			return a[2]
		case sysLeaf(a[0], "False"):
			return nullTree
		}
		return t
	},
	"While": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 {
			return t
		}
		for sysLeaf(x.eval(a[0]), "True") {
			r := x.eval(a[1])
			if v, ok := returned(r); ok {
				return v
			}
			if headed(r, "Break") {
				return nullTree
			}
		}
		return nullTree
	},
	"CompoundExpression": func(x *opRef, t *tree, a []*tree) *tree {
		v := nullTree
		for _, p := range a {
			v = x.eval(p)
			if headed(v, "Return") || headed(v, "Break") {
				return v
			}
		}
		return v
	},
	"Which": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a)%2 != 0 {
			return t
		}
		for i := 0; i < len(a); i += 2 {
			if sysLeaf(x.eval(a[i]), "True") {
				return a[i+1]
			}
		}
		return nullTree
	},
	"Switch": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) < 3 || len(a)%2 != 1 {
			return t
		}
		for i := 1; i < len(a); i += 2 {
			if patternMatches(a[0], a[i]) {
				return a[i+1]
			}
		}
		return t
	},
	"And": func(x *opRef, t *tree, a []*tree) *tree { return x.andOr("And", "True", "False", a) },
	"Or":  func(x *opRef, t *tree, a []*tree) *tree { return x.andOr("Or", "False", "True", a) },
	"Not": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) == 1 && sysLeaf(a[0], "True") {
			return &tree{leaf: "System`False"}
		}
		if len(a) == 1 && sysLeaf(a[0], "False") {
			return &tree{leaf: "System`True"}
		}
		return t
	},
	"Do": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) < 2 {
			return t
		}
		v, ok := nullTree, false
		ok = x.iterate(a[1:], func() bool {
			r := x.eval(a[0])
			if w, ok := returned(r); ok {
				v = w
				return false
			}
			return !headed(r, "Break")
		})
		if !ok {
			return t
		}
		return v
	},
	"Scan": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || a[1].parts == nil {
			return t
		}
		for _, p := range a[1].parts[1:] {
			if v, ok := returned(x.eval(&tree{parts: []*tree{a[0], p}})); ok {
				return v
			}
		}
		return nullTree
	},
	"Select": func(x *opRef, t *tree, a []*tree) *tree {
		max := -1
		if len(a) == 3 {
			n, err := strconv.Atoi(a[2].leaf)
			if err != nil || n < 0 {
				return t
			}
			max = n
		} else if len(a) != 2 {
			return t
		}
		if a[0].parts == nil {
			return t
		}
		o := &tree{parts: a[0].parts[:1:1]}
		for _, p := range a[0].parts[1:] {
			if max >= 0 && len(o.parts) > max {
				break
			}
			if sysLeaf(x.eval(&tree{parts: []*tree{a[1], p}}), "True") {
				o.parts = append(o.parts, p)
			}
		}
		return o
	},
	"Catch": func(x *opRef, t *tree, a []*tree) (v *tree) {
		if len(a) != 1 {
			return t
		}
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(opThrow); !ok {
					panic(e)
				}
				v = x.c.throwsWhat().parts[1]
			}
		}()
		return x.eval(a[0])
	},
	"Table": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) < 2 {
			return t
		}
		l := sysTree("List")
		if !x.iterate(a[1:], func() bool {
			l.parts = append(l.parts, x.eval(a[0]))
			return true
		}) {
			return t
		}
		return l
	},
	"FixedPoint": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 {
			return t
		}
		for cur := a[1]; ; {
			next := x.eval(&tree{parts: []*tree{a[0], cur}})
			if next.String() == cur.String() {
				return next
			}
			cur = next
		}
	},
	"With": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || !headed(a[0], "List") {
			return t
		}
		b := map[string]*tree{}
		for _, s := range a[0].parts[1:] {
			if !headed(s, "Set") && !headed(s, "SetDelayed") || len(s.parts) != 3 {
				return t
			}
			if n := s.parts[1].String(); b[n] == nil {
				b[n] = s.parts[2]
			}
		}
		return replaceOnce(a[1], b)
	},
}

// replaceOnce replaces the outermost occurrences of the given parts.
func replaceOnce(t *tree, b map[string]*tree) *tree {
	if v, ok := b[t.String()]; ok {
		return v
	}
	if t.parts == nil {
		return t
	}
	o := &tree{}
	for _, p := range t.parts {
		o.parts = append(o.parts, replaceOnce(p, b))
	}
	return o
}

func (x *opRef) andOr(name, unit, zero string, a []*tree) *tree {
	o := sysTree(name)
	for _, p := range a {
		v := x.eval(p)
		switch {
		case sysLeaf(v, zero):
			return &tree{leaf: "System`" + zero}
		case !sysLeaf(v, unit):
			o.parts = append(o.parts, v)
		}
	}
	switch len(o.parts) {
	case 1:
		return &tree{leaf: "System`" + unit}
	case 2:
		return o.parts[1]
	}
	return o
}

// iterate goes through the combinations of iterator values, the last iterator
// varying fastest. It returns false if the iterators are not in order.
func (x *opRef) iterate(specs []*tree, round func() bool) bool {
	var names []string
	var vals [][]*tree
	for _, s := range specs {
		if !headed(s, "List") || len(s.parts) < 3 || len(s.parts) > 5 || s.parts[1].parts != nil {
			return false
		}
		var v []*tree
		if l := s.parts[2]; headed(l, "List") {
			if len(s.parts) > 3 {
				return false
			}
			v = l.parts[1:]
		} else {
			nums := []int{}
			for _, p := range s.parts[2:] {
				q, ok := new(big.Rat).SetString(p.leaf)
				if !ok || strings.HasPrefix(p.leaf, `"`) {
					return false
				}
				// only the last value may have a fraction
				nums = append(nums, int(new(big.Int).Div(q.Num(), q.Denom()).Int64()))
			}
			min, max, step := 1, nums[0], 1
			if len(nums) > 1 {
				min, max = nums[0], nums[1]
			}
			if len(nums) > 2 {
				step = nums[2]
			}
			for i := min; i <= max; i += step {
				v = append(v, &tree{leaf: strconv.Itoa(i)})
			}
		}
		names = append(names, s.parts[1].leaf)
		vals = append(vals, v)
	}
	defer func(n []string, v map[string]*tree) { x.names, x.vars = n, v }(x.names, x.vars)
	x.names = names
	var walk func(i int) bool
	walk = func(i int) bool {
		if i == len(vals) {
			return round()
		}
		for _, v := range vals[i] {
			x.vars[names[i]] = v
			if !walk(i + 1) {
				return false
			}
		}
		return true
	}
	walk(0)
	return true
}

// ---- interpretation ----

type opRun struct {
	evalRun
	oc   *opCase
	cnt  map[string]int
	vars map[string]string
	list []string // names in the order in which they were first defined
}

func (x *opRun) opHook(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
	w := x.w
	o := calleeObj(call.Common())
	if o == nil {
		return x.hook(ai, fr, call, fn, args, st)
	}
	sig, _ := o.Type().(*types.Signature)
	if sig == nil || sig.Recv() == nil {
		if x.oc.match {
			if r, ok := x.matchHook(ai, o, sig, args, st); ok {
				return r, true
			}
		} else if sig != nil && isPatternMatch(sig) && len(args) >= 2 {
			ok := patternMatches(ai.toTree(st.mem, args[0]), ai.toTree(st.mem, args[1]))
			pd := aNilV
			if len(args) > 2 {
				pd = args[2]
			}
			return []aVal{aBool(ok), pd}, true
		}
		return x.hook(ai, fr, call, fn, args, st)
	}
	if x.oc.match && o.Name() == "Next" {
		if e, ok := args[0].single(); ok && strings.HasPrefix(e.Key, "iter:") {
			i, _ := st.mem[e.Key+".$i"].integer()
			n, _ := st.mem[e.Key+".$n"].integer()
			st.mem[e.Key+".$i"] = aInt(int64(i + 1))
			if i < n {
				// the last match may come with or before the end
				return []aVal{aBool(true), st.mem[fmt.Sprintf("%s.$%d", e.Key, i)], aBool(i == n-1 && x.n%2 == 0)}, true
			}
			return []aVal{aBool(false), st.mem[e.Key+".$pd"], aBool(true)}, true
		}
	}
	if !x.onState(sig.Recv().Type()) {
		return x.hook(ai, fr, call, fn, args, st)
	}
	switch o.Name() {
	case "Eval":
		// nothing is evaluated while a throw is pending (C13)
		if th, _, err := ai.RunMethod(args[0], "HasThrown", nil, st.mem); err == nil && len(th) == 1 {
			if p, ok := th[0].boolean(); ok && p {
				r, m, err := ai.RunMethod(args[0], "Thrown", nil, st.mem)
				if err != nil {
					return nil, false
				}
				st.mem = m
				return r, true
			}
		}
		t := ai.toTree(st.mem, args[1])
		v, throws, quiet := x.oc.outcome(t, x.cnt)
		if !quiet {
			s := "evaluates " + t.String()
			for _, n := range x.list {
				if b, ok := x.vars[n]; ok {
					s += " with " + n + " = " + b
				}
			}
			x.ev = append(x.ev, s)
		}
		x.n++
		nv := args[1]
		if v != t {
			nv = w.freshTree(st.mem, numbered(v), fmt.Sprintf("e%d_", x.n))
		}
		if throws {
			_, m, err := ai.RunMethod(args[0], "Throw", []aVal{nv}, st.mem)
			if err != nil {
				return nil, false
			}
			st.mem = m
		}
		return []aVal{nv}, true
	case "Define":
		n := ai.toTree(st.mem, args[1]).String()
		if _, ok := x.vars[n]; !ok {
			known := false
			for _, l := range x.list {
				known = known || l == n
			}
			if !known {
				x.list = append(x.list, n)
			}
		}
		x.vars[n] = ai.toTree(st.mem, args[2]).String()
		return tops(sig.Results().Len()), true
	case "SetDefined", "Clear":
		if n, ok := args[1].str(); ok {
			delete(x.vars, n)
		}
		return tops(sig.Results().Len()), true
	case "GetDefined":
		def := mkStruct(map[string]aVal{"Attributes": w.attributes(nil), "LegacyEvalFn": aNilV, "DefaultExpr": aNilV, "Downvalues": aNilV})
		return []aVal{def, aBool(false)}, true
	}
	return x.hook(ai, fr, call, fn, args, st)
}

// isPatternMatch recognizes the matcher: it takes an expression, a pattern, the
// bindings so far and the state, and tells if they match, and the bindings.
func isPatternMatch(s *types.Signature) bool {
	p, r := s.Params(), s.Results()
	return p.Len() == 4 && r.Len() == 2 && isEx(p.At(0).Type()) && isEx(p.At(1).Type()) &&
		types.Identical(p.At(2).Type(), r.At(1).Type()) && r.At(0).Type().String() == "bool"
}

func isEx(t types.Type) bool { return isNamed(t, pkgAPI, "Ex") }

func (c *opCase) run(w *World, ref func(x *opRef, t *tree, a []*tree) *tree) string {
	show := func(s string) string { return ctxRE.ReplaceAllString(s, "") }
	b := w.builtins()[c.fn]
	if b == nil || b.EvalValue() == nil {
		return c.fn + " has no builtin function"
	}
	x := &opRun{oc: c, cnt: map[string]int{}, vars: map[string]string{}}
	x.w, x.ai, x.c = w, NewAI(w), &evalCase{attrs: c.attrs}
	x.ai.Hook = x.opHook
	x.ai.LoopBound = 40
	x.ai.MaxSteps = 200000
	x.ai.mapKeys = map[string]aElem{}
	mem := x.ai.initGlobals(pkgCore)
	for k, v := range x.ai.initGlobals(pkgAtoms) {
		mem[k] = v
	}
	es := w.evalState(mem)
	t := parseTree(c.text)
	v := w.freshTree(mem, t, "in")
	fv, mem, err := w.constValue(x.ai, b.EvalValue(), mem)
	if err != nil {
		return err.Error()
	}
	res, out := x.ai.runFunc(fv, []aVal{v, es}, mem)
	if len(res) != 1 || x.ai.giveUps() != "" {
		return "not determined: " + x.ai.giveUps()
	}
	want := &opRef{c: c, n: map[string]int{}, vars: map[string]*tree{}}
	var wt *tree
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(opThrow); !ok {
					panic(e)
				}
			}
		}()
		rt := atomic(t)
		wt = ref(want, rt, rt.parts[1:])
	}()
	if g, e := strings.Join(x.ev, ", then "), strings.Join(want.ev, ", then "); g != e {
		return show(fmt.Sprintf("%s; instead it should be: %s", orNothing(g), orNothing(e)))
	}
	th, _, err := x.ai.RunMethod(es, "HasThrown", nil, out)
	if err != nil || len(th) != 1 {
		return "the state afterwards is not determined"
	}
	if tb, ok := th[0].boolean(); !ok || tb != (wt == nil) {
		return fmt.Sprintf("leaves a pending throw: %v instead of %v", th[0], wt == nil)
	}
	if wt != nil {
		if got := x.ai.toTree(out, res[0]); got.String() != wt.String() {
			return show(fmt.Sprintf("gives %s instead of %s", got, wt))
		}
	}
	if after := x.ai.toTree(out, v).String(); after != t.String() {
		return show("changes its argument to " + after)
	}
	return ""
}

// atomic writes complex numbers as leaves.
func atomic(t *tree) *tree {
	if t.parts == nil {
		return t
	}
	if t.parts[0].leaf == "(Complex)" {
		return &tree{leaf: t.String()}
	}
	o := &tree{}
	for _, p := range t.parts {
		o.parts = append(o.parts, atomic(p))
	}
	return o
}

func orNothing(s string) string {
	if s == "" {
		return "evaluates nothing"
	}
	return s
}

func (c *opCase) name() string {
	var l []string
	for _, k := range sortedKeys(c.seq) {
		l = append(l, k+" evaluates to "+strings.Join(c.seq[k], ", then "))
	}
	for _, k := range sortedKeys(c.throwAt) {
		l = append(l, fmt.Sprintf("evaluation %d of %s throws", c.throwAt[k], k))
	}
	if c.thrown != "" {
		l = append(l, "what is thrown is "+c.thrown)
	}
	if c.says != "" {
		l = append(l, c.says)
	}
	s := c.text
	if len(l) > 0 {
		s += " where " + strings.Join(l, ", ")
	}
	return ctxRE.ReplaceAllString(s, "")
}

// runOps compares each case with its reference.
func (w *World) runOps(rule string, cases []*opCase, refs map[string]func(x *opRef, t *tree, a []*tree) *tree, r *Report) {
	if f := os.Getenv("OPFN"); f != "" {
		var k []*opCase
		for _, c := range cases {
			if c.fn == f || c.name() == f {
				k = append(k, c)
			}
		}
		cases = k
	}
	res := make([]string, len(cases))
	var wg sync.WaitGroup
	ch := make(chan int)
	w.builtins()
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				res[i] = cases[i].run(w, refs[cases[i].fn])
			}
		}()
	}
	for i := range cases {
		ch <- i
	}
	close(ch)
	wg.Wait()
	for i, c := range cases {
		at := ""
		if b := w.builtins()[c.fn]; b != nil {
			at = w.At(b.At)
		}
		r.check(rule, c.name(), at, res[i] == "", res[i])
	}
	r.count("abstract calls", len(cases))
}

func checkControl(w *World, r *Report) {
	var cases []*opCase
	g := shortNames
	add := func(fn, text string, seq map[string][]string, throwAt map[string]int) *opCase {
		c := &opCase{fn: fn, text: g(text), seq: map[string][]string{}, throwAt: map[string]int{}}
		for k, v := range seq {
			for _, o := range v {
				c.seq[g(k)] = append(c.seq[g(k)], g(o))
			}
		}
		for k, v := range throwAt {
			c.throwAt[g(k)] = v
		}
		cases = append(cases, c)
		return c
	}
	type S = map[string][]string
	type T = map[string]int
	for _, c := range []string{"True", "False", "a", "5", "0", "1", "2.5", "1/2", "\"s\"", "\"True\"", "f[a]", "True[]", "List[]", "List[True]", "Null", "Equal[a, True]"} {
		for _, f := range []string{"If[%s, p]", "If[%s, p, q]", "If[%s]", "If[%s, p, q, r]", "Not[%s]", "Not[%s, p]"} {
			add(strings.SplitN(f, "[", 2)[0], fmt.Sprintf(f, c), nil, nil)
		}
		add("CompoundExpression", "CompoundExpression[p, q]", S{"p": {c}}, nil)
		add("CompoundExpression", "CompoundExpression[p, q]", S{"q": {c}}, nil)
		add("Which", "Which[c, p, d, q]", S{"c": {c}}, nil)
		add("Which", "Which[c, p, d, q]", S{"c": {c}, "d": {"True"}}, nil)
		add("Which", "Which[c, p, d, q, e, r]", S{"c": {"False"}, "d": {c}, "e": {"True"}}, nil)
		add("While", "While[c, p]", S{"c": {c, "False"}}, nil)
		add("While", "While[c, p]", S{"c": {"True", c, "False"}}, nil)
		add("While", "While[c, p]", S{"c": {"True", "True", "False"}, "p": {c}}, nil)
		for _, e := range []string{"False", "True", "b"} {
			for _, f := range []string{"And", "Or"} {
				add(f, f+"[p, q, r, s, t]", S{"p": {e}, "s": {c}}, nil)
				add(f, f+"[p, q, r, s, t]", S{"t": {c}, "r": {e}}, nil)
				add(f, f+"[p, q, r]", S{"p": {c}, "q": {e}}, nil)
				add(f, f+"[p, q, r]", S{"p": {e}, "q": {c}, "r": {"True"}}, nil)
				add(f, f+"[p, q, r]", S{"p": {e}, "q": {"True"}, "r": {c}}, nil)
				add(f, f+"[p, q]", S{"p": {e}, "q": {c}}, nil)
				add(f, f+"[p]", S{"p": {c}}, nil)
			}
		}
		add("Scan", "Scan[f, List[a, b, c]]", S{"f[b]": {c}}, nil)
		add("Select", "Select[List[a, b, c], f]", S{"f[a]": {c}, "f[b]": {"False"}, "f[c]": {"True"}}, nil)
		add("Select", "Select[g[a, b, c], f, 1]", S{"f[a]": {c}, "f[b]": {"True"}, "f[c]": {"True"}}, nil)
		add("Select", "Select["+c+", f]", nil, nil)
		add("Select", "Select[List[a, b], f, "+c+"]", S{"f[a]": {"True"}, "f[b]": {"True"}}, nil)
		add("Scan", "Scan[f, "+c+"]", nil, nil)
		add("Catch", "Catch[p]", S{"p": {c}}, nil)
		add("FixedPoint", "FixedPoint[f, "+c+"]", S{"f[" + c + "]": {"b"}, "f[b]": {"d"}, "f[d]": {"d"}}, nil)
		for _, p := range []string{"Blank[]", "a", c, "5", "f[b]"} {
			for _, q := range []string{"Blank[]", c, "h"} {
				add("Switch", fmt.Sprintf("Switch[%s, %s, u, %s, v]", c, p, q), nil, nil)
			}
		}
		add("Do", "Do[p, List[i, 2]]", S{"p": {c}}, nil)
		add("Table", "Table[p, List[i, 2]]", S{"p": {c, "d"}}, nil)
		add("Do", "Do[p, "+c+"]", nil, nil)
		add("Table", "Table[p, List[i, "+c+"]]", nil, nil)
	}
	for _, s := range []string{"Break[]", "Return[]", "Return[v]", "Return[v, w]", "Break", "Return", "Continue[]", "f[Break[]]", "f[Return[v]]"} {
		add("CompoundExpression", "CompoundExpression[p, q, r]", S{"p": {s}}, nil)
		add("CompoundExpression", "CompoundExpression[p, q, r]", S{"q": {s}}, nil)
		add("CompoundExpression", "CompoundExpression[p, q, r]", S{"r": {s}}, nil)
		add("While", "While[c, p]", S{"c": {"True", "True", "True", "False"}, "p": {s}}, nil)
		add("While", "While[c, p]", S{"c": {"True", "True", "True", "False"}, "p": {"a", s, "b"}}, nil)
		add("Scan", "Scan[f, List[a, b, c]]", S{"f[a]": {s}}, nil)
		add("Scan", "Scan[f, g[a, b, c]]", S{"f[b]": {s}}, nil)
		for _, it := range []string{"List[i, 3]", "List[i, 2, 3]", "List[i, 1, 5, 2]", "List[i, List[a, b, c]]", "List[i, 2], List[j, List[a, b]]", "List[i, List[]]", "List[i, 0]", "List[i, 2], List[j, 0]", "List[i, 0], List[j, 2]", "List[i, 3, 1]"} {
			for k := 0; k < 3; k++ {
				o := []string{"a", "b", "c", "d"}
				o[k] = s
				add("Do", "Do[p, "+it+"]", S{"p": o}, nil)
				if k == 0 {
					add("Table", "Table[p, "+it+"]", S{"p": o}, nil)
				}
			}
		}
	}
	for k := 1; k <= 3; k++ {
		for _, p := range []string{"c", "p"} {
			add("While", "While[c, p]", S{"c": {"True", "True", "True", "False"}}, T{p: k})
		}
		for _, it := range []string{"List[i, 3]", "List[i, 2, 3]", "List[i, List[a, b, c]]", "List[i, 2], List[j, List[a, b]]"} {
			add("Do", "Do[p, "+it+"]", nil, T{"p": k})
			add("Table", "Table[p, "+it+"]", nil, T{"p": k})
		}
		p := string("pqr"[k-1])
		add("CompoundExpression", "CompoundExpression[p, q, r]", nil, T{p: 1})
		add("Which", "Which[p, a, q, b, r, c]", S{"q": {"False"}}, T{p: 1})
		for _, f := range []string{"And", "Or"} {
			for _, o := range []string{"True", "False", "a"} {
				add(f, f+"[p, q, r]", S{"p": {o}, "q": {o}}, T{p: 1})
			}
		}
		e := "f[" + p + "]"
		add("Scan", "Scan[f, List[p, q, r]]", nil, T{e: 1})
		add("Select", "Select[List[p, q, r], f]", S{"f[p]": {"True"}}, T{e: 1})
		add("Select", "Select[List[p, q, r], f, 1]", S{"f[p]": {"True"}}, T{e: 1})
		add("Select", "Select[List[p, q, r], f, 0]", S{"f[p]": {"True"}}, T{e: 1})
		add("Select", "Select[List[p, q, r], f, 2]", S{"f[q]": {"True"}, "f[r]": {"True"}}, T{e: 1})
	}
	add("Catch", "Catch[p]", nil, T{"p": 1})
	for _, v := range []string{"x", "\"s\"", "2.5", "1/2", "g[5]", "List[g[5], x]", "Throw[x]", "Null", "Catch[x]"} {
		add("Catch", "Catch[p]", nil, T{"p": 1}).thrown = shortNames("Throw[" + v + "]")
	}
	add("Catch", "Catch[p, q]", nil, nil)
	add("Catch", "Catch[]", nil, nil)
	for _, f := range []string{"CompoundExpression", "And", "Or", "Which", "While", "Switch", "Scan", "Select", "Do", "Table", "If", "Not", "With", "FixedPoint"} {
		for _, a := range []string{"", "p", "p, q, r, s, t"} {
			if a != "" || f != "If" {
				add(f, f+"["+a+"]", nil, nil)
			}
		}
	}
	add("While", "While[c, p, q]", nil, nil)
	add("FixedPoint", "FixedPoint[f, a]", S{"f[a]": {"b"}, "f[b]": {"c"}, "f[c]": {"c"}}, nil)
	add("FixedPoint", "FixedPoint[f, a]", S{"f[a]": {"a"}}, nil)
	for _, v := range []string{"List[]", "List[Set[x, 5]]", "List[Set[x, y], Set[y, x]]", "List[Set[x, y], SetDelayed[y, f[x]]]", "List[SetDelayed[x, f[x]]]", "List[Set[x, 1], Set[x, 2]]", "List[x]", "List[Set[x, 1], y]", "List[Set[x]]", "x", "f[Set[x, 1]]"} {
		for _, b := range []string{"x", "y", "f[x, y]", "x[x]", "f[g[x], x, List[y, x]]", "5", "Hold[x, f]", "g[]"} {
			add("With", "With["+v+", "+b+"]", nil, nil)
		}
		add("With", "With["+v+"]", nil, nil)
		add("With", "With["+v+", x, y]", nil, nil)
	}
	w.runOps("control", cases, controlRefs, r)
	r.atLeast("abstract calls", 600)
}

func sortedKeys[V any](m map[string]V) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
