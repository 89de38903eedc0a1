package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C41", Title: "Pure functions bind exactly their parameters", Run: checkFunctions,
		Explain: "EvalState.Eval is interpreted abstractly on applications of pure functions (slots, one parameter, lists of parameters; bodies that use them in every position and inside further functions; fewer, as many and more arguments; arguments that look like parameters). The result is compared with the simultaneous substitution of the arguments.",
		Assume:  []string{"The recursive evaluation of a part meets its own description (C20); structural comparison and hashing tell expressions apart (C03, C04)."}})
}

// applyFunction is the value of a pure function for arguments, or false if it
// stays as it is.
func applyFunction(f *tree, args []*tree) (*tree, bool) {
	var slots []*tree
	bound := map[string]*tree{}
	switch len(f.parts) {
	case 2:
		slots = args
	case 3:
		ps, ok := paramNames(f.parts[1])
		if !ok || len(ps) > len(args) {
			return nil, false
		}
		for i, p := range ps {
			bound[p] = args[i]
		}
	default:
		return nil, false
	}
	return bindTree(f.parts[len(f.parts)-1], bound, slots), true
}

func paramNames(t *tree) ([]string, bool) {
	l := []*tree{t}
	if t.parts != nil && t.parts[0].leaf == "System`List" {
		l = t.parts[1:]
	}
	var o []string
	for _, x := range l {
		if x.parts != nil || !isSymLeaf(x.leaf) {
			return nil, false
		}
		o = append(o, x.leaf)
	}
	return o, true
}

func isSymLeaf(s string) bool { return strings.Contains(s, "`") && !strings.HasPrefix(s, "\"") }

func bindTree(t *tree, bound map[string]*tree, slots []*tree) *tree {
	if t.parts == nil {
		if v, ok := bound[t.leaf]; ok {
			return v
		}
		return t
	}
	if len(t.parts) == 2 && t.parts[0].leaf == "System`Slot" {
		for i, s := range slots {
			if t.parts[1].leaf == fmt.Sprint(i+1) {
				return s
			}
		}
	}
	if t.parts[0].leaf == "System`Function" {
		if len(t.parts) == 2 {
			slots = nil
		} else if len(t.parts) > 2 {
			inner := map[string]*tree{}
			own, _ := paramNames(t.parts[1])
			for k, v := range bound {
				inner[k] = v
			}
			for _, o := range own {
				delete(inner, o)
			}
			bound = inner
		}
	}
	r := &tree{}
	for _, p := range t.parts {
		r.parts = append(r.parts, bindTree(p, bound, slots))
	}
	return r
}

func (t *tree) containsAny(leafs ...string) bool {
	for _, l := range leafs {
		if t.leaf == l {
			return true
		}
	}
	for _, p := range t.parts {
		if p.containsAny(leafs...) {
			return true
		}
	}
	return false
}

func checkFunctions(w *World, r *Report) {
	var cases []*evalCase
	g := shortNames
	attrs := map[string][]string{g("Function"): {"HoldAll"}, g("f"): nil}
	add := func(fn, args string, outcome map[string]string) {
		cases = append(cases, &evalCase{text: g(fn + "[" + args + "]"), attrs: attrs, outcome: outcome})
	}
	bodies := []string{"x", "y", "c", "f[x]", "f[x, y]", "f[y, x]", "f[x, x]", "f[x, f[y, f[x]]]", "x[y]", "f[x][y]", "y[x][c]", "5", "\"x\"", "f[]", "List[x, List[y, 2], x]",
		"Function[x, f[x, y]]", "Function[y, f[x, y]]", "Function[{x, c}, f[x, y, c]]", "Function[{c}, f[x, y, c]]", "Function[f[x, y, Slot[1]]]", "f[Function[x, x], x]", "f[x, Function[y, x][y]]", "f[Slot[1], x]",
		"Function[x, Function[y, f[x, y]]]", "Function[c, Function[f[x, c]]]", "Function[c, f[x, y, c], d]"}
	for i, b := range bodies {
		bodies[i] = strings.NewReplacer("{", "List[", "}", "]").Replace(b)
	}
	args := []string{"", "a", "a, b", "a, b, d", "y, x", "f[y], f[x]", "List[a, b], 3", "c, c", "Slot[2], Slot[1]", "\"y\", x"}
	skip := func(body, args string) bool {
		b, a := parseTree(g(body)), parseTree(g("f["+args+"]"))
		return b.containsAny("System`Function") && a.containsAny(g("x"), g("y"), g("c"), "System`Slot")
	}
	for _, ps := range []string{"x", "y", "List[x]", "List[x, y]", "List[y, x]", "List[x, y, c]", "List[]"} {
		for _, b := range bodies {
			for _, a := range args {
				if !skip(b, a) {
					add("Function["+ps+", "+b+"]", a, nil)
				}
			}
		}
	}
	for _, b := range bodies {
		s := strings.NewReplacer("x", "Slot[1]", "y", "Slot[2]").Replace(b)
		if strings.Contains(b, "Function[x") || strings.Contains(b, "Function[y") || strings.Contains(b, "Function[List[x") || strings.Contains(b, "\"") {
			continue
		}
		for _, a := range args {
			if !skip(b, a) {
				add("Function["+s+"]", a, nil)
			}
		}
	}
	for _, s := range []string{"Function[f[Slot[1], Function[Slot[1]]]]", "Function[Function[Slot[2]], Slot[1]]", "Function[f[Slot[3], Slot[1], Slot[x]]]", "Function[f[Slot[0], Slot[12]]]", "Function[f[Function[x, f[x, Slot[1]]], Slot[2]]]", "Function[Slot[1][Slot[2]]]", "Function[f[Slot[1, 2], Slot[]]]"} {
		for _, a := range []string{"", "a", "a, b", "a, b, d"} {
			add(s, a, nil)
		}
	}
	many := "a1"
	for i := 2; i <= 12; i++ {
		many += fmt.Sprint(", a", i)
	}
	add("Function[f[Slot[12], Slot[1], Slot[10]]]", many, nil)
	// functions of another form stay as they are
	for _, s := range []string{"Function[x, f[x], Listable]", "Function[]", "Function[5, f[x]]", "Function[List[x, 5], f[x]]", "Function[f[x], f[x]]", "Function[List[f[x]], x]"} {
		for _, a := range []string{"a", "a, b"} {
			add(s, a, nil)
		}
	}
	// arguments are evaluated first, the body with them afterwards
	m := func(kv ...string) map[string]string {
		o := map[string]string{}
		for i := 0; i+1 < len(kv); i += 2 {
			o[g(kv[i])] = g(kv[i+1])
		}
		return o
	}
	for _, s := range []string{"Function[x, f[x, x]]", "Function[List[x, y], f[y, x]]", "Function[f[Slot[1], Slot[2]]]", "Function[x, x]", "Function[Slot[1]]"} {
		for _, a := range []string{"p, r", "r, p", "Sequence[p, r]", "f[p], r"} {
			add(s, a, m("p", "q", "r", "Sequence[q, c]", "q", "s", "f[p]", "f[d]"))
			add(s, a, m("p", "Sequence[]"))
		}
	}
	w.runEvalCases(cases, r)
	r.atLeast("abstract evaluations", 500)
}
