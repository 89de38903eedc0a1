package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Check{ID: "C45", Title: "Predicates, dimensions, permutations and partitions are right", Run: checkStruct,
		Explain: "The Go function of each type and shape predicate (TrueQ, BooleanQ, AtomQ, NumberQ, VectorQ, MatrixQ), of Dimensions, Permutations, IntegerPartitions and Distribute is interpreted abstractly on expressions of every kind and shape: every kind of number, strings, symbols, empty and ragged arrays to depth four, arrays of other heads, repeated elements. The result is compared with the function's definition, and the arguments must come out as they went in.",
		Assume:  []string{"Structural comparison and hashing tell expressions apart (C03, C04)."}})
}

func (t *tree) list() bool {
	return t.parts != nil && t.parts[0].String() == shortNames("List")
}

// dims is the longest list of sizes that describes a full array of one head.
func (t *tree) dims() []int64 {
	d := []int64{int64(len(t.args()))}
	var sub []int64
	for i, p := range t.args() {
		if p.parts == nil || p.parts[0].String() != t.parts[0].String() {
			return d
		}
		pd := p.dims()
		if i == 0 {
			sub = pd
			continue
		}
		n := 0
		for n < len(sub) && n < len(pd) && sub[n] == pd[n] {
			n++
		}
		sub = sub[:n]
	}
	return append(d, sub...)
}

func (t *tree) vector() bool {
	if !t.list() {
		return false
	}
	for _, p := range t.args() {
		if p.list() {
			return false
		}
	}
	return true
}

func listTree(ts ...*tree) *tree {
	return &tree{parts: append([]*tree{{leaf: shortNames("List")}}, ts...)}
}

func permutations(ts []*tree) [][]*tree {
	if len(ts) == 0 {
		return [][]*tree{{}}
	}
	var out [][]*tree
	seen := map[string]bool{}
	for i, t := range ts {
		if seen[t.String()] {
			continue
		}
		seen[t.String()] = true
		rest := append(append([]*tree{}, ts[:i]...), ts[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]*tree{t}, p...))
		}
	}
	return out
}

func partitions(n, k, max int64) [][]*tree {
	if n == 0 {
		return [][]*tree{{}}
	}
	if k <= 0 {
		return nil
	}
	var out [][]*tree
	for i := max; i > 0; i-- {
		if i > n {
			continue
		}
		for _, p := range partitions(n-i, k-1, i) {
			out = append(out, append([]*tree{intTree(i)}, p...))
		}
	}
	return out
}

func predicate(f func(*tree) bool) func(x *opRef, t *tree, a []*tree) *tree {
	return func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 {
			return t
		}
		return truth(f(a[0]))
	}
}

var structRefs = map[string]func(x *opRef, t *tree, a []*tree) *tree{
	"TrueQ": predicate(func(t *tree) bool { return t.String() == shortNames("True") }),
	"BooleanQ": predicate(func(t *tree) bool {
		return t.String() == shortNames("True") || t.String() == shortNames("False")
	}),
	"AtomQ": predicate(func(t *tree) bool { return t.parts == nil }),
	"NumberQ": predicate(func(t *tree) bool {
		return t.parts == nil && (strings.HasPrefix(t.leaf, "(") || strings.ContainsAny(t.leaf[:1], "-0123456789"))
	}),
	"VectorQ": predicate((*tree).vector),
	"MatrixQ": predicate(func(t *tree) bool {
		if !t.list() || len(t.dims()) != 2 {
			return false
		}
		for _, p := range t.args() {
			if !p.vector() {
				return false
			}
		}
		return true
	}),
	"Dimensions": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 {
			return t
		}
		l := listTree()
		if a[0].parts != nil {
			for _, d := range a[0].dims() {
				l.parts = append(l.parts, intTree(d))
			}
		}
		return l
	},
	"Permutations": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 || a[0].parts == nil {
			return t
		}
		l := listTree()
		for _, p := range permutations(a[0].args()) {
			l.parts = append(l.parts, listTree(p...))
		}
		return l
	},
	"IntegerPartitions": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 && len(a) != 2 {
			return t
		}
		n, ok := treeInt(a[0])
		k := n
		if ok && len(a) == 2 {
			k, ok = treeInt(a[1])
		}
		if !ok {
			return t
		}
		l := listTree()
		if n >= 0 {
			for _, p := range partitions(n, k, n) {
				l.parts = append(l.parts, listTree(p...))
			}
		}
		return l
	},
	"Distribute": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 {
			return t
		}
		if a[0].parts == nil {
			return a[0]
		}
		res := [][]*tree{{a[0].parts[0]}}
		for _, p := range a[0].args() {
			alts := []*tree{p}
			if p.parts != nil && p.parts[0].String() == a[1].String() {
				alts = p.args()
			}
			var next [][]*tree
			for _, r := range res {
				for _, alt := range alts {
					next = append(next, append(append([]*tree{}, r...), alt))
				}
			}
			res = next
		}
		o := &tree{parts: []*tree{a[1]}}
		for _, r := range res {
			o.parts = append(o.parts, &tree{parts: r})
		}
		return o
	},
}

func checkStruct(w *World, r *Report) {
	var cases []*opCase
	add := func(text string, a ...any) {
		text = shortNames(fmt.Sprintf(text, a...))
		fn := ctxRE.ReplaceAllString(text[:strings.Index(text, "[")], "")
		cases = append(cases, &opCase{fn: fn, text: text, quiet: true, seq: map[string][]string{}, throwAt: map[string]int{}})
	}
	shapes := []string{"True", "False", "x", "List", "5", "-3", "1/2", "2.5", "(Complex)[1, 2]", "\"s\"", "\"True\"", "True[]", "Rational[1, 2]", "List[]", "f[]", "f[x]", "List[5]", "List[a, b, c]", "List[a, a, b]", "List[a, b, a, b]", "f[a, b, c]", "h[a][b, c]", "h[a][h[a][b], h[a][c]]",
		"List[List[]]", "List[List[], List[]]", "List[List[a]]", "List[List[a, b], List[c, d]]", "List[List[a, b], List[c]]", "List[List[c], List[a, b]]", "List[List[a, b], c]", "List[c, List[a, b]]", "List[f[a, b], f[c, d]]", "f[f[a, b], f[c, d]]", "f[f[a, b], List[c, d]]", "List[List[a, f[b]], List[c, d]]",
		"List[List[List[a], List[b]], List[c, d]]", "List[List[c, d], List[List[a], List[b]]]", "List[List[List[a], List[b]], List[c, d, e]]", "List[List[c, d, e], List[List[a], List[b]]]", "List[List[List[a, b], List[c, d]], List[List[a, b, c], List[d, e, f]]]",
		"List[List[List[a, b], List[c, d]], List[List[a, b], List[c, d]]]", "List[List[List[List[a]]], List[List[List[b]]]]", "List[List[List[List[a]]], List[List[List[b, c]]]]", "List[List[List[List[a]]], List[List[b]], List[List[c]]]", "List[List[List[]], List[List[]]]",
		"List[a, List[b], List[c]]", "List[List[a], List[b], c]", "List[List[a, b], List[c, List[d]]]", "List[List[List[a], b], List[List[c], d]]"}
	for _, s := range shapes {
		for _, f := range []string{"TrueQ", "BooleanQ", "AtomQ", "NumberQ", "VectorQ", "MatrixQ", "Dimensions", "Permutations"} {
			add(f+"[%s]", s)
		}
		for _, h := range []string{"f", "List", "h[a]", "g"} {
			add("Distribute[%s, %s]", s, h)
		}
	}
	for _, s := range []string{"f[Plus[a, b], c]", "f[c, Plus[a, b]]", "f[Plus[a, b], Plus[c, d, e]]", "f[Plus[a, b], g[Plus[c, d]], Plus[e]]", "Plus[Plus[a, b], Plus[c, d]]", "f[Plus[], a]", "f[Plus]", "Plus[a, b][Plus[c, d]]", "f[Plus[Plus[a, b], c], d]"} {
		add("Distribute[%s, Plus]", s)
	}
	for _, f := range []string{"TrueQ", "BooleanQ", "AtomQ", "NumberQ", "VectorQ", "MatrixQ", "Dimensions", "Permutations", "Distribute"} {
		add(f + "[]")
		if f != "Distribute" {
			add(f + "[a, b]")
		} else {
			add(f + "[f[a]]")
			add(f + "[f[a, b], f, g]")
		}
	}
	for _, n := range []string{"-2", "0", "1", "2", "3", "4", "5", "6", "x", "2.5", "1/2", "9223372036854775808"} {
		add("IntegerPartitions[%s]", n)
		for _, k := range []string{"-1", "0", "1", "2", "3", "4", "7", "x", "List[2]", "9223372036854775808"} {
			add("IntegerPartitions[%s, %s]", n, k)
		}
	}
	w.runOps("structure", cases, structRefs, r)
	r.atLeast("abstract calls", 600)
}
