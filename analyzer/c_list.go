package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C43", Title: "List and structure functions give what they are defined to", Run: checkLists,
		Explain: "The Go function of each operation on lists and expressions (mapping, applying and counting at levels, folding and nesting, parts and spans, joining, reversing, padding, flattening, threading, selecting by pattern, set operations, measures) is interpreted abstractly on expressions of every shape: empty, with equal parts, nested to depth four, with compound heads, atoms, other heads than List; with every level specification and index, in and out of range. The result is compared with the operation's definition, and the arguments must come out as they went in.",
		Assume:  []string{"Pattern matching as such is the subject of C09 and C10; the canonical order of C07; structural comparison and hashing tell expressions apart (C03, C04)."}})
}

func treeInt(t *tree) (int64, bool) {
	if t.parts != nil {
		return 0, false
	}
	n, ok := new(big.Int).SetString(t.leaf, 10)
	if !ok || !n.IsInt64() {
		return 0, false
	}
	return n.Int64(), true
}

func intTree(n int64) *tree { return &tree{leaf: strconv.FormatInt(n, 10)} }

func (t *tree) args() []*tree {
	if t.parts == nil {
		return nil
	}
	return t.parts[1:]
}

func (t *tree) depth() int64 {
	d := int64(1)
	if t.parts == nil {
		return d
	}
	for _, p := range t.args() {
		if k := p.depth(); k > d {
			d = k
		}
	}
	return d + 1
}

func (t *tree) leaves() int64 {
	if t.parts == nil {
		return 1
	}
	n := int64(0)
	for _, p := range t.parts {
		n += p.leaves()
	}
	return n
}

// levels parses a level specification.
func levels(t *tree) (in func(level, depth int64) bool, ok bool) {
	const inf = 1 << 40
	num := func(t *tree) (int64, bool) {
		if sysLeaf(t, "Infinity") {
			return inf, true
		}
		if t.String() == "System`Times[-1, System`Infinity]" {
			return -inf, true
		}
		return treeInt(t)
	}
	mk := func(a, b int64) (func(l, d int64) bool, bool) {
		return func(l, d int64) bool {
			okay := l >= a
			if a < 0 {
				okay = d <= -a
			}
			if b < 0 {
				return okay && d >= -b
			}
			return okay && l <= b
		}, true
	}
	if n, ok := num(t); ok {
		return mk(1, n)
	}
	if !headed(t, "List") || len(t.parts) < 2 || len(t.parts) > 3 {
		return nil, false
	}
	a, ok1 := num(t.parts[1])
	b, ok2 := num(t.parts[len(t.parts)-1])
	if !ok1 || !ok2 {
		return nil, false
	}
	return mk(a, b)
}

// atLevels applies f to the parts at these levels, the innermost first.
func atLevels(t *tree, pos []int64, in func(l, d int64) bool, f func(t *tree, pos []int64) *tree) *tree {
	d := t.depth()
	o := t
	if t.parts != nil {
		o = &tree{parts: []*tree{t.parts[0]}}
		for i, p := range t.args() {
			o.parts = append(o.parts, atLevels(p, append(pos[:len(pos):len(pos)], int64(i+1)), in, f))
		}
	}
	if in(int64(len(pos)), d) {
		return f(o, pos)
	}
	return o
}

func leveled(f func(g, t *tree, pos []int64) *tree) func(x *opRef, t *tree, a []*tree) *tree {
	return func(x *opRef, t *tree, a []*tree) *tree {
		spec := &tree{leaf: "1"}
		switch len(a) {
		case 2:
		case 3:
			spec = a[2]
		default:
			return t
		}
		in, ok := levels(spec)
		if !ok {
			return t
		}
		return atLevels(a[1], nil, in, func(p *tree, pos []int64) *tree { return f(a[0], p, pos) })
	}
}

func node(p ...*tree) *tree { return &tree{parts: p} }

func treeParts(p []*tree, more ...*tree) *tree {
	return &tree{parts: append(append([]*tree{}, p...), more...)}
}

func partOf(t *tree, idx []*tree) (*tree, bool) {
	if len(idx) == 0 {
		return t, true
	}
	if t.parts == nil {
		return nil, false
	}
	n := int64(len(t.parts)) - 1
	rng := func(lo, hi int64) (*tree, bool) {
		o := node(t.parts[0])
		for k := lo; k <= hi; k++ {
			p, ok := partOf(t.parts[k], idx[1:])
			if !ok {
				return nil, false
			}
			o.parts = append(o.parts, p)
		}
		return o, true
	}
	i := idx[0]
	if k, ok := treeInt(i); ok {
		if k < 0 || k > n {
			return nil, false
		}
		return partOf(t.parts[k], idx[1:])
	}
	if sysLeaf(i, "All") {
		return rng(1, n)
	}
	if headed(i, "Span") && len(i.parts) == 3 {
		lo, ok := treeInt(i.parts[1])
		hi, ok2 := treeInt(i.parts[2])
		if sysLeaf(i.parts[2], "All") {
			hi, ok2 = n, true
		}
		if !ok || !ok2 || lo < 0 || lo > n+1 || hi < 0 || hi > n {
			return nil, false
		}
		return rng(lo, hi)
	}
	return nil, false
}

func padded(left bool) func(x *opRef, t *tree, a []*tree) *tree {
	return func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) < 2 || len(a) > 3 || a[0].parts == nil {
			return t
		}
		n, ok := treeInt(a[1])
		if !ok {
			return t
		}
		pad := intTree(0)
		if len(a) == 3 {
			pad = a[2]
		}
		have := a[0].args()
		o := node(a[0].parts[0])
		for i := int64(0); i < n; i++ {
			k := i
			if left {
				k = int64(len(have)) - n + i
			}
			if k >= 0 && k < int64(len(have)) {
				o.parts = append(o.parts, have[k])
			} else {
				o.parts = append(o.parts, pad)
			}
		}
		return o
	}
}

// setOp combines the parts of expressions with one common head.
func setOp(keep func(lists []map[string]bool, s string) bool) func(x *opRef, t *tree, a []*tree) *tree {
	return func(x *opRef, t *tree, a []*tree) *tree {
		var sets []map[string]bool
		all := map[string]*tree{}
		for _, p := range a {
			if p.parts == nil || p.parts[0].String() != a[0].parts[0].String() {
				return t
			}
			m := map[string]bool{}
			for _, q := range p.args() {
				m[q.String()] = true
				all[q.String()] = q
			}
			sets = append(sets, m)
		}
		o := node(a[0].parts[0])
		for _, k := range sortedKeys(all) {
			if keep(sets, k) {
				o.parts = append(o.parts, all[k])
			}
		}
		return o
	}
}

func truth(b bool) *tree {
	if b {
		return &tree{leaf: "System`True"}
	}
	return &tree{leaf: "System`False"}
}

var listRefs = map[string]func(x *opRef, t *tree, a []*tree) *tree{
	"Map": leveled(func(g, t *tree, pos []int64) *tree { return node(g, t) }),
	"MapIndexed": leveled(func(g, t *tree, pos []int64) *tree {
		l := sysTree("List")
		for _, i := range pos {
			l.parts = append(l.parts, intTree(i))
		}
		return node(g, t, l)
	}),
	"Apply": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) == 2 {
			a = []*tree{a[0], a[1], sysTree("List", intTree(0))}
		}
		return leveled(func(g, t *tree, pos []int64) *tree {
			if t.parts == nil {
				return t
			}
			return treeParts([]*tree{g}, t.args()...)
		})(x, t, a)
	},
	"Count": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 3 {
			return t
		}
		in, ok := levels(a[2])
		if !ok {
			return t
		}
		n := int64(0)
		atLevels(a[0], nil, in, func(p *tree, pos []int64) *tree {
			if patternMatches(p, a[1]) {
				n++
			}
			return p
		})
		return intTree(n)
	},
	"FoldList": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 3 || a[2].parts == nil {
			return t
		}
		o := node(a[2].parts[0], a[1])
		cur := a[1]
		for _, p := range a[2].args() {
			cur = node(a[0], cur, p)
			o.parts = append(o.parts, cur)
		}
		return o
	},
	"NestList": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 3 {
			return t
		}
		n, ok := treeInt(a[2])
		if !ok || n < 0 {
			return t
		}
		o := sysTree("List", a[1])
		cur := a[1]
		for ; n > 0; n-- {
			cur = node(a[0], cur)
			o.parts = append(o.parts, cur)
		}
		return o
	},
	"NestWhileList": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) < 3 || len(a) > 6 {
			return t
		}
		m, max, more := int64(1), int64(-1), int64(0)
		var ok bool
		if len(a) > 3 {
			if sysLeaf(a[3], "All") {
				m = -1
			} else if m, ok = treeInt(a[3]); !ok || m < 0 {
				return t
			}
		}
		if len(a) > 4 {
			if sysLeaf(a[4], "Infinity") {
				max = -1
			} else if max, ok = treeInt(a[4]); !ok || max < 0 {
				return t
			}
		}
		if len(a) > 5 {
			more, _ = treeInt(a[5])
		}
		o := sysTree("List", a[1])
		vals := []*tree{x.eval(a[1])}
		cur := a[1]
		for n := int64(1); ; n++ {
			if n >= m {
				test := node(a[2])
				k := int64(0)
				if m >= 0 {
					k = n - m
				}
				test.parts = append(test.parts, vals[k:]...)
				if !sysLeaf(x.eval(test), "True") {
					break
				}
			}
			if max >= 0 && n > max {
				break
			}
			cur = node(a[0], cur)
			o.parts = append(o.parts, cur)
			vals = append(vals, x.eval(cur))
		}
		for ; more > 0; more-- {
			cur = node(a[0], cur)
			o.parts = append(o.parts, cur)
		}
		return o
	},
	"Array": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 {
			return t
		}
		n, ok := treeInt(a[1])
		if !ok {
			return t
		}
		o := sysTree("List")
		for i := int64(1); i <= n; i++ {
			o.parts = append(o.parts, node(a[0], intTree(i)))
		}
		return o
	},
	"Length": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 {
			return t
		}
		return intTree(int64(len(a[0].args())))
	},
	"Head": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 {
			return t
		}
		if a[0].parts != nil {
			return a[0].parts[0]
		}
		k := "Symbol"
		l := a[0].leaf
		switch {
		case strings.HasPrefix(l, "("):
			k = "Complex"
		case strings.HasPrefix(l, `"`):
			k = "String"
		case strings.Contains(l, "/"):
			k = "Rational"
		case strings.ContainsAny(l[:1], "0123456789-") && strings.Contains(l, "."):
			k = "Real"
		case strings.ContainsAny(l[:1], "0123456789-"):
			k = "Integer"
		}
		return &tree{leaf: "System`" + k}
	},
	"Depth": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 {
			return t
		}
		return intTree(a[0].depth())
	},
	"LeafCount": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 {
			return t
		}
		return intTree(a[0].leaves())
	},
	"Flatten": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) < 1 || len(a) > 2 {
			return t
		}
		n := int64(1 << 40)
		if len(a) > 1 {
			var ok bool
			if n, ok = treeInt(a[1]); !ok {
				return t
			}
		}
		if a[0].parts == nil {
			return t
		}
		o := node(a[0].parts[0])
		var walk func(p []*tree, n int64)
		walk = func(p []*tree, n int64) {
			for _, q := range p {
				if n > 0 && q.parts != nil && q.parts[0].String() == o.parts[0].String() {
					walk(q.args(), n-1)
				} else {
					o.parts = append(o.parts, q)
				}
			}
		}
		walk(a[0].args(), n)
		return o
	},
	"Reverse": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 || a[0].parts == nil {
			return t
		}
		o := node(a[0].parts[0])
		for i := len(a[0].parts) - 1; i > 0; i-- {
			o.parts = append(o.parts, a[0].parts[i])
		}
		return o
	},
	"Append": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || a[0].parts == nil {
			return t
		}
		return treeParts(a[0].parts, a[1])
	},
	"Prepend": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || a[0].parts == nil {
			return t
		}
		return treeParts([]*tree{a[0].parts[0], a[1]}, a[0].args()...)
	},
	"Join": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) == 0 {
			return sysTree("List")
		}
		var o *tree
		for _, p := range a {
			if p.parts == nil || o != nil && o.parts[0].String() != p.parts[0].String() {
				return t
			}
			if o == nil {
				o = node(p.parts[0])
			}
			o.parts = append(o.parts, p.args()...)
		}
		return o
	},
	"Thread": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 {
			return t
		}
		n := -1
		for _, p := range a[0].args() {
			if headed(p, "List") {
				if n >= 0 && n != len(p.args()) {
					return a[0]
				}
				n = len(p.args())
			}
		}
		if n < 0 {
			return a[0]
		}
		o := sysTree("List")
		for i := 0; i < n; i++ {
			c := node(a[0].parts[0])
			for _, p := range a[0].args() {
				if headed(p, "List") {
					p = p.parts[i+1]
				}
				c.parts = append(c.parts, p)
			}
			o.parts = append(o.parts, c)
		}
		return o
	},
	"Part": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) == 0 {
			return t
		}
		if p, ok := partOf(a[0], a[1:]); ok {
			return p
		}
		return t
	},
	"PadLeft":  padded(true),
	"PadRight": padded(false),
	"MemberQ": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 {
			return t
		}
		for _, p := range a[0].args() {
			if patternMatches(p, a[1]) {
				return truth(true)
			}
		}
		return truth(false)
	},
	"Cases": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || a[0].parts == nil {
			return t
		}
		o := sysTree("List")
		for _, p := range a[0].args() {
			if headed(a[1], "Rule") && len(a[1].parts) == 3 {
				if patternMatches(p, a[1].parts[1]) {
					o.parts = append(o.parts, a[1].parts[2])
				}
			} else if patternMatches(p, a[1]) {
				o.parts = append(o.parts, p)
			}
		}
		return o
	},
	"DeleteCases": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || a[0].parts == nil {
			return t
		}
		o := node(a[0].parts[0])
		for _, p := range a[0].args() {
			if !patternMatches(p, a[1]) {
				o.parts = append(o.parts, p)
			}
		}
		return o
	},
	"DeleteDuplicates": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 || a[0].parts == nil {
			return t
		}
		o := node(a[0].parts[0])
		seen := map[string]bool{}
		for _, p := range a[0].args() {
			if !seen[p.String()] {
				seen[p.String()] = true
				o.parts = append(o.parts, p)
			}
		}
		return o
	},
	"Union": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) == 0 {
			return sysTree("List")
		}
		return setOp(func(l []map[string]bool, s string) bool { return true })(x, t, a)
	},
	"Intersection": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) == 0 {
			return t
		}
		return setOp(func(l []map[string]bool, s string) bool {
			for _, m := range l {
				if !m[s] {
					return false
				}
			}
			return true
		})(x, t, a)
	},
	"Complement": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) == 0 {
			return t
		}
		return setOp(func(l []map[string]bool, s string) bool {
			for _, m := range l[1:] {
				if m[s] {
					return false
				}
			}
			return l[0][s]
		})(x, t, a)
	},
	"Sort": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 1 || a[0].parts == nil {
			return t
		}
		o := treeParts(a[0].parts)
		sort.SliceStable(o.parts[1:], func(i, j int) bool { return o.parts[1+i].String() < o.parts[1+j].String() })
		return o
	},
}

func checkLists(w *World, r *Report) {
	var cases []*opCase
	g := shortNames
	add := func(text string, a ...any) *opCase {
		text = g(fmt.Sprintf(text, a...))
		fn := ctxRE.ReplaceAllString(text[:strings.Index(text, "[")], "")
		c := &opCase{fn: fn, text: text, quiet: true, seq: map[string][]string{}, throwAt: map[string]int{}}
		cases = append(cases, c)
		return c
	}
	shapes := []string{"List[]", "List[a]", "List[a, b, c]", "List[b, a, b, b, a]", "f[]", "f[a, f[b], c]", "f[List[a, b], c]", "List[List[a, b], List[c, d]]",
		"List[List[a, List[b]], List[], c]", "f[g[h[a], b], c, h[d]]", "f[f[f[a]], f[], f[b, f[c]]]", "f[f[f[f[a, b]], c, f[f[]]], f[f[d, e]]]", "h[a][b, c]", "h[a][h[a][b], c]", "List[5, 1/2, 2.5, \"s\", Rational[1, 2]]", "a", "5", "\"s\"", "1/2", "2.5", "(Complex)[1, 2]"}
	var specs []string
	nums := []string{"0", "1", "2", "3", "-1", "-2", "-3", "Infinity", "Times[-1, Infinity]"}
	specs = append(specs, nums...)
	for _, a := range nums {
		specs = append(specs, "List["+a+"]")
		for _, b := range nums {
			specs = append(specs, "List["+a+", "+b+"]")
		}
	}
	specs = append(specs, "List[]", "List[1, 2, 3]", "x", "\"1\"", "1.5", "List[x]", "List[1, x]", "f[1]", "List[1/2]")
	leveledShapes := []string{"List[]", "List[a, b]", "a", "List[a, List[b, List[c, a]], f[]]", "f[g[h[a], b], a, h[d]]", "f[f[f[a]], f[], f[b]]", "h[a][b, g[c]]"}
	for _, s := range leveledShapes {
		for _, l := range specs {
			for _, f := range []string{"Map[q, %s, %s]", "MapIndexed[q, %s, %s]", "Apply[q, %s, %s]"} {
				add(f, s, l)
			}
			for _, p := range []string{"Blank[]", "a", "f[]"} {
				add("Count[%s, "+p+", %s]", s, l)
			}
		}
	}
	for _, s := range shapes {
		for _, f := range []string{"Map[q, %s]", "MapIndexed[q, %s]", "Apply[q, %s]", "Apply[h[a], %s]", "Map[h[a], %s]", "FoldList[q, x, %s]", "Length[%s]", "Head[%s]", "Depth[%s]", "LeafCount[%s]",
			"Flatten[%s]", "Flatten[%s, 0]", "Flatten[%s, 1]", "Flatten[%s, 2]", "Flatten[%s, x]", "Reverse[%s]", "Append[%s, x]", "Append[%s, List[x]]", "Prepend[%s, x]", "Join[%s]", "Thread[%s]", "Thread[q[%s]]", "Thread[q[%s, x]]",
			"DeleteDuplicates[%s]", "Union[%s]", "Intersection[%s]", "Complement[%s]", "Sort[%s]", "Part[%s]", "NestList[q, %s, 2]", "Array[q, %s]", "NestList[q, x, %s]"} {
			add(f, s)
		}
		for _, i := range []string{"0", "1", "2", "3", "4", "6", "-1", "All", "Span[1, 2]", "Span[2, All]", "Span[1, All]", "Span[3, 2]", "Span[4, All]", "Span[5, All]", "Span[2, 4]", "Span[1, x]", "Span[x, 2]", "Span[1, 2, 1]", "x", "2.5", "9223372036854775808", "List[1]"} {
			add("Part[%s, %s]", s, i)
			for _, j := range []string{"1", "2", "All", "Span[1, 1]", "0"} {
				add("Part[%s, %s, %s]", s, i, j)
			}
		}
		for _, p := range []string{"Blank[]", "a", "b", "f[b]", "f[]", "5", "2.5", "\"s\"", "List[a, b]"} {
			for _, f := range []string{"Cases[%s, %s]", "Cases[%s, Rule[%s, y]]", "DeleteCases[%s, %s]", "MemberQ[%s, %s]"} {
				add(f, s, p)
			}
		}
		for _, n := range []string{"0", "1", "2", "3", "4", "7", "x", "2.5", "9223372036854775808"} {
			for _, f := range []string{"PadLeft[%s, %s]", "PadRight[%s, %s]", "PadLeft[%s, %s, y]", "PadRight[%s, %s, y]"} {
				add(f, s, n)
			}
		}
		for _, o := range []string{"List[]", "List[b, e]", "f[a, f[b]]", "a", "List[c, a]"} {
			for _, f := range []string{"Join[%s, %s]", "Union[%s, %s]", "Intersection[%s, %s]", "Complement[%s, %s]", "Thread[q[%s, %s]]", "Join[%s, %s, List[x]]", "Union[%s, %s, List[x, b]]", "Intersection[%s, %s, List[x, b]]", "Complement[%s, %s, List[x, b]]"} {
				add(f, s, o)
			}
		}
	}
	for _, n := range []string{"0", "1", "2", "5", "x", "2.5", "List[2, 2]", "9223372036854775808"} {
		add("Array[q, %s]", n)
		add("NestList[q, x, %s]", n)
	}
	add("NestList[q, x, -1]")
	for _, a := range []string{"List[a, b]", "List[]", "List[c]", "x"} {
		for _, b := range []string{"List[d, e]", "List[f]", "y"} {
			for _, c := range []string{"List[g, h]", "List[k]", "List[]", "z"} {
				add("Thread[q[%s, %s, %s]]", a, b, c)
			}
		}
	}
	for _, f := range []string{"Map", "MapIndexed", "Apply", "Count", "FoldList", "NestList", "NestWhileList", "Array", "Length", "Head", "Depth", "LeafCount", "Reverse", "Append", "Prepend", "Join", "Thread", "Part", "PadLeft", "PadRight", "MemberQ", "Cases", "DeleteCases", "DeleteDuplicates", "Union", "Intersection", "Complement", "Sort"} {
		for _, a := range []string{"", "x", "x, y", "x, y, z, u, v, w, t"} {
			if a == "" || strings.Contains(a, ", z") || f != "Part" {
				add(f+"[%s]", a)
			}
		}
	}
	for _, m := range []string{"", ", 0", ", 1", ", 2", ", 3", ", All", ", x", ", -1", ", 1.5"} {
		for _, max := range []string{"", ", 0", ", 1", ", 2", ", 3", ", Infinity", ", x", ", -1"} {
			if m == "" && max != "" {
				continue
			}
			for _, more := range []string{"", ", 0", ", 2"} {
				if max == "" && more != "" {
					continue
				}
				for k := 0; k < 4; k++ {
					c := add("NestWhileList[q, x, p%s%s%s]", m, max, more)
					vals := []string{"u", "v", "w", "z", "y"}
					c.seq[g("x")] = []string{"u"}
					cur := g("x")
					for i := 1; i < 5; i++ {
						cur = g("q") + "[" + cur + "]"
						c.seq[cur] = []string{g(vals[i])}
					}
					// the k-th test is the first that fails
					n := 0
					for i := 0; i < 5; i++ {
						for _, j := range testFrom(m, i) {
							l := []string{}
							for ; j <= i; j++ {
								l = append(l, vals[j])
							}
							v := g("True")
							if n >= k {
								v = g([]string{"False", "y", "\"True\"", "False"}[k])
							}
							n++
							c.seq[g("p["+strings.Join(l, ", ")+"]")] = []string{v}
						}
					}
				}
			}
		}
	}
	w.runOps("list", cases, listRefs, r)
	r.atLeast("abstract calls", 5000)
}

// testFrom gives the first value for the test after i applications, if there
// is one.
func testFrom(m string, i int) []int {
	switch m {
	case ", 0":
		return nil // the test has no arguments and fails
	case ", All":
		return []int{0}
	case ", 2", ", 3":
		n := int(m[2] - '0')
		if i+1 < n {
			return nil
		}
		return []int{i + 1 - n}
	}
	return []int{i}
}
