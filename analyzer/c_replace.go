package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

func init() {
	register(&Check{ID: "C44", Title: "Replacement applies the first rule that fits, once per part, outermost first", Run: checkReplace,
		Explain: "The Go functions of ReplaceAll, Replace, ReplaceRepeated, ReplacePart, ReplaceList and Switch, and what they call down to the matcher and the substitution, are interpreted abstractly on expressions of every shape with lists of rules whose patterns overlap, bind variables, repeat them, and carry conditions with prescribed outcomes. The result is compared with simultaneous outermost replacement.",
		Assume:  []string{"Patterns are literals, blanks with and without head, named and repeated variables and calls of these; others are the subject of C09 and C10."}})
}

// treeMatches lists the bindings with which p matches t, in the order of C10:
// earlier sequences are short first.
func treeMatches(t, p *tree, b map[string]*tree) []map[string]*tree {
	one := []map[string]*tree{b}
	bind := func(b map[string]*tree, n string, t *tree) []map[string]*tree {
		if v, ok := b[n]; ok {
			if v.String() == t.String() {
				return []map[string]*tree{b}
			}
			return nil
		}
		o := map[string]*tree{n: t}
		for k, v := range b {
			o[k] = v
		}
		return []map[string]*tree{o}
	}
	switch {
	case headed(p, "HoldPattern") && len(p.parts) == 2:
		return treeMatches(t, p.parts[1], b)
	case headed(p, "Blank"):
		if len(p.parts) == 1 || len(p.parts) == 2 && headOf(t).String() == p.parts[1].String() {
			return one
		}
		return nil
	case headed(p, "Pattern") && len(p.parts) == 3:
		var o []map[string]*tree
		for _, m := range treeMatches(t, p.parts[2], b) {
			o = append(o, bind(m, p.parts[1].String(), t)...)
		}
		return o
	case p.parts == nil || t.parts == nil:
		if p.parts == nil && t.parts == nil && p.leaf == t.leaf {
			return one
		}
		return nil
	}
	var seq func(ts, ps []*tree, b map[string]*tree) []map[string]*tree
	seq = func(ts, ps []*tree, b map[string]*tree) []map[string]*tree {
		if len(ps) == 0 {
			if len(ts) == 0 {
				return []map[string]*tree{b}
			}
			return nil
		}
		var o []map[string]*tree
		q := ps[0]
		if headed(q, "Pattern") && len(q.parts) == 3 && headed(q.parts[2], "BlankSequence") {
			for n := 1; n <= len(ts); n++ {
				for _, m := range bind(b, q.parts[1].String(), sysTree("Sequence", ts[:n]...)) {
					o = append(o, seq(ts[n:], ps[1:], m)...)
				}
			}
			return o
		}
		if len(ts) == 0 {
			return nil
		}
		for _, m := range treeMatches(ts[0], q, b) {
			o = append(o, seq(ts[1:], ps[1:], m)...)
		}
		return o
	}
	return seq(t.parts, p.parts, b)
}

func treeMatch(t, p *tree, b map[string]*tree) bool {
	l := treeMatches(t, p, b)
	if len(l) == 0 {
		return false
	}
	for k, v := range l[0] {
		b[k] = v
	}
	return true
}

func headOf(t *tree) *tree { return listRefs["Head"](nil, nil, []*tree{t}) }

// applyRule is the result of a rule for t itself.
func (x *opRef) applyRule(t, r *tree) (*tree, bool) {
next:
	for _, b := range treeMatches(t, r.parts[1], nil) {
		v := replaceOnce(r.parts[2], b)
		for {
			if headed(v, "With") && len(v.parts) == 3 && headed(v.parts[2], "Condition") && headed(v.parts[1], "List") {
				// a condition may use the local constants
				m := map[string]*tree{}
				for _, d := range v.parts[1].args() {
					m[d.parts[1].String()] = d.parts[2]
				}
				v = replaceOnce(v.parts[2], m)
			}
			if !headed(v, "Condition") || len(v.parts) != 3 {
				break
			}
			if !sysLeaf(x.eval(v.parts[2]), "True") {
				continue next
			}
			v = v.parts[1]
		}
		return v, true
	}
	return nil, false
}

func isRule(t *tree) bool {
	return (headed(t, "Rule") || headed(t, "RuleDelayed")) && len(t.parts) == 3
}

func ruleList(t *tree) []*tree {
	if isRule(t) {
		return []*tree{t}
	}
	return t.args()
}

func (x *opRef) replaceAll(t *tree, rules []*tree) *tree {
	for _, r := range rules {
		if v, ok := x.applyRule(t, r); ok {
			return v
		}
	}
	if t.parts == nil {
		return t
	}
	o := &tree{}
	for _, p := range t.parts {
		o.parts = append(o.parts, x.replaceAll(p, rules))
	}
	return o
}

var replaceRefs = map[string]func(x *opRef, t *tree, a []*tree) *tree{
	"ReplaceAll": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 {
			return t
		}
		return x.replaceAll(a[0], ruleList(a[1]))
	},
	"Replace": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || len(ruleList(a[1])) == 0 {
			return t
		}
		for _, r := range ruleList(a[1]) {
			if v, ok := x.applyRule(a[0], r); ok {
				return v
			}
		}
		return a[0]
	},
	"ReplaceRepeated": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 {
			return t
		}
		for cur := a[0]; ; {
			next := x.replaceAll(cur, ruleList(a[1]))
			if next.String() == cur.String() {
				return cur
			}
			cur = next
		}
	},
	"ReplacePart": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || !headed(a[1], "List") {
			return t
		}
		for _, r := range a[1].args() {
			if !headed(r, "Rule") || len(r.parts) != 3 {
				return t
			}
		}
		var walk func(t *tree, pos []*tree) *tree
		walk = func(t *tree, pos []*tree) *tree {
			if t.parts == nil {
				return t
			}
			o := node(t.parts[0])
		next:
			for i, p := range t.args() {
				at := append(pos[:len(pos):len(pos)], intTree(int64(i+1)))
				for _, r := range a[1].args() {
					for _, k := range []*tree{sysTree("List", at...), at[0]} {
						if len(at) > 1 && k.parts == nil {
							continue
						}
						if v, ok := x.applyRule(k, r); ok {
							o.parts = append(o.parts, v)
							continue next
						}
					}
				}
				o.parts = append(o.parts, walk(p, at))
			}
			return o
		}
		return walk(a[0], nil)
	},
	"ReplaceList": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || !headed(a[1], "Rule") || len(a[1].parts) != 3 {
			return t
		}
		o := sysTree("List")
		for _, b := range treeMatches(a[0], a[1].parts[1], nil) {
			o.parts = append(o.parts, replaceOnce(a[1].parts[2], b))
		}
		return o
	},
	"Switch": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) < 3 || len(a)%2 != 1 {
			return t
		}
		for i := 1; i < len(a); i += 2 {
			if treeMatch(a[0], a[i], map[string]*tree{}) {
				return a[i+1]
			}
		}
		return t
	},
	"Cases": func(x *opRef, t *tree, a []*tree) *tree {
		if len(a) != 2 || a[0].parts == nil {
			return t
		}
		o := sysTree("List")
		for _, p := range a[0].args() {
			b := map[string]*tree{}
			if headed(a[1], "Rule") && len(a[1].parts) == 3 {
				if treeMatch(p, a[1].parts[1], b) {
					o.parts = append(o.parts, replaceOnce(a[1].parts[2], b))
				}
			} else if treeMatch(p, a[1], b) {
				o.parts = append(o.parts, p)
			}
		}
		return o
	},
}

func checkReplace(w *World, r *Report) {
	var cases []*opCase
	g := shortNames
	add := func(text string, a ...any) *opCase {
		text = g(fmt.Sprintf(text, a...))
		fn := ctxRE.ReplaceAllString(text[:strings.Index(text, "[")], "")
		c := &opCase{fn: fn, text: text, quiet: true, match: true, seq: map[string][]string{}, throwAt: map[string]int{}}
		c.compute = func(t *tree) *tree {
			if headed(t, "ReplaceAll") && len(t.parts) == 3 {
				return (&opRef{c: c, n: map[string]int{}, vars: map[string]*tree{}}).replaceAll(t.parts[1], ruleList(t.parts[2]))
			}
			return nil
		}
		cases = append(cases, c)
		return c
	}
	shapes := []string{"a", "5", "f[]", "f[a]", "f[a, b]", "f[b, b]", "g[f[a], f[b]]", "f[f[a], a]", "f[f[f[a]]]", "a[b]", "a[a][a]", "List[a, b, a]", "h[f[a, a], f[a, b], 5]", "f[g[a, b], g[b, b]]", "f[a][b, f[a, b]]", "k[5, \"s\", 2.5, f[5]]"}
	x, y := "Pattern[x, Blank[]]", "Pattern[y, Blank[]]"
	lhs := []string{"a", "b", "f", "5", "f[a]", "f[" + x + "]", "f[" + x + ", " + y + "]", "f[" + x + ", " + x + "]", "Blank[]", "Blank[Integer]", "Blank[f]", x, "Pattern[x, Blank[f]]", "f[Blank[], b]", x + "[" + y + "]", "g[" + x + ", " + x + "]", "List[a, " + x + ", " + x + "]"}
	rhs := []string{"c", "b", "f[c]", "x", "g[x, y]", "f[a]", "x[x]", "List[y, x, a]"}
	for _, s := range shapes {
		for i, l := range lhs {
			for j, v := range rhs {
				rule := []string{"Rule", "RuleDelayed"}[(i+j)%2] + "[" + l + ", " + v + "]"
				add("ReplaceAll[%s, %s]", s, rule)
				add("Replace[%s, %s]", s, rule)
				add("ReplaceList[%s, Rule[%s, %s]]", s, l, v)
				l2, v2 := lhs[(i+2*j+3)%len(lhs)], rhs[(i+j)%len(rhs)]
				two := "List[" + rule + ", Rule[" + l2 + ", " + v2 + "]]"
				add("ReplaceAll[%s, %s]", s, two)
				add("Replace[%s, %s]", s, two)
			}
			for k := 0; k < 3; k++ {
				c := []string{"True", "False", "z"}[k]
				add("ReplaceAll[%s, List[RuleDelayed[%s, Condition[c, p[x]]], Rule[%s, d]]]", s, l, l).conditions(c)
				add("Replace[%s, List[RuleDelayed[%s, Condition[c, p[x]]], Rule[%s, d]]]", s, l, l).conditions(c)
			}
			// conditions inside conditions, and conditions on local constants
			for k := 0; k < 9; k++ {
				c, d := []string{"True", "False", "z"}[k/3], []string{"True", "False", "z"}[k%3]
				f := []string{"ReplaceAll", "Replace"}[k%2]
				with := []string{"Set", "SetDelayed"}[k%2]
				add("%s[%s, List[RuleDelayed[%s, Condition[Condition[c, r[x]], p[x]]], Rule[%s, d]]]", f, s, l, l).conditions(c, d)
				add("%s[%s, List[RuleDelayed[%s, With[List[%s[n, x]], Condition[q[n], p[n]]]], Rule[%s, d]]]", f, s, l, with, l).conditions(c, d)
				add("%s[%s, List[RuleDelayed[%s, With[List[%s[n, x], Set[m, u]], Condition[Condition[q[n, m], r[m]], p[n]]]], Rule[%s, d]]]", f, s, l, with, l).conditions(c, d)
			}
			add("Cases[%s, %s]", s, l)
			add("Cases[%s, Rule[%s, q[x, y]]]", s, l)
			add("Switch[%s, %s, u, %s, v, Blank[], w]", s, l, lhs[(i+5)%len(lhs)])
		}
		// rules that come to an end
		for _, rs := range []string{"Rule[a, b]", "List[Rule[a, b], Rule[b, c]]", "Rule[f[" + x + "], x]", "Rule[f[" + x + ", " + y + "], g[x]]", "List[Rule[f[f[" + x + "]], f[x]], Rule[g[" + x + "], f[x]]]", "List[Rule[5, a], Rule[a, b], Rule[f[b], c]]"} {
			add("ReplaceRepeated[%s, %s]", s, rs)
		}
		pos := []string{"1", "2", "List[1]", "List[1, 1]", "List[2, 1]", "List[1, 2]", "List[2, Blank[]]", "List[Pattern[i, Blank[]], 1]", "Pattern[i, Blank[Integer]]", "List[]", "0", "List[1, 1, 1]", "Blank[]"}
		for i, p := range pos {
			add("ReplacePart[%s, List[Rule[%s, c]]]", s, p)
			for j := 1; j < 5; j++ {
				add("ReplacePart[%s, List[Rule[%s, q[i]], Rule[%s, d]]]", s, p, pos[(i+j)%len(pos)])
			}
		}
		add("ReplacePart[%s, List[]]", s)
	}
	for _, f := range []string{"ReplaceAll", "Replace", "ReplaceRepeated", "ReplacePart", "ReplaceList"} {
		add("%s[]", f)
		add("%s[a]", f)
		add("%s[a, Rule[a, b], c]", f)
	}
	add("Replace[a, List[]]")
	add("ReplacePart[f[a], x]")
	add("ReplacePart[f[a], List[x]]")
	add("ReplacePart[f[a], List[Rule[1]]]")
	add("ReplaceList[f[a], x]")
	// patterns that match in several ways, with conditions that choose
	u, v := "Pattern[u, BlankSequence[]]", "Pattern[v, BlankSequence[]]"
	for _, s := range []string{"f[a, b]", "f[a, b, c]", "f[c, b, a, b]", "g[f[a, a, b], f[b, a]]", "f[f[a, b, c], f[a, b]]"} {
		for _, l := range []string{"f[" + u + ", " + v + "]", "f[" + u + "]", "f[" + u + ", b, " + v + "]", "f[" + u + ", " + x + "]"} {
			for _, cond := range []string{"u", "v", "w[u, v]", "x"} {
				for _, yes := range []string{"a", "a, b", "b, a", "b", "c, b"} {
					for _, f := range []string{"ReplaceAll", "Replace"} {
						c := add("%s[%s, List[RuleDelayed[%s, Condition[q[u, v, x], p[%s]]], Rule[Blank[Symbol], d]]]", f, s, l, cond)
						c.sequences(yes)
					}
				}
			}
			add("ReplaceList[%s, Rule[%s, q[u, v, x]]]", s, l)
		}
	}
	for i, s := range shapes {
		add("ReplaceAll[%s, List[]]", s)
		add("ReplaceAll[%s, List[Rule[a, b], Rule[b, a]]]", s)
		add("ReplaceAll[%s, List[Rule[a, %s], Rule[b, c]]]", s, strconv.Itoa(i))
	}
	w.runOps("replacement", cases, replaceRefs, r)
	r.atLeast("abstract calls", 5000)
}

// conditions makes every condition p[..] evaluate to v, and r[..] to v2.
func (c *opCase) conditions(v string, v2 ...string) {
	old := c.compute
	c.compute = func(t *tree) *tree {
		if t.parts != nil && len(t.parts) == 2 && t.parts[0].leaf == "Global`p" {
			return parseTree(shortNames(v))
		}
		if t.parts != nil && len(t.parts) == 2 && t.parts[0].leaf == "Global`r" && len(v2) > 0 {
			return parseTree(shortNames(v2[0]))
		}
		return old(t)
	}
	c.says = "conditions give " + v + " " + strings.Join(v2, " ")
}

// matchHook takes the matcher (C09, C10) and the substitution of its bindings
// (C40) to be right.
func (x *opRun) matchHook(ai *AI, o types.Object, sig *types.Signature, args []aVal, st *aState) ([]aVal, bool) {
	if sig == nil || o.Pkg() == nil || o.Pkg().Path() != pkgMatcher {
		return nil, false
	}
	p, r := sig.Params(), sig.Results()
	if p.Len() == 3 && r.Len() == 1 && len(args) == 3 && isEx(p.At(0).Type()) && isEx(r.At(0).Type()) && isNamed(p.At(2).Type(), pkgMatcher, "PDManager") {
		b, err := readPD(x.w, ai, st.mem, args[2])
		if err != "" {
			return nil, false
		}
		bind := map[string]*tree{}
		for k, v := range b {
			bind[k] = ai.toTree(st.mem, v)
		}
		x.n++
		return []aVal{x.w.freshTree(st.mem, numbered(replaceOnce(ai.toTree(st.mem, args[0]), bind)), fmt.Sprintf("r%d_", x.n))}, true
	}
	if p.Len() != 4 || r.Len() != 2 || len(args) != 4 || !isEx(p.At(0).Type()) || !isEx(p.At(1).Type()) {
		return nil, false
	}
	b := map[string]*tree{}
	old, err := readPD(x.w, ai, st.mem, args[2])
	if err != "" {
		return nil, false
	}
	for k, v := range old {
		b[k] = ai.toTree(st.mem, v)
	}
	ms := treeMatches(ai.toTree(st.mem, args[0]), ai.toTree(st.mem, args[1]), b)
	x.n++
	it := fmt.Sprintf("iter:%d", x.n)
	st.mem[it+".$i"], st.mem[it+".$n"] = aInt(0), aInt(int64(len(ms)))
	pds := []aVal{}
	for i, b := range ms {
		bv := map[string]aVal{}
		for k, t := range b {
			bv[k] = x.w.freshTree(st.mem, numbered(t), fmt.Sprintf("b%d.%d%s_", x.n, i, k))
		}
		if len(bv) == 0 {
			bv = nil
		}
		pds = append(pds, newPD(x.w, ai, st.mem, fmt.Sprintf("pd%d.%d", x.n, i), bv))
		st.mem[fmt.Sprintf("%s.$%d", it, i)] = pds[i]
	}
	if isPatternMatch(sig) {
		if len(ms) == 0 {
			return []aVal{aBool(false), args[2]}, true
		}
		return []aVal{aBool(true), pds[0]}, true
	}
	st.mem[it+".$pd"] = args[2]
	return []aVal{aObj(it, nil), aBool(true)}, true
}

// numbered copies t and numbers its nodes.
func numbered(t *tree) *tree {
	n := 0
	var walk func(t *tree) *tree
	walk = func(t *tree) *tree {
		o := *t
		n++
		o.id = n
		if t.parts != nil {
			o.parts = make([]*tree, 0, len(t.parts))
			for _, p := range t.parts {
				o.parts = append(o.parts, walk(p))
			}
		}
		return &o
	}
	return walk(t)
}

// sequences makes a condition true when it mentions the elements yes in a row.
func (c *opCase) sequences(yes string) {
	old := c.compute
	c.compute = func(t *tree) *tree {
		if t.parts != nil && len(t.parts) == 2 && t.parts[0].leaf == "Global`p" {
			v := "False"
			if strings.Contains(ctxRE.ReplaceAllString(t.String(), ""), "["+yes+"]") {
				v = "True"
			}
			return parseTree(shortNames(v))
		}
		return old(t)
	}
	c.says = "conditions are true of [" + yes + "]"
}
