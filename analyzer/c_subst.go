package main

import (
	"encoding/hex"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"math/big"
	"sort"
	"strings"
	"unicode"
)

func init() {
	register(&Check{ID: "C40", Title: "Substitution replaces exactly the bound symbols, everywhere and at once", Run: checkSubst,
		Explain: "ReplacePD and ContainsSymbol are interpreted abstractly on expressions of many shapes (a bound symbol as the whole expression, as head, as argument, nested, repeated, shared, absent, inside a bound value) with no, one, two or three bindings, including bindings that mention each other or their own symbol. The result is compared part by part with simultaneous substitution, the original and the bound values must come out as they went in, and a changed expression must not keep the cached hash of its original. Both orders of visiting the bindings are analysed."})
}

// tree is a template of an expression: a symbol or number, or parts.
type tree struct {
	leaf  string
	parts []*tree
	id    int
}

func parseTree(s string) *tree {
	pos := 0
	id := 0
	var p func() *tree
	p = func() *tree {
		st := pos
		if strings.HasPrefix(s[pos:], "(Complex)") {
			pos += 9
		}
		for pos < len(s) && (unicode.IsLetter(rune(s[pos])) || unicode.IsDigit(rune(s[pos])) || s[pos] == '`' || strings.IndexByte("$\"-/.", s[pos]) >= 0) {
			pos++
		}
		id++
		t := &tree{leaf: s[st:pos], id: id}
		if strings.HasPrefix(t.leaf, `"$`) {
			raw, _ := hex.DecodeString(t.leaf[2 : len(t.leaf)-1])
			t.leaf = `"` + string(raw) + `"`
		}
		for pos < len(s) && s[pos] == '[' {
			pos++
			id++
			n := &tree{parts: []*tree{t}, id: id}
			for pos < len(s) && s[pos] != ']' {
				if s[pos] == ',' || s[pos] == ' ' {
					pos++
					continue
				}
				n.parts = append(n.parts, p())
			}
			pos++
			t = n
		}
		return t
	}
	return p()
}

func (t *tree) String() string {
	if t.parts == nil {
		return t.leaf
	}
	var o []string
	for _, p := range t.parts[1:] {
		o = append(o, p.String())
	}
	return t.parts[0].String() + "[" + strings.Join(o, ", ") + "]"
}

func (t *tree) subst(b map[string]string) *tree {
	if t.parts == nil {
		if v, ok := b[t.leaf]; ok {
			return parseTree(v)
		}
		return t
	}
	o := &tree{id: t.id}
	for _, p := range t.parts {
		o.parts = append(o.parts, p.subst(b))
	}
	return o
}

// build puts the tree into memory; every expression has a cached hash.
func (t *tree) build(w *World, mem aMem, name string) aVal {
	n := fmt.Sprintf("%s%d", name, t.id)
	if t.parts == nil {
		if r, ok := new(big.Rat).SetString(t.leaf); ok && t.leaf[len(t.leaf)-1] != '"' {
			num := func(r *big.Rat) aVal {
				return aC(constant.BinaryOp(constant.ToFloat(constant.Make(r.Num())), token.QUO, constant.ToFloat(constant.Make(r.Denom()))))
			}
			switch {
			case strings.Contains(t.leaf, "/"):
				v := w.mkAtom(mem, n, kRat)
				mem[n+"N.$v"] = num(new(big.Rat).SetInt(r.Num()))
				mem[n+"D.$v"] = num(new(big.Rat).SetInt(r.Denom()))
				return v
			case strings.Contains(t.leaf, "."):
				v := w.mkAtom(mem, n, kFlt)
				mem[n+"V.$v"] = num(r)
				return v
			}
			v := w.mkAtom(mem, n, kInt)
			mem[n+"V.$v"] = num(r)
			return v
		}
		if t.leaf[0] == '"' {
			return w.mkString(mem, n, t.leaf[1:len(t.leaf)-1])
		}
		return w.mkSym(mem, n, t.leaf)
	}
	var ps []aVal
	for _, p := range t.parts {
		ps = append(ps, p.build(w, mem, name))
	}
	if t.parts[0].leaf == "(Complex)" {
		w.mkAtom(mem, n, kCplx, kInt, kInt)
		mem[n+".Re"], mem[n+".Im"] = ps[1], ps[2]
		return aObj(n, w.ptrTo(kCplx))
	}
	v := w.mkExpr(mem, n, ps...)
	for _, f := range w.uintFields("Expression") {
		mem[n+"."+f] = aSymV("the " + f + " of " + n)
	}
	return v
}

// hashFields are the fields of Expression in which Hash, or a method of
// Expression that it calls, keeps what it computes.
func (w *World) hashFields() []string {
	used := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Signature.Recv() == nil || !isNamed(deref(f.Signature.Recv().Type()), pkgAtoms, "Expression") {
			return
		}
		seen[f] = true
		instrs(f, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(deref(fa.X.Type()), pkgAtoms, "Expression") {
				used[faName(fa)] = true
			}
			if c, ok := in.(ssa.CallInstruction); ok {
				walk(c.Common().StaticCallee())
			}
		})
	}
	walk(w.fnOpt(pkgAtoms, "Expression.Hash"))
	var o []string
	for _, f := range w.uintFields("Expression") {
		if used[f] {
			o = append(o, f)
		}
	}
	return o
}

func checkSubst(w *World, r *Report) { w.substCases(r, false) }

// substCases interprets substitutions; with hashOnly only the hashes kept in
// the results count.
func (w *World) substCases(r *Report, hashOnly bool) {
	trees := []string{"x", "w", "5", "f[]", "f[x]", "f[w]", "x[]", "x[w]", "f[x, y]", "f[x, x, w]", "f[w, 5, x]", "g[f[x], w]", "g[w, f[w, x]]", "f[g[h[x]], g[h[w]]]",
		"f[x][w]", "f[w][x]", "g[f[x], f[y]]", "x[x[y]]", "f[x, g[x, h[x, y], w], y]", "k[k[k[k[x]]]]", "f[g[w], g[w], x]", "f[\"x\", x]", "g[x[], w]", "f[g[h[x[]]], w]", "x[][w]", "x[w, 5, y]", "x[w, w, w, w, x]", "f[w, w, x[w, w, y, y], w]", "f[1, 2, 3, 4, 5, x, y]", "k[k[k[k[k[k[x[y, x, 5]]]]]]]", "f[][x[]]", "g[w, x[][]]", "f[xx, x, z]", "g[y, f[x], z]"}
	binds := []map[string]string{
		nil,
		{},
		{"x": "1"},
		{"x": "g[a, b]"},
		{"x": "f[x]"},
		{"x": "y"},
		{"x": "y", "y": "x"},
		{"x": "h[y]", "y": "g[x, 2]"},
		{"x": "x"},
		{"v": "1"},
		{"v": "1", "x": "7"},
		{"x": "1", "y": "2", "z": "q[x, y]"},
	}
	f := w.Fn(pkgMatcher, "ReplacePD")
	at := w.Pos(f.Pos())
	n := 0
	for _, ts := range trees {
		for _, b := range binds {
			for _, rev := range []bool{false, true} {
				if rev && len(b) < 2 {
					continue
				}
				m := newMatchRun(w)
				m.ai.Hook = nil
				m.ai.MapReverse = rev
				t := parseTree(ts)
				e := t.build(w, m.mem, "t")
				var vals []string
				bv := map[string]aVal{}
				for k, v := range b {
					vals = append(vals, k+"→"+v)
					bv[k] = parseTree(v).build(w, m.mem, "v"+k)
				}
				sort.Strings(vals)
				pd := aNilV
				if b != nil {
					pd = m.newPD(m.mem, "pd", bv)
				}
				res, out := m.ai.Run(f, []aVal{e, aSymV("es"), pd}, m.mem)
				n++
				what := fmt.Sprintf("{%s} in %s", strings.Join(vals, ", "), ts)
				if b == nil {
					what = "no bindings in " + ts
				}
				want := t.subst(b)
				var bad []string
				if len(res) != 1 || m.ai.giveUps() != "" {
					bad = append(bad, "not determined: "+m.ai.giveUps())
				} else {
					m.cmpTree(out, res[0], want, t, "t", "result", &bad)
				}
				m.cmpTree(out, e, t, nil, "", "the original", &bad)
				for k, v := range b {
					m.cmpTree(out, bv[k], parseTree(v), nil, "", "the value of "+k, &bad)
				}
				if hashOnly {
					var hs []string
					for _, b := range bad {
						if strings.Contains(b, "keeps a hash") || strings.Contains(b, "not determined") {
							hs = append(hs, b)
						}
					}
					bad = hs
				}
				r.check("substitution", what, at, len(bad) == 0, strings.Join(bad, "; "))
			}
		}
		if hashOnly {
			continue
		}
		for _, s := range []string{"x", "y", "w", "f", "q"} {
			m := newMatchRun(w)
			m.ai.Hook = nil
			cs := w.fnOpt(pkgAtoms, "ContainsSymbol")
			if cs == nil {
				continue
			}
			t := parseTree(ts)
			res, _ := m.ai.Run(cs, []aVal{t.build(w, m.mem, "t"), aStr(s)}, m.mem)
			has := t.contains(s)
			g, ok := first(res).boolean()
			n++
			r.check("contains", fmt.Sprintf("%s in %s", s, ts), w.Pos(cs.Pos()), ok && g == has, fmt.Sprintf("gives %v instead of %v", first(res), has))
		}
	}
	r.count("substitutions", n)
	r.atLeast("substitutions", 300)
}

func (t *tree) contains(s string) bool {
	if t.parts == nil {
		return t.leaf == s
	}
	for _, p := range t.parts {
		if p.contains(s) {
			return true
		}
	}
	return false
}

// cmpTree compares v with the tree want. orig is the tree v was made from, if
// its hashes are to be compared.
func (m *matchRun) cmpTree(mem aMem, v aVal, want, orig *tree, name, what string, bad *[]string) {
	e, ok := v.single()
	if !ok {
		*bad = append(*bad, fmt.Sprintf("%s is not determined: %v", what, v))
		return
	}
	if want.parts == nil {
		got := strings.TrimPrefix(m.text(mem, v), "num:")
		wt := want.leaf
		if wt[0] == '"' {
			wt = "“" + strings.Trim(wt, `"`) + "”"
		}
		if got != wt {
			*bad = append(*bad, fmt.Sprintf("%s is %s instead of %s", what, got, wt))
		}
		return
	}
	if kindOf(e) != kExpr {
		*bad = append(*bad, fmt.Sprintf("%s is %s instead of %s", what, m.text(mem, v), want))
		return
	}
	ps, _ := m.ai.parts(mem, e)
	if len(ps) != len(want.parts) {
		*bad = append(*bad, fmt.Sprintf("%s is %s instead of %s", what, m.text(mem, v), want))
		return
	}
	if orig != nil && orig.parts != nil && want.id == orig.id && len(want.parts) == len(orig.parts) {
		if want.String() != orig.String() {
			st := &aState{mem: mem}
			for _, f := range m.w.hashFields() {
				h := aiLoad(st, e.Key+"."+f, uint64Type)
				if n, ok := h.integer(); !ok || n != 0 {
					*bad = append(*bad, fmt.Sprintf("%s (%s) was made from %s but keeps a hash: %v", what, want, orig, h))
				}
			}
		}
	}
	for i := range ps {
		var o *tree
		if orig != nil && want.id == orig.id && i < len(orig.parts) {
			o = orig.parts[i]
		}
		m.cmpTree(mem, ps[i], want.parts[i], o, name, fmt.Sprintf("%s[%d]", what, i), bad)
	}
}

var uint64Type = types.Typ[types.Uint64]

// uintFields are the 64-bit fields of a kind: its hashes.
func (w *World) uintFields(kind string) []string {
	var o []string
	if s, ok := w.Type(pkgAtoms, kind).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				o = append(o, s.Field(i).Name())
			}
		}
	}
	return o
}
