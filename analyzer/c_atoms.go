package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C06", Title: "Attribute names and flags correspond one to one", Explain: "StringsToAttributes is interpreted, per attribute, on a list holding its name among unknown names (the flag must be set on every path) and on a list of unknown length of other names (the flag must not be set on any path). AttrsToStrings and AttrsToSymList are interpreted on flag sets. The fields of Attributes are enumerated from the type.", Run: checkAttributes})
	register(&Check{ID: "C08", Title: "Folding numbers is exact", Explain: "ComputeNumericPart is interpreted for every list of operand kinds described in the property's note, with the contents of every operand an independent variable; values computed with math/big are rational functions of these variables. The result must equal, as a formula, the sum or product of the operands, have the widest kind, and report the right position.",
		Assume: []string{"math/big operations compute what they document (in-place results included)", "rounding of big.Float to its precision is ignored"},
		Run:    checkFold})
}

// ---- C06 ----

func checkAttributes(w *World, r *Report) {
	at := w.Type(pkgAPI, "Attributes")
	st := at.Underlying().(*types.Struct)
	var names []string
	for i := 0; i < st.NumFields(); i++ {
		names = append(names, st.Field(i).Name())
	}
	r.count("attribute_flags", len(names))
	if len(names) < 19 {
		r.bad("flags-complete", "Attributes", w.Pos(at.Obj().Pos()), "only %d attribute flags are declared, 19 were confirmed by hand", len(names))
	}
	field := func(res aVal, n string) aVal {
		out := aVal{}
		if res.Top {
			return aTop
		}
		for _, e := range res.Els {
			if e.Kind != aStruct {
				return aTop
			}
			out = join(out, e.Flds[n])
		}
		return out
	}

	// names -> flags
	s2a := w.Fn(pkgAtoms, "StringsToAttributes")
	where := w.Pos(s2a.Pos())
	run := func(list func(mem aMem) aVal, other string) (aVal, *AI) {
		ai := NewAI(w)
		ai.LoopBound = len(names) + 5
		mem := ai.initGlobals(pkgAtoms)
		ai.Decide = func(c aVal) (bool, bool) {
			// an unknown name differs from the name under test
			k := c.key()
			if other != "" && strings.Contains(k, fmt.Sprintf("%q", other)) && strings.Contains(k, "==") {
				return strings.HasPrefix(k, "!"), true
			}
			return false, false
		}
		res, _ := ai.Run(s2a, []aVal{list(mem)}, mem)
		if len(res) == 0 {
			return aTop, ai
		}
		return res[0], ai
	}
	for _, n := range names {
		n := n
		// n among any other names: exactly its own flag must be set for certain
		res, _ := run(func(mem aMem) aVal {
			mem["L[0]"], mem["L[1]"], mem["L[2]"] = aSymV("u0"), aStr(n), aSymV("u1")
			return aList("L", 3)
		}, n)
		b, ok := field(res, n).boolean()
		if ok && b {
			r.ok("name-sets-flag", n, where, "a list holding %q among any other names always sets the flag", n)
		} else {
			r.bad("name-sets-flag", n, where, "a list holding %q does not always set the flag %s (result %v)", n, n, field(res, n))
		}
		// a list of any other names must leave it unset
		res, _ = run(func(mem aMem) aVal {
			mem["L[*]"] = aSymV("u")
			return one(aElem{Kind: aSlice, Key: "L#", Base: "L", N: -1})
		}, n)
		b, ok = field(res, n).boolean()
		if ok && !b {
			r.ok("other-names-do-not", n, where, "no list of other names, of any length, sets the flag %s", n)
		} else {
			r.bad("other-names-do-not", n, where, "a list without %q may set the flag %s (result %v)", n, n, field(res, n))
		}
		// alone
		res, _ = run(func(mem aMem) aVal { mem["L[0]"] = aStr(n); return aList("L", 1) }, "")
		for _, o := range names {
			b, ok := field(res, o).boolean()
			if !ok || b != (o == n) {
				r.bad("name-sets-only-its-flag", n, where, "the list {%s} gives %s = %v", n, o, field(res, o))
			}
		}
		r.count("list_runs", 3)
	}

	// flags -> names
	a2s := w.Fn(pkgAtoms, "AttrsToStrings")
	where = w.Pos(a2s.Pos())
	back := func(set map[string]bool) ([]string, string) {
		ai := NewAI(w)
		ai.LoopBound = 64
		mem := ai.initGlobals(pkgAtoms)
		for _, n := range names {
			mem["A."+n] = aBool(set[n])
		}
		res, m := ai.Run(a2s, []aVal{aObj("A", types.NewPointer(at))}, mem)
		if len(res) == 0 {
			return nil, "no result"
		}
		e, ok := res[0].single()
		if !ok {
			return nil, "not determined: " + res[0].String() + " " + ai.giveUps()
		}
		if e.Kind == aNil {
			return nil, ""
		}
		if e.Kind != aSlice || e.N < 0 {
			return nil, "not determined: " + res[0].String() + " " + ai.giveUps()
		}
		var out []string
		for i := 0; i < e.N; i++ {
			s, ok := aiLoad(&aState{mem: m}, fmt.Sprintf("%s[%d]", e.Base, e.Lo+i), types.Typ[types.String]).str()
			if !ok {
				return nil, "a name is not determined"
			}
			out = append(out, s)
		}
		return out, ""
	}
	test := func(rule, what string, set map[string]bool) bool {
		var want []string
		for n := range set {
			want = append(want, n)
		}
		sort.Strings(want)
		got, err := back(set)
		r.count("flag_sets_listed", 1)
		if err != "" || strings.Join(got, ",") != strings.Join(want, ",") {
			r.bad(rule, what, where, "flags {%s} are listed as {%s} %s", strings.Join(want, ","), strings.Join(got, ","), err)
			return false
		}
		return true
	}
	all := map[string]bool{}
	for _, n := range names {
		all[n] = true
	}
	ok := test("flags-listed", "none", map[string]bool{})
	ok = test("flags-listed", "all", all) && ok
	for i, n := range names {
		ok = test("flags-listed", n, map[string]bool{n: true}) && ok
		but := map[string]bool{}
		for _, m := range names {
			if m != n {
				but[m] = true
			}
		}
		ok = test("flags-listed", "all but "+n, but) && ok
		for _, m := range names[i+1:] {
			ok = test("flags-listed", n+"+"+m, map[string]bool{n: true, m: true}) && ok
		}
	}
	if ok {
		r.ok("flags-listed", "AttrsToStrings", where, "the names of exactly the set flags are listed, sorted, for the empty and full set, every flag alone, every pair, and every set lacking one")
	}

	// flags -> expression
	a2l := w.Fn(pkgAtoms, "AttrsToSymList")
	where = w.Pos(a2l.Pos())
	for _, set := range []map[string]bool{{}, all} {
		ai := NewAI(w)
		ai.LoopBound = 64
		mem := ai.initGlobals(pkgAtoms)
		for _, n := range names {
			mem["A."+n] = aBool(set[n])
		}
		res, m := ai.Run(a2l, []aVal{aObj("A", types.NewPointer(at))}, mem)
		want := []string{"System`List"}
		var ns []string
		for n := range set {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			want = append(want, "System`"+n)
		}
		got, err := ai.flatSyms(m, res)
		if err != "" || strings.Join(got, ",") != strings.Join(want, ",") {
			r.bad("flags-as-list", fmt.Sprintf("%d flags", len(set)), where, "the list of attributes is {%s}, expected {%s} %s", strings.Join(got, ","), strings.Join(want, ","), err)
		} else {
			r.ok("flags-as-list", fmt.Sprintf("%d flags", len(set)), where, "the attribute list has exactly the set attributes as System symbols")
		}
	}
	checkAttrUse(w, r, at, names)
	r.atLeast("attribute_flags", 19)
}

// checkAttrUse: SetAttributes and the like go through the checked tables.
func checkAttrUse(w *World, r *Report, at *types.Named, names []string) {
	// Symbol.Attrs returns the flags stored in the definition.
	fn := w.Fn(pkgAtoms, "Symbol.Attrs")
	ai := NewAI(w)
	mem := aMem{}
	sym := w.mkSym(mem, "S0", "x")
	ai.Hook = func(ai *AI, fr *aFrame, call ssa.CallInstruction, callee *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
		if call.Common().IsInvoke() && call.Common().Method.Name() == "Get" {
			if k, ok := args[1].str(); ok && k == "x" {
				return []aVal{aSymV("DEF"), aBool(true)}, true
			}
		}
		return nil, false
	}
	res, _ := ai.Run(fn, []aVal{sym, aSymV("DM")}, mem)
	good := len(res) == 1 && !res[0].Top
	if good {
		for _, e := range res[0].Els {
			for _, n := range names {
				if e.Kind == aStruct && e.Flds[n].key() == "DEF.Attributes."+n {
					continue
				}
				if e.Kind == aSym && e.Key == "DEF.Attributes" {
					continue
				}
				good = false
			}
		}
	}
	if good {
		r.ok("symbol-attributes", "Symbol.Attrs", w.Pos(fn.Pos()), "a symbol's attributes are the flags of its own definition")
	} else {
		r.bad("symbol-attributes", "Symbol.Attrs", w.Pos(fn.Pos()), "a symbol's attributes are not the flags of its own definition: %v", res)
	}
}

// flatSyms lists the names of the symbols of a flat expression.
func (ai *AI) flatSyms(mem aMem, res []aVal) ([]string, string) {
	if len(res) != 1 {
		return nil, "no result"
	}
	parts, err := ai.partsOf(mem, res[0])
	if err != "" {
		return nil, err
	}
	var out []string
	for _, p := range parts {
		e, ok := p.single()
		if !ok || kindOf(e) != kSymb {
			return nil, "a part is not a symbol"
		}
		s, ok := aiLoad(&aState{mem: mem}, e.Key+".Name", types.Typ[types.String]).str()
		if !ok {
			return nil, "a symbol's name is not determined"
		}
		out = append(out, s)
	}
	return out, ""
}

// partsOf lists the parts of an abstract expression.
func (ai *AI) partsOf(mem aMem, v aVal) ([]aVal, string) {
	e, ok := v.single()
	if !ok {
		return nil, "not determined: " + v.String() + " " + ai.giveUps()
	}
	if kindOf(e) != kExpr && e.Kind != aAddr {
		return nil, "not an expression: " + v.String()
	}
	ps, ok := mem[e.Key+".Parts"]
	if !ok {
		return nil, "parts unknown"
	}
	pe, ok := ps.single()
	if ok && pe.Kind == aNil {
		return nil, ""
	}
	if !ok || pe.Kind != aSlice || pe.N < 0 {
		return nil, "parts not determined: " + ps.String() + " " + ai.giveUps()
	}
	var out []aVal
	for i := 0; i < pe.N; i++ {
		x, ok := mem[fmt.Sprintf("%s[%d]", pe.Base, pe.Lo+i)]
		if !ok {
			x = aSymV(fmt.Sprintf("%s[%d]", pe.Base, pe.Lo+i))
		}
		out = append(out, x)
	}
	return out, ""
}

// ---- C08 ----

type operand struct {
	k      atomKind
	re, im atomKind
}

func (o operand) String() string {
	if o.k == kCplx {
		return fmt.Sprintf("Complex(%s,%s)", o.re, o.im)
	}
	return string(o.k)
}

var numRank = map[atomKind]int{kInt: 0, kRat: 1, kFlt: 2, kCplx: 3}

func checkFold(w *World, r *Report) {
	fn := w.Fn(pkgAtoms, "ComputeNumericPart")
	where := w.Pos(fn.Pos())
	add, ok1 := w.constOf(pkgAtoms, "FoldFnAdd")
	mul, ok2 := w.constOf(pkgAtoms, "FoldFnMul")
	if !ok1 || !ok2 {
		r.bad("fold", "FoldFn", where, "the constants FoldFnAdd and FoldFnMul were not found")
		return
	}
	simple := []operand{{k: kInt}, {k: kRat}, {k: kFlt}, {kCplx, kInt, kRat}}
	var cplx []operand
	for _, a := range []atomKind{kInt, kRat, kFlt} {
		for _, b := range []atomKind{kInt, kRat, kFlt} {
			cplx = append(cplx, operand{kCplx, a, b})
		}
	}
	full := append([]operand{{k: kInt}, {k: kRat}, {k: kFlt}}, cplx...)
	var lists [][]operand
	lists = append(lists, nil)
	for _, a := range full {
		lists = append(lists, []operand{a})
		for _, b := range full {
			lists = append(lists, []operand{a, b})
		}
	}
	for _, a := range simple {
		for _, b := range simple {
			for _, c := range simple {
				lists = append(lists, []operand{a, b, c})
			}
		}
	}
	for i := range simple {
		// longer runs of one kind followed by others
		for _, n := range []int{4, 5, 9} {
			var l []operand
			for k := 0; k < n; k++ {
				l = append(l, simple[i])
			}
			lists = append(lists, append(l, simple[(i+1)%4]))
		}
	}
	tails := []string{"", "Symbol", "Expression", "String"}
	badN := 0
	for _, f := range []struct {
		name string
		v    aVal
	}{{"Plus", add}, {"Times", mul}} {
		for _, ops := range lists {
			for _, tail := range tails {
				if tail != "" && len(ops) > 2 {
					continue
				}
				r.count("operand_kind_lists", 1)
				if msg := foldCase(w, fn, f.v, f.name, ops, tail); msg != "" && badN < 20 {
					badN++
					r.bad("fold", f.name+"|"+opsName(ops, tail), where, "%s", msg)
				}
			}
		}
		if badN == 0 {
			r.ok("fold", f.name, where, "for every combination of operand kinds the folded value is the exact %s of all leading numbers, as the widest kind, and the reported position is that of the first non-number", map[string]string{"Plus": "sum", "Times": "product"}[f.name])
		}
	}
	checkConversions(w, r)
	r.atLeast("operand_kind_lists", 1000)
}

func opsName(ops []operand, tail string) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	if tail != "" {
		s = append(s, tail)
	}
	return strings.Join(s, ",")
}

func foldCase(w *World, fn *ssa.Function, fv aVal, fname string, ops []operand, tail string) string {
	ai := NewAI(w)
	mem := aMem{}
	parts := []aVal{w.mkSym(mem, "H", "System`"+fname)}
	acc := cnum{rConst(0), rConst(0)}
	if fname == "Times" {
		acc.re = rConst(1)
	}
	rank := -1
	var vals []cnum
	for i, o := range ops {
		v := w.mkAtom(mem, fmt.Sprintf("x%d", i), o.k, o.re, o.im)
		parts = append(parts, v)
		e, _ := v.single()
		c, err := ai.valueOf(numRegister(ai, mem), e)
		if err != nil {
			return err.Error()
		}
		vals = append(vals, c)
		if fname == "Times" {
			acc = cMul(acc, c)
		} else {
			acc = cAdd(acc, c)
		}
		rank = max(rank, numRank[o.k])
	}
	wantIdx := -1
	if tail != "" {
		wantIdx = len(parts)
		parts = append(parts, w.mkAtom(mem, "t", atomKind(tail)), w.mkAtom(mem, "after", kInt))
	}
	ex := w.mkExpr(mem, "EX", parts...)
	res, m := ai.Run(fn, []aVal{fv, ex}, mem)
	what := fname + "[" + opsName(ops, tail) + "]"
	if len(res) != 2 {
		return what + ": no result " + ai.giveUps()
	}
	if idx, ok := res[1].integer(); !ok || idx != wantIdx {
		return fmt.Sprintf("%s: the position of the first non-number is %v, expected %d", what, res[1], wantIdx)
	}
	if len(ops) == 0 {
		if e, ok := res[0].single(); !ok || e.Kind != aNil {
			return fmt.Sprintf("%s: without numbers the folded part is %v, expected none", what, res[0])
		}
		return ""
	}
	if res[0].Top || len(res[0].Els) == 0 {
		return fmt.Sprintf("%s: the folded number is not determined (%s)", what, ai.giveUps())
	}
	for _, e := range res[0].Els {
		if e.Kind == aNil {
			return fmt.Sprintf("%s: the folded number may be missing", what)
		}
		if numRank[kindOf(e)] != rank || kindOf(e) == "?" {
			return fmt.Sprintf("%s: the result has kind %s, expected the widest operand kind", what, kindOf(e))
		}
		got, err := ai.valueOf(m, e)
		if err != nil {
			return fmt.Sprintf("%s: %v (%s)", what, err, ai.giveUps())
		}
		if !cEq(got, acc) {
			return fmt.Sprintf("%s: the result is %v, the exact value is %v", what, got, acc)
		}
		if len(ops) > 1 || true {
			for i := range ops {
				if e.Key == fmt.Sprintf("x%d", i) && len(ops) > 1 {
					return fmt.Sprintf("%s: the result is operand %d itself, changed in place", what, i)
				}
			}
		}
	}
	// operands unchanged
	for i := range ops {
		e, _ := parts[i+1].single()
		c, err := ai.valueOf(m, e)
		if err != nil || !cEq(c, vals[i]) {
			return fmt.Sprintf("%s: operand %d is changed by the operation", what, i)
		}
	}
	return ""
}

// numRegister makes the symbolic contents of mem known as variables.
func numRegister(ai *AI, mem aMem) aMem {
	for k, v := range mem {
		if strings.HasSuffix(k, ".$v") {
			if e, ok := v.single(); ok && strings.HasPrefix(e.Key, "num:") && ai.nums[e.Key] == nil {
				ai.numKey(rVar(strings.TrimPrefix(e.Key, "num:")))
			}
		}
	}
	return mem
}

// checkConversions: every conversion between number kinds keeps the value.
func checkConversions(w *World, r *Report) {
	type conv struct {
		fn   string
		from atomKind
		res  string // "atom" or "big"
	}
	for _, c := range []conv{
		{"IntegerToFlt", kInt, "atom"}, {"RationalToFlt", kRat, "atom"}, {"exprToN", kInt, "atom"}, {"exprToN", kRat, "atom"},
		{"Integer.asBigFloat", kInt, "big"}, {"Rational.asBigFloat", kRat, "big"}, {"Rational.asBigRat", kRat, "big"},
	} {
		fn := w.fnOpt(pkgAtoms, c.fn)
		if fn == nil {
			continue // the conversions used by folding and ordering are analysed there
		}
		ai := NewAI(w)
		mem := aMem{}
		v := w.mkAtom(mem, "x", c.from)
		e, _ := v.single()
		want, _ := ai.valueOf(numRegister(ai, mem), e)
		arg := v
		if len(fn.Params) == 1 {
			if _, isI := fn.Params[0].Type().Underlying().(*types.Interface); !isI {
				arg = one(aElem{Kind: aAddr, Key: "x"})
			}
		}
		res, m := ai.Run(fn, []aVal{arg}, mem)
		r.count("conversions", 1)
		key := c.fn + "(" + string(c.from) + ")"
		good := false
		var got string
		if len(res) > 0 {
			if re, ok := res[0].single(); ok && re.Kind == aAddr {
				if c.res == "big" {
					if ce, ok := ai.contentAt(m, re.Key).single(); ok {
						good = rEq(ai.num(ce), want.re)
						got = ai.num(ce).String()
					}
				} else {
					if re.Typ == nil {
						re.Typ = w.ptrTo(kFlt)
					}
					if g, err := ai.valueOf(m, re); err == nil {
						good, got = cEq(g, want), g.String()
					} else {
						got = err.Error()
					}
				}
			}
		}
		if good {
			r.ok("conversion", key, w.Pos(fn.Pos()), "the converted number has the same value")
		} else {
			r.bad("conversion", key, w.Pos(fn.Pos()), "the converted number is %s, expected %s %s", got, want.re, ai.giveUps())
		}
	}
}
