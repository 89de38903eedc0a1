package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C39", Title: "Equality and comparison answers are right", Run: checkEqual,
		Explain: "IsEqual is interpreted abstractly for every pair of kinds (complex numbers with each kind of parts) under every relation of the values (equal, equal to 14 digits, different later, far apart; real and imaginary parts separately), and the verdict compared with the relation. The builtins Equal, Unequal, SameQ and UnsameQ are interpreted for 0 to 3 operands under every combination of verdicts; Less, Greater, LessEqual and GreaterEqual for 0 to 3 operands of every kind under every exact and rounded order of neighbours; Max and Min for 0 to 3 numbers and symbols.",
		Assume:  []string{"N gives the nearest real of an exact number.", "Rationals are in lowest terms with a denominator above 1, and complex numbers do not have an exact zero imaginary part (normal forms).", "The canonical order of numbers is by value (C07)."}})
}

type eqOperand struct {
	k      atomKind
	re, im atomKind
	name   string // of symbols
}

func (o eqOperand) String() string {
	switch o.k {
	case kCplx:
		return fmt.Sprintf("Complex(%s, %s)", o.re, o.im)
	case kSymb:
		return "Symbol " + o.name
	}
	return string(o.k)
}

func isReal(k atomKind) bool { return k == kInt || k == kRat || k == kFlt }

func (o eqOperand) number() bool { return isReal(o.k) || o.k == kCplx }

// relation of two numbers: how far they agree
type closeness int

const (
	relSame  closeness = iota // equal
	relClose                  // differ after the 14th digit
	relLate                   // differ in the 14th digit
	relFar                    // differ in every way
)

func (c closeness) String() string {
	return [...]string{"equal", "equal to 14 digits", "different in the 14th digit", "different"}[c]
}

func checkEqual(w *World, r *Report) {
	checkIsEqual(w, r)
	checkEqualBuiltins(w, r)
	checkLess(w, r)
	checkExtrema(w, r)
}

func (w *World) mkEqOperand(mem aMem, n string, o eqOperand) aVal {
	switch o.k {
	case kSymb:
		return w.mkSym(mem, n, o.name)
	case kExpr:
		return w.mkExpr(mem, n, w.mkSym(mem, n+"h", "Global`f"), w.mkSym(mem, n+"x", "Global`x"))
	case kCplx:
		return w.mkAtom(mem, n, kCplx, o.re, o.im)
	}
	return w.mkAtom(mem, n, o.k)
}

// realKind and expected formula of component c ("re" or "im") of operand n.
func (o eqOperand) part(n, c string) (atomKind, *ratFn) {
	k := o.k
	if o.k == kCplx {
		n += c
		k = o.re
		if c == "im" {
			k = o.im
		}
	} else if c == "im" {
		return kInt, rConst(0)
	}
	if k == kRat {
		return k, rMul(rVar(n+"n"), rInv(rVar(n+"d")))
	}
	return k, rVar(n)
}

func checkIsEqual(w *World, r *Report) {
	where := ""
	if t := w.Type(pkgAtoms, "Expression"); t != nil {
		where = w.Pos(t.Obj().Pos())
	}
	var ops []eqOperand
	for _, k := range []atomKind{kInt, kRat, kFlt, kStr, kExpr} {
		ops = append(ops, eqOperand{k: k})
	}
	for _, re := range []atomKind{kInt, kRat, kFlt} {
		for _, im := range []atomKind{kInt, kRat, kFlt} {
			ops = append(ops, eqOperand{k: kCplx, re: re, im: im})
		}
	}
	for _, s := range []string{"Global`x", "Global`y", "System`True", "System`False"} {
		ops = append(ops, eqOperand{k: kSymb, name: s})
	}
	for _, a := range ops {
		for _, b := range ops {
			if a.k == kExpr && b.k == kExpr {
				continue
			}
			for _, rel := range relations(a, b) {
				r.count("pairs of values", 1)
				v, why := runIsEqual(w, a, b, rel[0], rel[1], rel[2])
				cons := fmt.Sprintf("%v == %v", a, b)
				allowed := allowedVerdicts(a, b, rel[0], rel[1])
				if allowed[v] {
					r.ok("verdict", cons, where, v)
					continue
				}
				desc := ""
				if a.number() && b.number() {
					desc = fmt.Sprintf(" whose values are %v", rel[0])
					if a.k == kCplx || b.k == kCplx {
						desc = fmt.Sprintf(" whose real parts are %v and imaginary parts %v", rel[0], rel[1])
					}
				} else if a.k == kStr && b.k == kStr {
					desc = fmt.Sprintf(" whose texts are %v", rel[0])
				}
				if v == "" {
					r.bad("verdict", cons, where, "the verdict on %s%s is not determined: %s", cons, desc, why)
				} else {
					r.bad("verdict", cons, where, "%s%s gives %s", cons, desc, v)
				}
			}
		}
	}
	// expressions by parts
	for la := 1; la <= 3; la++ {
		for lb := 1; lb <= 3; lb++ {
			m := la
			if lb < m {
				m = lb
			}
			n := 1
			for i := 0; i < m; i++ {
				n *= 3
			}
			for c := 0; c < n; c++ {
				verdicts := make([]string, m)
				x, all := c, la == lb
				for i := range verdicts {
					verdicts[i] = []string{"EQUAL_TRUE", "EQUAL_FALSE", "EQUAL_UNK"}[x%3]
					all = all && x%3 == 0
					x /= 3
				}
				r.count("pairs of expressions", 1)
				got, why := runExprEqual(w, la, lb, verdicts)
				want := "EQUAL_UNK"
				if all {
					want = "EQUAL_TRUE"
				}
				cons := fmt.Sprintf("expressions of %d and %d parts", la, lb)
				r.check("expressions", cons, where, got == want, fmt.Sprintf("%s with the verdicts %v on their parts: %s %s", cons, verdicts, got, why))
			}
		}
	}
	r.atLeast("pairs of values", 300)
	r.atLeast("pairs of expressions", 60)
}

// relations that two operands can have: of real parts, of imaginary parts, and
// which component of two different rationals differs.
func relations(a, b eqOperand) [][3]closeness {
	if a.k == kStr && b.k == kStr {
		return [][3]closeness{{relSame}, {relFar}}
	}
	if !a.number() || !b.number() {
		return [][3]closeness{{relFar}}
	}
	of := func(c string) []closeness {
		ka, fa := a.part("a", c)
		kb, fb := b.part("b", c)
		if rEq(fa, fb) {
			return []closeness{relSame}
		}
		if ka == kFlt || kb == kFlt {
			if c, ok := fa.isConst(); ok && c.Sign() == 0 {
				return []closeness{relSame, relFar}
			}
			if c, ok := fb.isConst(); ok && c.Sign() == 0 {
				return []closeness{relSame, relFar}
			}
			return []closeness{relSame, relClose, relLate, relFar}
		}
		if ka != kb {
			return []closeness{relFar} // normal forms differ
		}
		if _, ok := fa.isConst(); ok {
			return []closeness{relFar}
		}
		if _, ok := fb.isConst(); ok {
			return []closeness{relFar}
		}
		return []closeness{relSame, relFar}
	}
	var out [][3]closeness
	for _, re := range of("re") {
		for _, im := range of("im") {
			for v := 0; v < 3; v++ {
				if v > 0 && a.k != kRat && a.re != kRat && a.im != kRat {
					break
				}
				out = append(out, [3]closeness{re, im, closeness(v)})
			}
		}
	}
	return out
}

func allowedVerdicts(a, b eqOperand, re, im closeness) map[string]bool {
	t, f, u := "EQUAL_TRUE", "EQUAL_FALSE", "EQUAL_UNK"
	lit := func(o eqOperand) bool { return o.number() || o.k == kStr }
	switch {
	case a.k == kSymb && b.k == kSymb:
		if a.name == b.name {
			return map[string]bool{t: true}
		}
		bools := "System`TrueSystem`False"
		if a.name+b.name == bools || b.name+a.name == bools {
			return map[string]bool{f: true}
		}
		return map[string]bool{u: true}
	case !lit(a) || !lit(b):
		return map[string]bool{u: true}
	case a.k == kStr && b.k == kStr:
		return map[string]bool{t: re == relSame, f: re != relSame}
	case a.k == kStr || b.k == kStr:
		return map[string]bool{f: true, u: true}
	}
	ok := map[string]bool{}
	same := a.k == b.k
	switch {
	case re == relSame && im == relSame:
		ok[t] = true
	case re <= relClose && im <= relClose:
		ok[t] = true
		// a real and an exact number that differ only beyond 14 digits, or are
		// left to N
		if !same {
			ok[u] = true
		}
		if a.k == kCplx || b.k == kCplx {
			ok[f] = true // an exact part against a rounded one
		}
	default:
		ok[f] = true
		if !same {
			ok[u] = true
		}
	}
	return ok
}

func runIsEqual(w *World, a, b eqOperand, re, im, variant closeness) (string, string) {
	ai := NewAI(w)
	mem := ai.initGlobals(pkgAtoms)
	av, bv := w.mkEqOperand(mem, "a", a), w.mkEqOperand(mem, "b", b)
	if a.k == kStr && b.k == kStr {
		mem["a.Val"], mem["b.Val"] = aStr("one text"), aStr("one text")
		if re != relSame {
			mem["b.Val"] = aStr("another")
		}
	}
	numRegister(ai, mem)
	bad := ""
	strip := func(x *ratFn) string { return strings.ReplaceAll(x.String(), "num:", "") }
	comp := func(x *ratFn) (side, c, piece string) {
		for _, sd := range []struct {
			n string
			o eqOperand
		}{{"a", a}, {"b", b}} {
			for _, c := range []string{"re", "im"} {
				k, f := sd.o.part(sd.n, c)
				if _, isC := f.isConst(); isC {
					continue
				}
				if rEq(f, x) {
					return sd.n, c, "whole"
				}
				if k == kRat {
					n := sd.n
					if sd.o.k == kCplx {
						n += c
					}
					if rEq(x, rVar(n+"n")) {
						return sd.n, c, "num"
					}
					if rEq(x, rVar(n+"d")) {
						return sd.n, c, "den"
					}
				}
			}
		}
		if cst, ok := x.isConst(); ok && cst.Sign() == 0 {
			return "0", "", "whole"
		}
		return "", "", ""
	}
	rel := func(c string) closeness {
		if c == "im" {
			return im
		}
		return re
	}
	ai.NumCmp = func(x, y *ratFn) (int, bool) {
		sx, cx, px := comp(x)
		sy, cy, py := comp(y)
		sg := 1
		if sx == "0" || sx == "b" && sy == "a" {
			sx, cx, px, sy, cy, py = sy, cy, py, sx, cx, px
			sg = -1
		}
		_, _ = px, py
		switch {
		case sy == "0" && sx != "":
			// zero against a part: the other operand has no such part
			if o := map[string]eqOperand{"a": b, "b": a}[sx]; cx == "im" && o.k != kCplx {
				if im == relSame {
					return 0, true
				}
				return sg, true
			}
			return sg, true // numbers are positive unless said otherwise
		case sx == "" || sy == "" || sx == sy || cx != cy || px != py:
			bad = fmt.Sprintf("compares %v with %v", strip(x), strip(y))
			return 0, false
		case rel(cx) == relSame:
			return 0, true
		case px == "num" && variant == 1, px == "den" && variant == 2:
			return 0, true
		}
		return sg, true
	}
	ai.FmtNum = func(verb string, x *ratFn) (string, bool) {
		var p int
		if _, err := fmt.Sscanf(verb, "%%.%dg", &p); err != nil {
			return "", false
		}
		s, c, piece := comp(x)
		if cst, ok := x.isConst(); ok {
			if cst.Sign() != 0 {
				return "", false
			}
			return "0", true
		}
		if piece != "whole" {
			return "", false
		}
		if o := map[string]eqOperand{"a": b, "b": a}[s]; c == "im" && o.k != kCplx {
			if im == relSame {
				return "0", true
			}
			return "nonzero", true
		}
		agree := map[closeness]int{relSame: 1 << 30, relClose: 14, relLate: 13, relFar: 0}[rel(c)]
		if p <= agree {
			return c, true
		}
		return c + " of " + s, true
	}
	res, _, err := ai.RunMethod(av, "IsEqual", []aVal{bv}, mem)
	if err != nil || len(res) != 1 {
		return "", fmt.Sprint(err, ai.giveUps(), bad)
	}
	s, ok := res[0].str()
	if !ok {
		return "", fmt.Sprint(res[0], " ", ai.giveUps(), " ", bad)
	}
	return s, bad
}

func runExprEqual(w *World, la, lb int, verdicts []string) (string, string) {
	ai := NewAI(w)
	mem := aMem{}
	mk := func(n string, l int) aVal {
		var ps []aVal
		for i := 0; i < l; i++ {
			ps = append(ps, aSymV(fmt.Sprintf("%s%d", n, i)))
		}
		return w.mkExpr(mem, n, ps...)
	}
	av, bv := mk("a", la), mk("b", lb)
	ai.Hook = func(_ *AI, _ *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, _ *aState) ([]aVal, bool) {
		o := calleeObj(call.Common())
		if o != nil && o.Name() == "IsEqual" && len(args) == 2 {
			x, y := args[0].key(), args[1].key()
			if len(x) == 2 && len(y) == 2 && x[1] == y[1] && x[0] != y[0] && int(x[1]-'0') < len(verdicts) {
				return []aVal{aStr(verdicts[x[1]-'0'])}, true
			}
			if x != "a" {
				return []aVal{aSymV("verdict on " + x + " and " + y)}, true
			}
		}
		return nil, false
	}
	res, _, err := ai.RunMethod(av, "IsEqual", []aVal{bv}, mem)
	if err != nil || len(res) != 1 {
		return "not determined", fmt.Sprint(err, ai.giveUps())
	}
	if s, ok := res[0].str(); ok {
		return s, ""
	}
	return res[0].String(), ai.giveUps()
}

// ---- the builtins ----

// transitive: no three operands of which exactly two pairs are equal.
func transitive(n int, m map[string]string) bool {
	for i := 1; i <= n; i++ {
		for j := i + 1; j <= n; j++ {
			for k := j + 1; k <= n; k++ {
				t := 0
				for _, p := range [][2]int{{i, j}, {i, k}, {j, k}} {
					if m[fmt.Sprintf("p%d p%d", p[0], p[1])] == "EQUAL_TRUE" {
						t++
					}
				}
				if t == 2 {
					return false
				}
			}
		}
	}
	return true
}

func checkEqualBuiltins(w *World, r *Report) {
	type verdict string
	for _, name := range []string{"Equal", "Unequal", "SameQ", "UnsameQ"} {
		b := w.builtins()[name]
		if b == nil || b.Eval() == nil {
			r.bad("anchor", name, "", "the builtin %s is not registered with a Go function", name)
			continue
		}
		fn := b.Eval()
		where := w.Pos(fn.Pos())
		maxN := 4
		if name == "SameQ" || name == "UnsameQ" {
			maxN = 5
		}
		for n := 0; n <= maxN; n++ {
			pairs := n * (n - 1) / 2
			vs := []string{"EQUAL_TRUE", "EQUAL_FALSE", "EQUAL_UNK"}
			if name == "SameQ" || name == "UnsameQ" {
				vs = vs[:2]
			}
			total := 1
			for i := 0; i < pairs; i++ {
				total *= len(vs)
			}
			for c := 0; c < total; c++ {
				m := map[string]string{}
				x := c
				count := map[string]int{}
				for i := 1; i <= n; i++ {
					for j := i + 1; j <= n; j++ {
						v := vs[x%len(vs)]
						x /= len(vs)
						m[fmt.Sprintf("p%d p%d", i, j)] = v
						m[fmt.Sprintf("p%d p%d", j, i)] = v
						count[v]++
					}
				}
				// equality is transitive
				if !transitive(n, m) {
					continue
				}
				r.count("builtin cases", 1)
				got, why := runEqBuiltin(w, fn, name, n, m)
				allowed := map[string]bool{}
				allTrue, anyFalse, anyTrue := count["EQUAL_TRUE"] == pairs, count["EQUAL_FALSE"] > 0, count["EQUAL_TRUE"] > 0
				switch name {
				case "Equal":
					if allTrue {
						allowed["System`True"] = true
					} else {
						allowed["unevaluated"] = count["EQUAL_UNK"] > 0 || n < 2
						allowed["System`False"] = anyFalse
					}
					if n < 2 {
						allowed["unevaluated"] = n == 0
					}
				case "Unequal":
					switch {
					case anyTrue:
						allowed["System`False"] = true
					case count["EQUAL_FALSE"] == pairs:
						allowed["System`True"] = true
					}
					if n != 2 || count["EQUAL_UNK"] > 0 {
						allowed["unevaluated"] = true
					}
				case "SameQ":
					allowed["System`True"] = allTrue
					allowed["System`False"] = !allTrue
				case "UnsameQ":
					allowed["System`True"] = !anyTrue
					allowed["System`False"] = anyTrue
				}
				var desc []string
				for i := 1; i <= n; i++ {
					for j := i + 1; j <= n; j++ {
						desc = append(desc, fmt.Sprintf("%d and %d: %s", i, j, m[fmt.Sprintf("p%d p%d", i, j)]))
					}
				}
				cons := fmt.Sprintf("%s of %d", name, n)
				r.check("builtin", cons, where, allowed[got], fmt.Sprintf("%s operands (%s) gives %s %s", cons, strings.Join(desc, ", "), got, why))
			}
		}
	}
	r.atLeast("builtin cases", 40)
}

// resultOf describes the result of a builtin: a symbol, "unevaluated", or text.
func (ai *AI) resultOf(mem aMem, res []aVal, this aVal) string {
	if len(res) != 1 {
		return "nothing"
	}
	if res[0].key() == this.key() {
		return "unevaluated"
	}
	return ai.render(mem, res[0], 0)
}

func runEqBuiltin(w *World, fn *ssa.Function, name string, n int, m map[string]string) (string, string) {
	ai := NewAI(w)
	mem := ai.initGlobals(pkgCore)
	parts := []aVal{w.mkSym(mem, "hd", "System`"+name)}
	for i := 1; i <= n; i++ {
		parts = append(parts, aSymV(fmt.Sprintf("p%d", i)))
	}
	this := w.mkExpr(mem, "this", parts...)
	ai.Hook = func(_ *AI, _ *aFrame, call ssa.CallInstruction, f *ssa.Function, args []aVal, _ *aState) ([]aVal, bool) {
		o := calleeObj(call.Common())
		if o == nil || len(args) != 2 {
			return nil, false
		}
		switch o.Name() {
		case "IsEqual":
			if v, ok := m[args[0].key()+" "+args[1].key()]; ok {
				return []aVal{aStr(v)}, true
			}
			if args[0].key() == args[1].key() {
				return []aVal{aStr("EQUAL_TRUE")}, true
			}
		case "IsSameQ":
			if v, ok := m[args[0].key()+" "+args[1].key()]; ok {
				return []aVal{aBool(v == "EQUAL_TRUE")}, true
			}
			if args[0].key() == args[1].key() {
				return []aVal{aBool(true)}, true
			}
		}
		return nil, false
	}
	res, mm := ai.Run(fn, []aVal{this, aSymV("es")}, mem)
	return ai.resultOf(mm, res, this), ai.giveUps()
}

// ---- order ----

func checkLess(w *World, r *Report) {
	holds := map[string]func(c int) bool{
		"Less":         func(c int) bool { return c < 0 },
		"Greater":      func(c int) bool { return c > 0 },
		"LessEqual":    func(c int) bool { return c <= 0 },
		"GreaterEqual": func(c int) bool { return c >= 0 },
	}
	kinds := []string{"exact", "Rational", "real", "complex", "numeric", "other"}
	for _, name := range []string{"Less", "Greater", "LessEqual", "GreaterEqual"} {
		b := w.builtins()[name]
		if b == nil || b.Eval() == nil {
			r.bad("anchor", name, "", "the builtin %s is not registered with a Go function", name)
			continue
		}
		fn := b.Eval()
		where := w.Pos(fn.Pos())
		for n := 0; n <= 3; n++ {
			ks := make([]string, n)
			var each func(i int)
			each = func(i int) {
				if i < n {
					for _, k := range kinds {
						if n == 3 && (k == "Rational" || k == "complex") {
							continue
						}
						ks[i] = k
						each(i + 1)
					}
					return
				}
				// orders of neighbours: exact -1, 0, 1 and "near" (exact 1 or -1, rounded 0)
				orders := [][2]int{{-1, -1}, {0, 0}, {1, 1}, {-1, 0}, {1, 0}}
				if n < 2 {
					orders = orders[:1]
				} else if n == 3 {
					orders = orders[:3]
				}
				for _, o1 := range orders {
					for _, o2 := range orders {
						if n < 3 && o2 != orders[0] {
							break
						}
						r.count("comparisons", 1)
						got, why := runLess(w, fn, name, ks, [][2]int{o1, o2})
						ord := func(i int) int {
							o := o1
							if i == 1 {
								o = o2
							}
							ex := func(k string) bool { return k == "exact" || k == "Rational" }
							if ex(ks[i]) && ex(ks[i+1]) {
								return o[0]
							}
							return o[1]
						}
						allowed := map[string]bool{}
						numbers, falseBefore := true, false
						for i, k := range ks {
							if k == "complex" || k == "other" {
								numbers = false
							}
							if i > 0 && numbers && !holds[name](ord(i-1)) {
								falseBefore = true
							}
						}
						anyFalse := falseBefore
						for i := 0; i+1 < n; i++ {
							num := func(k string) bool { return k != "complex" && k != "other" }
							if num(ks[i]) && num(ks[i+1]) && !holds[name](ord(i)) {
								anyFalse = true
							}
						}
						switch {
						case numbers && !anyFalse:
							allowed["System`True"] = true
						case numbers:
							allowed["System`False"] = true
						default:
							allowed["unevaluated"] = true
							allowed["System`False"] = anyFalse
							allowed["System`True"] = n < 2
						}
						if n < 2 {
							allowed["unevaluated"] = true
						}
						cons := fmt.Sprintf("%s of %s", name, strings.Join(ks, ", "))
						r.check("comparison", cons, where, allowed[got], fmt.Sprintf("%s, with neighbours that compare (exactly, as reals) %v: %s %s", cons, [][2]int{o1, o2}[:max(n-1, 0)], got, why))
					}
				}
			}
			each(0)
		}
	}
	r.atLeast("comparisons", 1000)
}

func runLess(w *World, fn *ssa.Function, name string, ks []string, orders [][2]int) (string, string) {
	ai := NewAI(w)
	mem := ai.initGlobals(pkgCore)
	parts := []aVal{w.mkSym(mem, "hd", "System`"+name)}
	for i, k := range ks {
		nm := fmt.Sprintf("p%d", i)
		switch k {
		case "exact":
			parts = append(parts, w.mkAtom(mem, nm, kInt))
		case "Rational":
			parts = append(parts, w.mkAtom(mem, nm, kRat))
		case "real":
			parts = append(parts, w.mkAtom(mem, nm, kFlt))
		case "complex":
			parts = append(parts, w.mkAtom(mem, nm, kCplx))
		default:
			parts = append(parts, w.mkSym(mem, nm, "Global`"+nm))
		}
	}
	this := w.mkExpr(mem, "this", parts...)
	idx := func(k string) (int, bool) {
		var i int
		if _, err := fmt.Sscanf(strings.TrimPrefix(k, "N"), "p%d", &i); err != nil || i >= len(ks) {
			return 0, false
		}
		return i, true
	}
	bad := ""
	ord := w.Fn(pkgAtoms, "ExOrder")
	ai.Hook = func(ai *AI, _ *aFrame, call ssa.CallInstruction, f *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
		o := calleeObj(call.Common())
		if o == nil {
			return nil, false
		}
		if o.FullName() == "("+pkgAPI+".EvalStateInterface).Eval" {
			// N[x]
			ps, why := ai.partsOf(st.mem, args[1])
			if why != "" || len(ps) != 2 || ai.render(st.mem, ps[0], 0) != "System`N" {
				bad = "evaluates " + ai.render(st.mem, args[1], 0)
				return []aVal{aTop}, true
			}
			e, ok := ps[1].single()
			i, isP := idx(e.Key)
			if !ok || !isP {
				bad = "evaluates N of " + ps[1].String()
				return []aVal{aTop}, true
			}
			switch ks[i] {
			case "exact", "Rational", "real", "numeric":
				return []aVal{w.mkAtom(st.mem, fmt.Sprintf("Np%d", i), kFlt)}, true
			}
			return []aVal{ps[1]}, true
		}
		if f == ord {
			x, ok1 := args[0].single()
			y, ok2 := args[1].single()
			i, ok3 := idx(x.Key)
			j, ok4 := idx(y.Key)
			if !ok1 || !ok2 || !ok3 || !ok4 || (i-j != 1 && j-i != 1) {
				bad = fmt.Sprintf("orders %v and %v", args[0], args[1])
				return []aVal{aTop}, true
			}
			sg, o := -1, orders[min(i, j)] // ExOrder is 1 if the first comes first
			if j < i {
				sg = 1
			}
			fx, fy := kindOf(x) == kFlt, kindOf(y) == kFlt
			switch {
			case fx && fy:
				return []aVal{aInt(int64(sg * o[1]))}, true
			case !fx && !fy:
				return []aVal{aInt(int64(sg * o[0]))}, true
			}
			// by value, and equal numbers of different kinds are told apart
			if o[1] != 0 {
				return []aVal{aInt(int64(sg * o[1]))}, true
			}
			if fx {
				return []aVal{aInt(1)}, true
			}
			return []aVal{aInt(-1)}, true
		}
		return nil, false
	}
	res, mm := ai.Run(fn, []aVal{this, aSymV("es")}, mem)
	return ai.resultOf(mm, res, this), ai.giveUps() + bad
}

func checkExtrema(w *World, r *Report) {
	for _, name := range []string{"Max", "Min"} {
		b := w.builtins()[name]
		if b == nil || b.Eval() == nil {
			r.bad("anchor", name, "", "the builtin %s is not registered with a Go function", name)
			continue
		}
		fn := b.Eval()
		where := w.Pos(fn.Pos())
		for nums := 0; nums <= 3; nums++ {
			for syms := 0; syms <= 2; syms++ {
				for cplx := 0; cplx <= 1; cplx++ {
					for list := 0; list <= 1; list++ {
						r.count("extrema", 1)
						ai := NewAI(w)
						ai.LoopBound = 16
						mem := ai.initGlobals(pkgCore)
						parts := []aVal{w.mkSym(mem, "hd", "System`"+name)}
						// numbers and symbols in canonical order
						var ps []aVal
						for i := 0; i < nums; i++ {
							ps = append(ps, w.mkAtom(mem, fmt.Sprintf("n%d", i), kInt))
						}
						if cplx == 1 {
							ps = append(ps, w.mkAtom(mem, "z", kCplx))
						}
						for i := 0; i < syms; i++ {
							ps = append(ps, w.mkSym(mem, fmt.Sprintf("s%d", i), fmt.Sprintf("Global`s%d", i)))
						}
						if list == 1 && len(ps) > 0 {
							// the last ones in a list, reversed
							l := []aVal{w.mkSym(mem, "lh", "System`List")}
							k := len(ps) / 2
							for i := len(ps) - 1; i >= k; i-- {
								l = append(l, ps[i])
							}
							ps = append(append([]aVal{}, ps[:k]...), w.mkExpr(mem, "l", l...))
						} else if list == 1 {
							continue
						}
						this := w.mkExpr(mem, "this", append(parts, ps...)...)
						ord := w.Fn(pkgAtoms, "ExOrder")
						same := w.Fn(pkgAtoms, "IsSameQ")
						ai.Hook = func(ai *AI, _ *aFrame, call ssa.CallInstruction, f *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
							if f == ord {
								x, y := args[0].key(), args[1].key()
								rank := func(k string) int {
									switch k[0] {
									case 'n':
										return int(k[1])
									case 'z':
										return 100
									case 's':
										return 200 + int(k[1])
									}
									return 300
								}
								return []aVal{aInt(int64(sgn(rank(y) - rank(x))))}, true
							}
							if f == same {
								return []aVal{aBool(ai.render(st.mem, args[0], 0) == ai.render(st.mem, args[1], 0))}, true
							}
							if call.Common().IsInvoke() && call.Common().Method.Name() == "GetLogger" {
								return []aVal{aSymV("logger")}, true
							}
							return nil, false
						}
						res, mm := ai.Run(fn, []aVal{this, aSymV("es")}, mem)
						got := ai.resultOf(mm, res, this)
						want := ""
						var rest []string
						if nums > 0 {
							k := 0
							if name == "Max" {
								k = nums - 1
							}
							rest = append(rest, fmt.Sprintf("num:n%d", k))
						}
						for i := 0; i < syms; i++ {
							rest = append(rest, fmt.Sprintf("Global`s%d", i))
						}
						switch {
						case len(rest) == 1:
							want = rest[0]
						case len(rest) == 0 && name == "Max":
							want = "System`Times[-1, System`Infinity]"
						case len(rest) == 0:
							want = "System`Infinity"
						default:
							want = "System`" + name + "[" + strings.Join(rest, ", ") + "]"
						}
						if got != want && len(rest) == 1 && got == "System`"+name+"["+want+"]" {
							got = want // evaluated again
						}
						if got == "unevaluated" && ai.render(mm, this, 0) == want {
							got = want
						}
						if cplx == 1 {
							want = "unevaluated"
							if got == "z" && nums+syms == 0 {
								got = want
							}
						}
						cons := fmt.Sprintf("%s of %d numbers, %d symbols, %d complex, list %d", name, nums, syms, cplx, list)
						r.check("extremum", cons, where, got == want, fmt.Sprintf("%s gives %s, want %s %s", cons, got, want, ai.giveUps()))
					}
				}
			}
		}
	}
	r.atLeast("extrema", 40)
}
