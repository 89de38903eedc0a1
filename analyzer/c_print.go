package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"modernc.org/wl"
)

func init() {
	register(&Check{ID: "C18", Title: "What is printed in InputForm or FullForm reads back as the same expression", Run: checkPrint,
		Explain: "The printing functions (StringForm of every kind, the toString function of every builtin, parens.NeedsParens) are interpreted abstractly on expressions built from every operator nested in every other in each position, from atoms of every kind and sign, and from symbols of several contexts. The resulting text is parsed with the pinned grammar, the conversion of parser.InterpBuf is interpreted on the tree, and the result is compared with the original up to the arithmetic meaning of Plus, Times and Power.",
		Assume:  []string{"The generated lexer and parser of modernc.org/wl give the documented syntax tree; printing a number with %d or with up to six digits is exact for the numbers used."}})
}

// wlNode turns a parsed tree into the form used for building abstract trees.
func (w *World) wlNode(prods map[string]int64, x *wl.Expression) *pn {
	prod := ""
	for p, c := range prods {
		if c == int64(x.Case) {
			prod = p
		}
	}
	o := &pn{prod: prod}
	es := []*wl.Expression{x.Expression, x.Expression2, x.Expression3}
	tags := []*wl.Tag{x.Tag, x.Tag2}
	toks := []wl.Token{x.Token, x.Token2, x.Token3}
	for _, s := range strings.Fields(prod) {
		switch s {
		case "E":
			if es[0] == nil {
				return &pn{prod: "?"}
			}
			o.kids = append(o.kids, w.wlNode(prods, es[0]))
			es = es[1:]
		case "L":
			var l []*pn
			for e := x.ExprList; e != nil; e = e.ExprList {
				l = append(l, w.wlNode(prods, e.Expression))
			}
			o.kids = append(o.kids, l)
		case "Tag":
			t := tags[0].Token.Val
			if tags[0].Case == wl.TagString {
				t = `"` + t + `"`
			}
			o.kids = append(o.kids, t)
			tags = tags[1:]
		case "FileName":
		case "IDENT", "INT", "FLOAT", "STRING", "PATTERN", "SLOT", "OUT":
			o.kids = append(o.kids, toks[0].Val)
			toks = toks[1:]
		default:
			toks = toks[1:]
		}
	}
	return o
}

// toTree reads an expression from memory; symbols keep their contexts.
func (ai *AI) toTree(mem aMem, v aVal) *tree { return ai.toTreeAt(mem, v, 0) }

func (ai *AI) toTreeAt(mem aMem, v aVal, depth int) *tree {
	e, ok := v.single()
	if !ok {
		return &tree{leaf: "?" + v.String()}
	}
	if depth > 60 {
		return &tree{leaf: "?deep"}
	}
	switch kindOf(e) {
	case kExpr:
		ps, _ := ai.parts(mem, e)
		if len(ps) == 0 {
			return &tree{leaf: "?parts"}
		}
		t := &tree{}
		for _, p := range ps {
			t.parts = append(t.parts, ai.toTreeAt(mem, p, depth+1))
		}
		return t
	case kCplx:
		re, im := mem[e.Key+".Re"], mem[e.Key+".Im"]
		return &tree{parts: []*tree{{leaf: "(Complex)"}, ai.toTreeAt(mem, re, depth+1), ai.toTreeAt(mem, im, depth+1)}}
	case kStr:
		if s, ok := mem[e.Key+".Val"].str(); ok {
			return &tree{leaf: `"` + s + `"`}
		}
	case kSymb:
		if s, ok := mem[e.Key+".Name"].str(); ok {
			return &tree{leaf: s}
		}
	case kInt, kRat, kFlt:
		if r, err := ai.realOf(mem, e); err == nil {
			if c, ok := r.isConst(); ok {
				switch kindOf(e) {
				case kInt:
					return &tree{leaf: c.Num().String()}
				case kRat:
					return &tree{leaf: c.Num().String() + "/" + c.Denom().String()}
				}
				return &tree{leaf: floatLeaf(c)}
			}
		}
	}
	return &tree{leaf: "?" + ai.render(mem, v, 0)}
}

func floatLeaf(c *big.Rat) string {
	s := strings.TrimRight(c.FloatString(40), "0")
	return s
}

// number value of a normalised leaf; real tells inexact numbers.
func (t *tree) number() (re, im *big.Rat, real, ok bool) {
	if t.parts != nil {
		if t.parts[0].leaf == "(Complex)" && len(t.parts) == 3 {
			a, _, f1, ok1 := t.parts[1].number()
			b, _, f2, ok2 := t.parts[2].number()
			return a, b, f1 || f2, ok1 && ok2
		}
		return nil, nil, false, false
	}
	if t.leaf == "" || t.leaf[0] == '"' {
		return nil, nil, false, false
	}
	if r, ok := new(big.Rat).SetString(t.leaf); ok {
		return r, new(big.Rat), strings.Contains(t.leaf, "."), true
	}
	return nil, nil, false, false
}

func numTree(re, im *big.Rat, real bool) *tree {
	leaf := func(r *big.Rat) *tree {
		switch {
		case real:
			return &tree{leaf: floatLeaf(r)}
		case r.IsInt():
			return &tree{leaf: r.Num().String()}
		}
		return &tree{leaf: r.String()}
	}
	if im.Sign() != 0 {
		return &tree{parts: []*tree{{leaf: "(Complex)"}, leaf(re), leaf(im)}}
	}
	return leaf(re)
}

// norm brings sums, products and powers into a normal form.
func (t *tree) norm() *tree {
	if t.parts == nil {
		if t.leaf == "System`I" {
			return numTree(new(big.Rat), big.NewRat(1, 1), false)
		}
		if re, im, real, ok := t.number(); ok {
			return numTree(re, im, real)
		}
		return t
	}
	if t.parts[0].leaf == "(Complex)" || t.parts[0].leaf == "System`Complex" || t.parts[0].leaf == "System`Rational" {
		var ps []*tree
		for _, p := range t.parts[1:] {
			ps = append(ps, p.norm())
		}
		if len(ps) == 2 {
			a, ai, f1, ok1 := ps[0].number()
			b, bi, f2, ok2 := ps[1].number()
			if ok1 && ok2 && ai.Sign() == 0 && bi.Sign() == 0 {
				if t.parts[0].leaf == "System`Rational" && b.Sign() != 0 {
					return numTree(new(big.Rat).Quo(a, b), new(big.Rat), f1 || f2)
				}
				return numTree(a, b, f1 || f2)
			}
		}
	}
	o := &tree{}
	for _, p := range t.parts {
		o.parts = append(o.parts, p.norm())
	}
	h := o.parts[0].leaf
	switch h {
	case "System`Sqrt":
		if len(o.parts) == 2 {
			return &tree{parts: []*tree{{leaf: "System`Power"}, o.parts[1], {leaf: "1/2"}}}
		}
	case "System`Power":
		if len(o.parts) == 3 && o.parts[2].leaf == "-1" {
			if re, im, real, ok := o.parts[1].number(); ok && im.Sign() == 0 && re.Sign() != 0 {
				return numTree(new(big.Rat).Inv(re), new(big.Rat), real)
			}
			// 1/(1/x)
			if q := o.parts[1]; len(q.parts) == 3 && q.parts[0].leaf == h && q.parts[2].leaf == "-1" {
				return q.parts[1]
			}
		}
	case "System`Plus", "System`Times":
		flat := []*tree{}
		for _, p := range o.parts[1:] {
			if len(p.parts) > 1 && p.parts[0].leaf == h {
				flat = append(flat, p.parts[1:]...)
			} else {
				flat = append(flat, p)
			}
		}
		re, im, real := new(big.Rat), new(big.Rat), false
		if h == "System`Times" {
			re.SetInt64(1)
		}
		unit := re.Cmp(big.NewRat(1, 1)) == 0
		rest := []*tree{}
		for _, p := range flat {
			a, b, f, ok := p.number()
			if !ok {
				rest = append(rest, p)
				continue
			}
			real = real || f
			if unit {
				x := new(big.Rat).Sub(new(big.Rat).Mul(re, a), new(big.Rat).Mul(im, b))
				y := new(big.Rat).Add(new(big.Rat).Mul(re, b), new(big.Rat).Mul(im, a))
				re, im = x, y
			} else {
				re, im = new(big.Rat).Add(re, a), new(big.Rat).Add(im, b)
			}
		}
		neutral := im.Sign() == 0 && !real && (unit && re.Cmp(big.NewRat(1, 1)) == 0 || !unit && re.Sign() == 0)
		if len(rest) == 0 {
			return numTree(re, im, real)
		}
		if !neutral {
			rest = append(rest, numTree(re, im, real))
		}
		if len(rest) == 1 {
			return rest[0]
		}
		sort.Slice(rest, func(i, j int) bool { return rest[i].String() < rest[j].String() })
		return &tree{parts: append([]*tree{{leaf: h}}, rest...)}
	}
	return o
}

type printRun struct {
	w   *World
	ai  *AI
	mem aMem
}

// toStringFn is the printing function of a builtin.
func (b *builtin) toStringFn() *ssa.Function {
	for _, f := range b.Funcs {
		s := f.Signature
		if s.Params().Len() == 2 && s.Results().Len() == 2 && isNamed(s.Params().At(1).Type(), pkgAPI, "ToStringParams") {
			return f
		}
	}
	return nil
}

func (p *printRun) hook(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
	o := calleeObj(call.Common())
	if o == nil {
		return nil, false
	}
	if o.Name() == "IsSameQ" && o.Pkg() != nil && o.Pkg().Path() == pkgAtoms && len(args) == 2 {
		x, y := ai.toTree(st.mem, args[0]).String(), ai.toTree(st.mem, args[1]).String()
		if strings.Contains(x+y, "?") {
			return nil, false
		}
		return []aVal{aBool(x == y)}, true
	}
	if !call.Common().IsInvoke() {
		return nil, false
	}
	switch o.Name() {
	case "GetStringFn":
		n, ok := args[len(args)-1].str()
		if !ok {
			return nil, false
		}
		if b := p.w.builtins()[strings.TrimPrefix(n, "System`")]; b != nil && strings.HasPrefix(n, "System`") {
			if f := b.toStringFn(); f != nil {
				return []aVal{one(aElem{Kind: aFunc, Key: fname(f), Fn: f}), aBool(true)}, true
			}
		}
		return []aVal{aNilV, aBool(false)}, true
	}
	return nil, false
}

func fmtConst(verb string, x *ratFn) (string, bool) {
	c, ok := x.isConst()
	if !ok {
		return "", false
	}
	switch verb {
	case "%d", "%v", "%s":
		if c.IsInt() {
			return c.Num().String(), true
		}
	case "%.6g", "%g":
		f, _ := c.Float64()
		return fmt.Sprintf(verb, f), true
	}
	return "", false
}

// print gives the text of the expression.
func (w *World) printTree(prods map[string]int64, t *tree, form string, ctx string, path []string) (string, string) {
	p := &printRun{w: w, ai: NewAI(w)}
	p.mem = p.ai.initGlobals(pkgCore)
	for k, v := range p.ai.initGlobals(pkgParens) {
		p.mem[k] = v
	}
	for k, v := range p.ai.initGlobals(pkgAtoms) {
		p.mem[k] = v
	}
	w.precedence(p.mem)
	p.ai.Hook = p.hook
	p.ai.LoopBound = 60
	p.ai.MaxSteps = 400000
	p.ai.FmtNum = fmtConst
	p.ai.NumCmp = func(a, b *ratFn) (int, bool) {
		x, ok1 := a.isConst()
		y, ok2 := b.isConst()
		if ok1 && ok2 {
			return x.Cmp(y), true
		}
		return 0, false
	}
	v := t.build(w, p.mem, "t")
	parts := []aVal{w.mkSym(p.mem, "PathH", "System`List")}
	for i, s := range path {
		parts = append(parts, w.mkString(p.mem, fmt.Sprintf("Path%d", i), s))
	}
	w.mkExpr(p.mem, "Path", parts...)
	params := mkStruct(map[string]aVal{
		"Form": aStr(form), "Context": w.mkString(p.mem, "Ctx", ctx), "ContextPath": aObj("Path", w.ptrTo(kExpr)),
		"PreviousHead": aStr("<TOPLEVEL>"), "Esi": aObj("Esi", nil),
	})
	res, _, err := p.ai.RunMethod(v, "StringForm", []aVal{params}, p.mem)
	if err != nil || len(res) != 1 {
		return "", fmt.Sprint(err, p.ai.giveUps())
	}
	s, ok := res[0].str()
	if !ok {
		return "", fmt.Sprintf("the text is not determined: %v %s", res[0], p.ai.giveUps())
	}
	return s, ""
}

// precedence puts the table of the wl package into memory.
func (w *World) precedence(mem aMem) {
	loc := "new:wlPrecedence{}"
	mem["live:new:wlPrecedence"] = aBool(true)
	mem["g:"+pkgWL+".Precedence"] = one(aElem{Kind: aMap, Key: loc})
	for k, v := range wl.Precedence {
		mem[loc+"{"+fmt.Sprint(k)+"}"] = aInt(int64(v))
	}
}

// readBack parses text and gives the expression it is read as.
func (w *World) readBack(prods map[string]int64, text string, defs map[string]bool, ctx string, path []string) (*tree, string) {
	x, err := wlTree(text)
	if err != nil {
		return nil, "syntax error: " + err.Error()
	}
	if x == nil {
		return nil, "syntax error: no expression"
	}
	got, bad, pr := w.readTree(prods, w.wlNode(prods, x), func(p *parseRun) {
		p.def, p.ctx, p.path = defs, ctx, path
	})
	if bad != "" {
		return nil, "reading is not determined: " + bad
	}
	if got == "error" {
		return nil, "it is refused"
	}
	return pr.result, ""
}

func (w *World) roundTrip(prods map[string]int64, t *tree, form string, defs map[string]bool, ctx string, path []string) string {
	text, bad := w.printTree(prods, t, form, ctx, path)
	if bad != "" {
		return bad
	}
	got, bad := w.readBack(prods, text, defs, ctx, path)
	if bad != "" {
		return fmt.Sprintf("prints as %s: %s", text, bad)
	}
	if g, wnt := got.norm().String(), t.norm().String(); g != wnt {
		return fmt.Sprintf("prints as %s, which is read as %s", text, ctxRE.ReplaceAllString(got.String(), ""))
	}
	return ""
}

// hexed writes a string with arbitrary characters for parseTree.
func hexed(s string) string { return `"$` + hex.EncodeToString([]byte(s)) + `"` }

func checkPrint(w *World, r *Report) {
	prods, err := w.productions()
	ne := w.Fn(pkgAtoms, "Expression.StringForm")
	at := w.Pos(ne.Pos())
	if err != nil {
		r.check("grammar", "productions of wl.Expression", at, false, fmt.Sprint(err))
		return
	}
	defs := map[string]bool{}
	for n := range w.builtins() {
		defs["System`"+n] = true
	}
	for _, n := range []string{"Subtract", "Divide", "Minus", "AddTo", "Element", "Increment", "PreIncrement", "Derivative", "Slot", "Span", "Factorial", "Rational", "Complex", "Pi", "True", "I"} {
		defs["System`"+n] = true
	}
	type job struct{ rule, text, form string }
	var jobs []job
	add := func(rule, s string) {
		jobs = append(jobs, job{rule, s, "InputForm"}, job{rule, s, "FullForm"})
	}
	S := func(s string) string { return "System`" + s }
	G := func(s string) string { return "Global`" + s }
	a, b, c := G("a"), G("b"), G("c")
	atoms := []string{a, "2", "-2", "0", "123456789012345678901234567890", "1/2", "-3/2", "2.5", "-2.5", "0.", "(Complex)[2, 3]", "(Complex)[0, 1]", "(Complex)[0, -2]", "(Complex)[-1, -1]", "(Complex)[1/2, 3]",
		"\"s\"", "\"\"", S("Pi"), S("True"), S("I")}
	bin := []string{"Alternatives", "And", "Apply", "CompoundExpression", "Condition", "Dot", "Equal", "Greater", "GreaterEqual", "Less", "LessEqual", "Map", "Or", "PatternTest", "Plus", "Power", "ReplaceAll", "ReplaceRepeated", "Rule", "RuleDelayed", "SameQ", "Set", "SetDelayed", "Span", "StringJoin", "Times", "Unequal", "UnsameQ", "AddTo", "Element", "List", "Subtract", "Divide", "MessageName"}
	un := []string{"Factorial", "Function", "Not", "Sqrt", "Increment", "PreIncrement", "Derivative", "Slot", "Minus", "Log", "Sin", "List", "Plus", "Times", "And"}
	for _, x := range atoms {
		add("atom", x)
	}
	for _, h := range bin {
		add("operator", S(h)+"["+a+", "+b+"]")
		add("operator", S(h)+"[]")
		add("operator", S(h)+"["+a+"]")
		add("operator", S(h)+"["+a+", "+b+", "+c+"]")
		for _, x := range atoms {
			add("operand", S(h)+"["+x+", "+b+"]")
			add("operand", S(h)+"["+a+", "+x+"]")
			add("operand", S(h)+"["+x+", "+x+"]")
		}
		add("head", S(h)+"["+a+", "+b+"]["+c+"]")
		// more operands than two
		for _, long := range []string{a + ", " + b + ", " + c + ", " + a, a + ", " + b + ", " + c + ", " + b + ", " + a + ", " + c} {
			x := S(h) + "[" + long + "]"
			add("operator", x)
			for _, o := range []string{"Power", "Times", "Plus", "And", "Rule", "Part", "Equal", "StringJoin"} {
				add("nesting", S(o)+"["+x+", "+b+"]")
				add("nesting", S(o)+"["+b+", "+x+"]")
				add("nesting", S(o)+"["+b+", "+c+", "+x+", "+a+"]")
			}
		}
		add("argument", G("f")+"["+S(h)+"["+a+", "+b+"]]")
		add("argument", S("List")+"["+S(h)+"["+a+", "+b+"], "+c+"]")
		for _, i := range bin {
			in := S(i) + "[" + a + ", " + b + "]"
			add("nesting", S(h)+"["+in+", "+c+"]")
			add("nesting", S(h)+"["+c+", "+in+"]")
		}
		for _, i := range un {
			add("nesting", S(h)+"["+S(i)+"["+a+"], "+c+"]")
			add("nesting", S(h)+"["+c+", "+S(i)+"["+a+"]]")
			add("nesting", S(i)+"["+S(h)+"["+a+", "+b+"]]")
		}
	}
	for _, h := range un {
		for _, x := range atoms {
			add("operand", S(h)+"["+x+"]")
		}
		for _, i := range un {
			add("nesting", S(h)+"["+S(i)+"["+a+"]]")
		}
	}
	// patterns, parts, strings and symbols of several contexts
	bl := func(kind, typ string) string { return S(kind) + "[" + typ + "]" }
	var pats []string
	for _, k := range []string{"Blank", "BlankSequence", "BlankNullSequence"} {
		for _, typ := range []string{"", S("Integer"), G("h"), "Other`h", G("f") + "[" + a + "]", a + ", " + b, S("Plus") + "[" + a + ", " + b + "]", "\"s\""} {
			x := bl(k, typ)
			pats = append(pats, x)
			for _, n := range []string{a, "Other`a", G("f") + "[" + a + "]"} {
				pats = append(pats, S("Pattern")+"["+n+", "+x+"]")
			}
		}
	}
	pats = append(pats, S("Pattern")+"["+a+", "+b+"]", S("Pattern")+"["+a+", 2]", S("Pattern")+"["+a+", "+S("Plus")+"["+b+", "+c+"]]", S("Pattern")+"["+a+", "+S("Alternatives")+"["+b+", "+c+"]]",
		S("Pattern")+"["+S("Plus")+"["+a+", "+b+"], "+c+"]", S("Pattern")+"["+a+"]", S("Pattern")+"[]")
	for _, x := range pats {
		o := S("Optional") + "[" + x + "]"
		for _, y := range []string{x, o} {
			add("pattern", y)
			add("pattern", G("f")+"["+y+", "+b+"]")
			add("pattern", y+"["+b+"]")
			for _, h := range []string{"Plus", "Times", "Power", "Dot", "Condition", "PatternTest", "Rule", "SetDelayed", "Alternatives", "Part", "StringJoin"} {
				add("pattern", S(h)+"["+y+", "+b+"]")
				add("pattern", S(h)+"["+b+", "+y+"]")
			}
		}
		add("pattern", S("Optional")+"["+x+", "+b+"]")
	}
	add("pattern", S("Optional")+"["+a+"]")
	add("pattern", S("Optional")+"["+S("Times")+"["+bl("Blank", "")+", "+b+"]]")
	for _, h := range append(append([]string{}, bin...), un...) {
		in := S(h) + "[" + a + ", " + b + "]"
		add("part", S("Part")+"["+in+", 1]")
		add("part", S("Part")+"["+a+", "+in+"]")
		add("part", S("Part")+"["+a+", 1, "+in+"]")
		add("part", S(h)+"["+S("Part")+"["+a+", 1], "+b+"]")
		add("part", S(h)+"["+b+", "+S("Part")+"["+a+", 1]]")
		add("part", S("Part")+"["+S("Part")+"["+a+", 1], "+b+"]")
	}
	for _, x := range append([]string{"[]", "[" + a + "]"}, atoms...) {
		if x[0] == '[' {
			add("part", S("Part")+x)
		} else {
			add("part", S("Part")+"["+x+", 1]")
			add("part", S("Part")+"["+a+", "+x+"]")
			add("part", S("Part")+"["+a+", "+x+", "+x+"]")
			add("head", x+"["+a+"]")
		}
	}
	for _, x := range []string{`a"b`, `"`, `\`, `\"`, `\\`, `a\`, `\n`, `\d`, "a\nb", "\t", "(* *)", "Global`a", "#", "a_", "100%", "%d", "\u00e9"} {
		add("string", hexed(x))
		add("string", G("f")+"["+hexed(x)+", "+a+"]")
		add("string", S("Rule")+"["+hexed(x)+", "+a+"]")
	}
	for _, x := range []string{"Global`Foo`x", "Foo`x", "Foo`Bar`x", "System`Foo`x", "Foo`Global`x", "Global`x", "System`Sin", "In`x", "$Foo`x", "Global`$x", "Global`x1"} {
		add("symbol", x)
		add("symbol", x+"["+x+", "+a+"]")
		add("symbol", S("Plus")+"["+x+", "+b+"]")
	}
	res := make([]string, len(jobs))
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				res[i] = w.roundTrip(prods, parseTree(jobs[i].text), jobs[i].form, defs, "Global`", []string{"Global`", "System`"})
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	for i, j := range jobs {
		r.check(j.rule, fmt.Sprintf("%s in %s", ctxRE.ReplaceAllString(j.text, ""), j.form), at, res[i] == "", res[i])
	}
	r.count("round trips", len(jobs))
	r.atLeast("round trips", 5000)
}
