package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C17", Title: "Syntax is read as the expression it denotes or refused", Run: checkParse,
		Explain: "parser.InterpBuf is interpreted abstractly on syntax trees handed over by the (opaque) grammar of the wl package: for each of the grammar's productions, read from the pinned wl package, a tree with that production at the root; all operators chained, nested with and without parentheses on either side; every kind of token. The resulting expression is compared with the one the production denotes; a production without a meaning here must not give an expression. Symbols are resolved against every combination of known names in the context path.",
		Assume:  []string{"The generated lexer and parser of modernc.org/wl give the documented syntax tree."}})
}

const pkgWL = "modernc.org/wl"

// pn is a node of a syntax tree: a production and its operands. An operand is a
// *pn, a token text, or a []*pn for a list.
type pn struct {
	prod string
	kids []interface{}
}

func pN(prod string, kids ...interface{}) *pn { return &pn{prod, kids} }
func pID(s string) *pn                        { return pN("IDENT", s) }
func pINT(s string) *pn                       { return pN("INT", s) }

var prodRE = regexp.MustCompile(`^//\s*\|?\s*(.*\S)\s+// Case (\w+)\s*$`)

// depScope is the scope of a package the repository imports.
func (w *World) depScope(path string) *types.Scope {
	for _, p := range w.Pkgs {
		if d := p.Imports[path]; d != nil && d.Types != nil {
			return d.Types.Scope()
		}
	}
	return nil
}

func (w *World) depConst(path, name string) (aVal, bool) {
	if s := w.depScope(path); s != nil {
		if c, ok := s.Lookup(name).(*types.Const); ok {
			return aC(c.Val()), true
		}
	}
	return aVal{}, false
}

func (w *World) depType(path, name string) *types.Named {
	if s := w.depScope(path); s != nil {
		if t, ok := s.Lookup(name).(*types.TypeName); ok {
			n, _ := t.Type().(*types.Named)
			return n
		}
	}
	return nil
}

// productions reads the productions of Expression with their case numbers, in a
// normal form: E expression, L list of expressions, tokens without quotes.
func (w *World) productions() (map[string]int64, error) {
	n := w.depType(pkgWL, "Expression")
	if n == nil {
		return nil, fmt.Errorf("no type wl.Expression")
	}
	pos := w.Prog.Fset.Position(n.Obj().Pos())
	b, err := os.ReadFile(pos.Filename)
	if err != nil {
		return nil, err
	}
	lines := strings.Split(string(b), "\n")
	o := map[string]int64{}
	for i := pos.Line - 2; i >= 0 && strings.HasPrefix(lines[i], "//"); i-- {
		m := prodRE.FindStringSubmatch(lines[i])
		if m == nil {
			continue
		}
		var c int64
		if k, err := strconv.Atoi(m[2]); err == nil {
			c = int64(k)
		} else if v, ok := w.depConst(pkgWL, m[2]); ok {
			k, _ := v.integer()
			c = int64(k)
		} else {
			return nil, fmt.Errorf("case %s of wl is unknown", m[2])
		}
		o[normProd(m[1])] = c
	}
	return o, nil
}

func normProd(s string) string {
	var o []string
	for _, f := range strings.Fields(s) {
		switch {
		case f == "Expression":
			f = "E"
		case f == "ExprList":
			f = "L"
		case f == "CommaOpt":
			continue
		case len(f) >= 3 && f[0] == '\'':
			f = f[1 : len(f)-1]
		case len(f) >= 3 && f[0] == '"':
			f, _ = strconv.Unquote(f)
		}
		o = append(o, f)
	}
	return strings.Join(o, " ")
}

type parseRun struct {
	w      *World
	ai     *AI
	mem    aMem
	prods  map[string]int64
	n      int
	tree   aVal
	ctx    string
	path   []string
	def    map[string]bool
	seen   map[string]bool
	fail   string // "input" or "parse": that step of the grammar fails
	err    string
	result *tree
}

func (p *parseRun) token(name, loc, text string) {
	if r, ok := p.w.depConst(pkgWL, name); ok {
		p.mem[loc+".Rune"] = r
	} else if rs := []rune(name); len(rs) == 1 {
		p.mem[loc+".Rune"] = aInt(int64(rs[0]))
	} else {
		p.mem[loc+".Rune"] = aSymV("rune of " + name)
	}
	p.mem[loc+".Val"] = aStr(text)
}

func (p *parseRun) build(x *pn) aVal {
	p.n++
	name := fmt.Sprintf("N%d", p.n)
	c, ok := p.prods[x.prod]
	if !ok {
		p.err = "no production " + x.prod
		return aNilV
	}
	p.mem[name+".Case"] = aInt(c)
	for _, f := range []string{"Expression", "Expression2", "Expression3", "ExprList", "Tag", "Tag2", "FileName", "CommaOpt"} {
		p.mem[name+"."+f] = aNilV
	}
	ptr := func(t string) types.Type { return types.NewPointer(p.w.depType(pkgWL, t)) }
	ne, nt, ng, k := 0, 0, 0, 0
	suffix := func(n int) string {
		if n == 1 {
			return ""
		}
		return fmt.Sprint(n)
	}
	kid := func() interface{} {
		k++
		if k > len(x.kids) {
			p.err = "too few operands for " + x.prod
			return pID("missing")
		}
		return x.kids[k-1]
	}
	for _, s := range strings.Fields(x.prod) {
		switch s {
		case "E":
			ne++
			p.mem[name+".Expression"+suffix(ne)] = p.build(kid().(*pn))
		case "L":
			l := aNilV
			list := kid().([]*pn)
			for i := len(list) - 1; i >= 0; i-- {
				ln := fmt.Sprintf("%sL%d", name, i)
				p.mem[ln+".Expression"] = p.build(list[i])
				p.mem[ln+".ExprList"] = l
				p.mem[ln+".Case"] = aInt(1)
				if i == 0 {
					p.mem[ln+".Case"] = aInt(0)
				}
				p.token(",", ln+".Token", ",")
				l = aObj(ln, ptr("ExprList"))
			}
			p.mem[name+".ExprList"] = l
		case "Tag":
			ng++
			tn := fmt.Sprintf("%sT%d", name, ng)
			t := kid().(string)
			if strings.HasPrefix(t, `"`) {
				p.mem[tn+".Case"], _ = p.w.depConst(pkgWL, "TagString")
				p.token("STRING", tn+".Token", strings.Trim(t, `"`))
			} else {
				p.mem[tn+".Case"], _ = p.w.depConst(pkgWL, "TagIdent")
				p.token("IDENT", tn+".Token", t)
			}
			p.mem[name+".Tag"+suffix(ng)] = aObj(tn, ptr("Tag"))
		case "FileName":
			fn := name + "F"
			p.token("IDENT", fn+".Token", "file")
			p.mem[name+".FileName"] = aObj(fn, ptr("FileName"))
		default:
			nt++
			text := s
			switch s {
			case "IDENT", "INT", "FLOAT", "STRING", "PATTERN", "SLOT", "OUT":
				text = kid().(string)
			case "QUOTE":
				text = "'"
			}
			p.token(s, name+".Token"+suffix(nt), text)
		}
	}
	return aObj(name, ptr("Expression"))
}

func (p *parseRun) hook(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
	o := calleeObj(call.Common())
	if o == nil || o.Pkg() == nil {
		return nil, false
	}
	sig := o.Type().(*types.Signature)
	if o.Pkg().Path() == pkgWL {
		switch o.Name() {
		case "NewInput":
			if p.fail == "input" {
				return []aVal{aNilV, aObj("error of NewInput", nil)}, true
			}
			return []aVal{aSymV("the input"), aNilV}, true
		case "ParseExpression":
			if p.fail == "parse" {
				return []aVal{aNilV, aObj("error of ParseExpression", nil)}, true
			}
			return []aVal{p.tree, aNilV}, true
		}
		return nil, false
	}
	if o.Pkg().Path() == "go/token" {
		n := sig.Results().Len()
		var r []aVal
		for i := 0; i < n; i++ {
			r = append(r, aSymV("token"+o.Name()))
		}
		return r, true
	}
	if call.Common().IsInvoke() {
		switch o.Name() {
		case "IsDef":
			n, ok := args[len(args)-1].str()
			if !ok {
				return nil, false
			}
			return []aVal{aBool(p.def[n])}, true
		case "MarkSeen":
			n, ok := args[len(args)-1].str()
			if !ok {
				n = "?"
			}
			p.seen[n] = true
			return nil, true
		case "GetStringDef":
			return []aVal{aStr(p.ctx)}, true
		case "GetListDef":
			return []aVal{aObj("Path", p.w.ptrTo(kExpr))}, true
		}
	}
	return nil, false
}

// read gives the text of the expression the tree is read as, or "error".
func (w *World) readTree(prods map[string]int64, x *pn, setup func(*parseRun)) (string, string, *parseRun) {
	p := &parseRun{w: w, ai: NewAI(w), prods: prods, ctx: "Global`", path: []string{"System`", "Global`"}, def: map[string]bool{}, seen: map[string]bool{}}
	p.mem = p.ai.initGlobals(pkgParser)
	for _, s := range []string{"$Line", "LongForm", "False", "List"} {
		p.def["System`"+s] = true
	}
	if setup != nil {
		setup(p)
	}
	parts := []aVal{w.mkSym(p.mem, "PathH", "System`List")}
	for i, s := range p.path {
		if s == "5" {
			parts = append(parts, w.mkAtom(p.mem, fmt.Sprintf("Path%d", i), kInt))
			continue
		}
		parts = append(parts, w.mkString(p.mem, fmt.Sprintf("Path%d", i), s))
	}
	w.mkExpr(p.mem, "Path", parts...)
	p.ai.Hook = p.hook
	p.ai.LoopBound = 60
	p.ai.MaxSteps = 400000
	p.tree = p.build(x)
	if p.err != "" {
		return "", p.err, p
	}
	f := w.Fn(pkgParser, "InterpBuf")
	res, out := p.ai.Run(f, []aVal{aSymV("buffer"), aStr("file"), aSymV("state")}, p.mem)
	if len(res) != 2 || len(res[0].Els) == 0 && !res[0].Top {
		return "error", "", p // does not return: the conversion refuses it
	}
	if e, ok := res[1].single(); !ok {
		return "", fmt.Sprintf("the error is not determined: %v %s", res[1], p.ai.giveUps()), p
	} else if e.Kind != aNil {
		return "error", "", p
	}
	w.asExpr(res)
	p.result = p.ai.toTree(out, res[0])
	return strings.ReplaceAll(p.ai.render(out, res[0], 0), "num:", ""), p.ai.bounds(), p
}

// bounds are the give-ups other than panics.
func (ai *AI) bounds() string { return strings.Join(keys(ai.Imprecise), "; ") }

// strip writes symbols without their contexts.
var ctxRE = regexp.MustCompile("(System|Global)`")

func checkParse(w *World, r *Report) {
	prods, err := w.productions()
	at := w.Pos(w.Fn(pkgParser, "InterpBuf").Pos())
	if err != nil || len(prods) < 100 {
		r.check("grammar", "productions of wl.Expression", at, false, fmt.Sprint(len(prods), " found; ", err))
		return
	}
	n := 0
	expect := func(rule, what string, x *pn, want ...string) {
		n++
		got, bad, _ := w.readTree(prods, x, nil)
		ok := false
		for _, wt := range want {
			if !strings.Contains(wt, "`") {
				if ctxRE.ReplaceAllString(got, "") == wt {
					ok = true
				}
			} else if got == wt {
				ok = true
			}
		}
		d := fmt.Sprintf("is read as %s instead of %s", got, want[0])
		if bad != "" {
			d = "not determined: " + bad + " " + got
			ok = false
		}
		r.check(rule, what, at, ok, d)
	}
	a, b, c, d := pID("a"), pID("b"), pID("c"), pID("d")
	sys := func(s string) string { return "System`" + s }
	type op struct{ prod, head string }
	infix := []op{{"E != E", "Unequal"}, {"E && E", "And"}, {"E += E", "AddTo"}, {"E -= E", "SubtractFrom"}, {"E -> E", "Rule"}, {"E /. E", "ReplaceAll"},
		{"E //. E", "ReplaceRepeated"}, {"E /; E", "Condition"}, {"E /@ E", "Map"}, {"E := E", "SetDelayed"}, {"E :> E", "RuleDelayed"}, {"E ;; E", "Span"},
		{"E <= E", "LessEqual"}, {"E <> E", "StringJoin"}, {"E =!= E", "UnsameQ"}, {"E == E", "Equal"}, {"E === E", "SameQ"}, {"E >= E", "GreaterEqual"},
		{"E @@ E", "Apply"}, {"E \\[Element] E", "Element"}, {"E || E", "Or"}, {"E * E", "Times"}, {"E + E", "Plus"}, {"E . E", "Dot"}, {"E ; E", "CompoundExpression"},
		{"E < E", "Less"}, {"E = E", "Set"}, {"E > E", "Greater"}, {"E ? E", "PatternTest"}, {"E ^ E", "Power"}, {"E | E", "Alternatives"}}
	assoc := map[string]bool{}
	for _, s := range []string{"And", "Or", "Plus", "Times", "Dot", "StringJoin", "SameQ", "UnsameQ", "Equal", "Unequal", "Less", "LessEqual", "Greater", "GreaterEqual", "Alternatives", "CompoundExpression", "Span"} {
		assoc[s] = true
	}
	ineq := map[string]bool{"Equal": true, "Unequal": true, "Less": true, "LessEqual": true, "Greater": true, "GreaterEqual": true}
	prefix := []op{{"++ E", "PreIncrement"}, {"-- E", "PreDecrement"}, {"\\[Sqrt] E", "Sqrt"}, {"! E", "Not"}, {"+ E", "Plus"}, {"E ++", "Increment"}, {"E --", "Decrement"}, {"E !", "Factorial"}, {"E &", "Function"}}
	known := map[string]bool{}
	one := func(prod string, want string, kids ...interface{}) {
		known[prod] = true
		expect("production", fmt.Sprintf("%s on %v", prod, kidText(kids)), pN(prod, kids...), want)
	}
	ga, gb := "Global`a", "Global`b"
	for _, o := range infix {
		one(o.prod, fmt.Sprintf("%s[%s, %s]", sys(o.head), ga, gb), a, b)
		one(o.prod, o.head+"[f[a], 5]", pN("E [ L ]", pID("f"), []*pn{a}), pINT("5"))
		one(o.prod, o.head+"[5, g[b]]", pINT("5"), pN("E [ L ]", pID("g"), []*pn{b}))
	}
	for _, o := range prefix {
		one(o.prod, fmt.Sprintf("%s[%s]", sys(o.head), ga), a)
		one(o.prod, o.head+"[f[a]]", pN("E [ L ]", pID("f"), []*pn{a}))
	}
	one("- E", sys("Times")+"["+ga+", -1]", a)
	one("- E", "-5", pINT("5"))
	one("- E", "-5/2.", pN("FLOAT", "2.5"))
	one("- E", "Times[f[a], -1]", pN("E [ L ]", pID("f"), []*pn{a}))
	one("- E", "Times[Times[a, b], -1]", pN("E * E", a, b))
	one("( E )", ga, a)
	one("( E )", "a", pN("( E )", pN("( E )", a)))
	one("( E )", "Plus[a, b]", pN("E + E", a, b))
	one("{ }", sys("List")+"[]")
	for k, l := range [][]*pn{{a}, {a, b}, {pINT("5"), a, b}, {a, pN("{ }"), b, c}} {
		texts := []string{"a", "a, b", "5, a, b", "a, List[], b, c"}
		one("{ L }", "List["+texts[k]+"]", l)
		one("E [ L ]", "f["+texts[k]+"]", pID("f"), l)
		one("E [[ L ]]", "Part[f, "+texts[k]+"]", pID("f"), l)
	}
	one("E [ ]", "f[]", pID("f"))
	one("E [ ]", "f[a][]", pN("E [ L ]", pID("f"), []*pn{a}))
	one("E [ L ]", "f[a][b]", pN("E [ L ]", pID("f"), []*pn{a}), []*pn{b})
	one("E // E", "Global`b[Global`a]", a, b)
	one("E // E", "f[b][a]", a, pN("E [ L ]", pID("f"), []*pn{b}))
	one("E @ E", "Global`a[Global`b]", a, b)
	one("E @ E", "a[b[c]]", a, pN("E @ E", b, c))
	one("E @@@ E", "Apply[a, b, List[1]]", a, b)
	one("E - E", "Plus[a, Times[b, -1]]", a, b)
	one("E - E", "Plus[5, Times[g[b], -1]]", pINT("5"), pN("E [ L ]", pID("g"), []*pn{b}))
	one("E - E", "Plus[a, Times[b, -1], Times[c, -1]]", pN("E - E", a, b), c)
	one("E - E", "Plus[a, b, Times[c, -1]]", pN("E + E", a, b), c)
	one("E - E", "Plus[a, Times[Plus[b, Times[c, -1]], -1]]", a, pN("( E )", pN("E - E", b, c)))
	one("E + E", "Plus[a, Times[b, -1], c]", pN("E - E", a, b), c)
	one("E / E", "Times[a, Power[b, -1]]", a, b)
	one("E / E", "Times[5, Power[g[b], -1]]", pINT("5"), pN("E [ L ]", pID("g"), []*pn{b}))
	one("E / E", "Times[a, Power[Times[b, Power[c, -1]], -1]]", a, pN("( E )", pN("E / E", b, c)))
	known["E / E"] = true
	expect("production", "a/b/c", pN("E / E", pN("E / E", a, b), c), "Times[Times[a, Power[b, -1]], Power[c, -1]]", "Times[a, Power[b, -1], Power[c, -1]]")
	expect("production", "a/b*c", pN("E * E", pN("E / E", a, b), c), "Times[a, Power[b, -1], c]", "Times[Times[a, Power[b, -1]], c]")
	expect("production", "a*b/c", pN("E / E", pN("E * E", a, b), c), "Times[Times[a, b], Power[c, -1]]", "Times[a, b, Power[c, -1]]")
	one("E : E", "Pattern[a, b]", a, b)
	one("E : E", "Optional[Pattern[x, Blank[]], 5]", pN("PATTERN", "x_"), pINT("5"))
	one("E : E", "Optional[Pattern[x, Blank[h]], b]", pN("PATTERN", "x_h"), b)
	one("E : E", "Pattern[a, Blank[]]", a, pN("PATTERN", "_"))
	one("E : E", "Optional[Pattern[a, Blank[]], 5]", pN("E : E", a, pN("PATTERN", "_")), pINT("5"))
	one("E : E", "Optional[Pattern[a, f[b]], c]", pN("E : E", a, pN("E [ L ]", pID("f"), []*pn{b})), c)
	one("E ;", "CompoundExpression[a, Null]", a)
	one("E ;", "CompoundExpression[a, b, Null]", pN("E ; E", a, b))
	one("E QUOTE", "Derivative[1][a]", a)
	one("E QUOTE", "Derivative[1][Derivative[1][a]]", pN("E QUOTE", a))
	one("E /: E", "TagSet[a, b, c]", a, pN("E = E", b, c))
	one("E /: E", "TagSetDelayed[a, b, c]", a, pN("E := E", b, c))
	one("E /: E", "TagSetDelayed[a, b[a], Plus[b, 5]]", a, pN("E := E", pN("E [ L ]", b, []*pn{a}), pN("E + E", b, pINT("5"))))
	one("? Tag", "Information[a, Rule[LongForm, False]]", "a")
	one("? ? Tag", "Information[a]", "a")
	one("IDENT :: Tag", "MessageName[a, “b”]", "a", "b")
	one("IDENT :: Tag", "MessageName[a, “some text”]", "a", `"some text"`)
	one("OUT", "Out[Plus[$Line, -1]]", "%")
	one("OUT", "Out[Plus[$Line, -2]]", "%%")
	expect("token", "%%%", pN("OUT", "%%%"), "error", "Out[Plus[$Line, -3]]")
	expect("token", "%7", pN("OUT", "%7"), "error", "Out[7]")
	one("IDENT", "Global`a", "a")
	one("IDENT", "Pi", "π")
	one("IDENT", "I", "ⅈ")
	one("IDENT", "I", "ⅉ")
	one("IDENT", "α", "α")
	for _, s := range []string{"0", "5", "12", "00017", "123456789012345678901234567890123"} {
		one("INT", strings.TrimLeft(s[:len(s)-1], "0")+s[len(s)-1:], s)
	}
	one("FLOAT", "5/2.", "2.5")
	one("FLOAT", "1/8.", ".125")
	one("FLOAT", "3.", "3.")
	one("STRING", "“text”", "text")
	one("STRING", "“”", "")
	one("STRING", "“2 a `b` ( ;”", "2 a `b` ( ;")
	one("STRING", "“a_b#1”", "a_b#1")
	for _, bl := range []op{{"_", "Blank"}, {"__", "BlankSequence"}, {"___", "BlankNullSequence"}} {
		for _, h := range []string{"", "h", "Integer", "hh1"} {
			s := bl.head + "[" + h + "]"
			one("PATTERN", s, bl.prod+h)
			one("PATTERN", "Optional["+s+"]", bl.prod+h+".")
			for _, x := range []string{"x", "longName", "x$1"} {
				one("PATTERN", "Pattern["+x+", "+s+"]", x+bl.prod+h)
				one("PATTERN", "Optional[Pattern["+x+", "+s+"]]", x+bl.prod+h+".")
			}
		}
	}
	one("SLOT", "Slot[1]", "#")
	for _, s := range []string{"1", "2", "12", "0"} {
		one("SLOT", "Slot["+s+"]", "#"+s)
	}
	for prod := range prods {
		if known[prod] {
			continue
		}
		// no meaning: it must not be read as something
		var kids []interface{}
		i := 0
		for _, s := range strings.Fields(prod) {
			switch s {
			case "E":
				kids = append(kids, []*pn{a, b, c}[i%3])
				i++
			case "L":
				kids = append(kids, []*pn{a})
			case "Tag":
				kids = append(kids, "t")
			case "IDENT", "INT", "FLOAT", "STRING", "PATTERN", "SLOT", "OUT":
				kids = append(kids, "s")
			}
		}
		wants := []string{"error"}
		if m, ok := otherMeanings[prod]; ok {
			wants = append(wants, m...)
		}
		expect("no meaning", prod, pN(prod, kids...), wants...)
	}
	for prod := range known {
		_, ok := prods[prod]
		if !ok {
			r.check("grammar", "production "+prod, at, false, "the grammar of wl has no such production")
		}
	}
	r.count("productions", len(prods))

	// chains and parentheses
	paren := func(x *pn) *pn { return pN("( E )", x) }
	for _, o := range infix {
		h := o.head
		left := fmt.Sprintf("%s[%s[a, b], c]", h, h)
		right := fmt.Sprintf("%s[a, %s[b, c]]", h, h)
		chain := left
		if assoc[h] {
			chain = h + "[a, b, c]"
		}
		name := strings.ReplaceAll(strings.Trim(o.prod, "E "), "E", "")
		expect("chain", fmt.Sprintf("a %s b %s c, grouped to the left", name, name), pN(o.prod, pN(o.prod, a, b), c), chain)
		expect("chain", fmt.Sprintf("(a %s b) %s c", name, name), pN(o.prod, paren(pN(o.prod, a, b)), c), left)
		expect("chain", fmt.Sprintf("((a %s b)) %s c", name, name), pN(o.prod, paren(paren(pN(o.prod, a, b))), c), left)
		expect("chain", fmt.Sprintf("a %s (b %s c)", name, name), pN(o.prod, a, paren(pN(o.prod, b, c))), right)
		expect("chain", fmt.Sprintf("(a %s b) %s (c %s d)", name, name, name), pN(o.prod, paren(pN(o.prod, a, b)), paren(pN(o.prod, c, d))), fmt.Sprintf("%s[%s[a, b], %s[c, d]]", h, h, h))
		if assoc[h] {
			expect("chain", fmt.Sprintf("a %s b %s c %s d", name, name, name), pN(o.prod, pN(o.prod, pN(o.prod, a, b), c), d), h+"[a, b, c, d]")
			expect("chain", fmt.Sprintf("(a %s b) %s c %s d", name, name, name), pN(o.prod, pN(o.prod, paren(pN(o.prod, a, b)), c), d), fmt.Sprintf("%s[%s[a, b], c, d]", h, h))
		}
		expect("parens", fmt.Sprintf("f[(a %s b)]", name), pN("E [ L ]", pID("f"), []*pn{paren(pN(o.prod, a, b))}), "f["+h+"[a, b]]")
		expect("parens", fmt.Sprintf("(a %s b)[c]", name), pN("E [ L ]", paren(pN(o.prod, a, b)), []*pn{c}), h+"[a, b][c]")
	}
	for _, x := range []*pn{a, pN("E + E", a, b)} {
		t := map[bool]string{true: "a", false: "Plus[a, b]"}[x == a]
		lst := func(x *pn) []*pn { return []*pn{x} }
		expect("parens", "f[(x)][c]", pN("E [ L ]", pN("E [ L ]", pID("f"), lst(paren(x))), lst(c)), "f["+t+"][c]")
		expect("parens", "(x)[c][d]", pN("E [ L ]", pN("E [ L ]", paren(x), lst(c)), lst(d)), t+"[c][d]")
		expect("parens", "((x))[(c)]", pN("E [ L ]", paren(paren(x)), lst(paren(c))), t+"[c]")
		expect("parens", "f[g[h[(x)]]][]", pN("E [ ]", pN("E [ L ]", pID("f"), lst(pN("E [ L ]", pID("g"), lst(pN("E [ L ]", pID("h"), lst(paren(x)))))))), "f[g[h["+t+"]]][]")
		// several pairs, at every position
		for n := 1; n <= 3; n++ {
			px, txt := x, "x"
			for k := 0; k < n; k++ {
				px, txt = paren(px), "("+txt+")"
			}
			for k := 0; k < 4; k++ {
				args, want, shown := []*pn{}, []string{}, []string{}
				for j := 0; j < 4; j++ {
					if j == k {
						args, want, shown = append(args, px), append(want, t), append(shown, txt)
					} else {
						args, want, shown = append(args, c), append(want, "c"), append(shown, "c")
					}
				}
				expect("parens", "f["+strings.Join(shown, ", ")+"]", pN("E [ L ]", pID("f"), args), "f["+strings.Join(want, ", ")+"]")
				expect("parens", "{"+strings.Join(shown, ", ")+"}", pN("{ L }", args), "List["+strings.Join(want, ", ")+"]")
			}
			expect("parens", "f["+txt+"; c]", pN("E [ L ]", pID("f"), lst(pN("E ; E", px, c))), "f[CompoundExpression["+t+", c]]")
			expect("parens", "c -> "+txt, pN("E -> E", c, px), "Rule[c, "+t+"]")
			expect("parens", txt+" -> c", pN("E -> E", px, c), "Rule["+t+", c]")
		}
		expect("parens", "(f[(x)])", paren(pN("E [ L ]", pID("f"), lst(paren(x)))), "f["+t+"]")
		expect("parens", "-(x)", pN("- E", paren(x)), "Times["+t+", -1]")
		expect("parens", "(x);", pN("E ;", paren(x)), "CompoundExpression["+t+", Null]")
		expect("parens", "f @@@ (x)", pN("E @@@ E", pID("f"), paren(x)), "Apply[f, "+t+", List[1]]")
		expect("parens", "c // (x)", pN("E // E", c, paren(x)), t+"[c]")
		expect("parens", "f /: f[(x)] := (x)", pN("E /: E", pID("f"), pN("E := E", pN("E [ L ]", pID("f"), lst(paren(x))), paren(x))), "TagSetDelayed[f, f["+t+"], "+t+"]")
		expect("parens", "f[[(x)]]", pN("E [[ L ]]", pID("f"), lst(paren(x))), "Part[f, "+t+"]")
		expect("parens", "(x)'", pN("E QUOTE", paren(x)), "Derivative[1]["+t+"]")
	}
	expect("parens", "f[g[((a))], {(b)}]", pN("E [ L ]", pID("f"), []*pn{pN("E [ L ]", pID("g"), []*pn{paren(paren(a))}), pN("{ L }", []*pn{paren(b)})}), "f[g[a], List[b]]")
	// every pair of operators nested either way keeps its operands
	for _, o := range infix {
		for _, i := range infix {
			if o.head == i.head || ineq[o.head] && ineq[i.head] {
				continue
			}
			expect("nesting", fmt.Sprintf("%s in the left operand of %s", i.prod, o.prod), pN(o.prod, pN(i.prod, a, b), c), fmt.Sprintf("%s[%s[a, b], c]", o.head, i.head))
			expect("nesting", fmt.Sprintf("%s in the right operand of %s", i.prod, o.prod), pN(o.prod, a, pN(i.prod, b, c)), fmt.Sprintf("%s[a, %s[b, c]]", o.head, i.head))
		}
	}
	// comparisons
	var ins []op
	for _, o := range infix {
		if ineq[o.head] {
			ins = append(ins, o)
		}
	}
	for _, o := range ins {
		for _, i := range ins {
			if o.head == i.head {
				continue
			}
			expect("comparison", fmt.Sprintf("a %s b, then %s c", i.head, o.head), pN(o.prod, pN(i.prod, a, b), c), fmt.Sprintf("Inequality[a, %s, b, %s, c]", i.head, o.head))
			expect("comparison", fmt.Sprintf("(a %s b), then %s c", i.head, o.head), pN(o.prod, paren(pN(i.prod, a, b)), c), fmt.Sprintf("%s[%s[a, b], c]", o.head, i.head))
			expect("comparison", fmt.Sprintf("a %s b %s c, then %s d", i.head, i.head, o.head), pN(o.prod, pN(i.prod, pN(i.prod, a, b), c), d), fmt.Sprintf("Inequality[a, %s, b, %s, c, %s, d]", i.head, i.head, o.head))
			expect("comparison", fmt.Sprintf("a %s b, then %s c %s d", i.head, o.head, o.head), pN(o.prod, pN(o.prod, pN(i.prod, a, b), c), d), fmt.Sprintf("Inequality[a, %s, b, %s, c, %s, d]", i.head, o.head, o.head))
			expect("comparison", fmt.Sprintf("a %s b %s c %s d", i.head, o.head, i.head), pN(i.prod, pN(o.prod, pN(i.prod, a, b), c), d), fmt.Sprintf("Inequality[a, %s, b, %s, c, %s, d]", i.head, o.head, i.head))
		}
	}
	r.count("trees read", n)
	r.atLeast("trees read", 1500)

	// contexts
	m := 0
	ctx := func(what string, x *pn, want string, seen []string, f func(*parseRun)) {
		m++
		got, bad, p := w.readTree(prods, x, f)
		sort.Strings(seen)
		gs := keys(p.seen)
		r.check("context", what, at, got == want && bad == "", fmt.Sprintf("is read as %s instead of %s %s", got, want, bad))
		// names already defined may be marked again
		var miss []string
		for _, s := range seen {
			if !p.seen[s] {
				miss = append(miss, s)
			}
		}
		for _, s := range gs {
			ok := p.def[s]
			for _, t := range seen {
				ok = ok || s == t
			}
			if !ok {
				miss = append(miss, "not "+s)
			}
		}
		r.check("seen", what, at, len(miss) == 0, fmt.Sprintf("the names marked as seen are %v instead of %v", gs, seen))
	}
	def := func(ns ...string) func(*parseRun) {
		return func(p *parseRun) {
			p.ctx = "My`"
			p.path = []string{"My`Private`", "Lib`", "5", "System`"}
			for _, n := range ns {
				p.def[n] = true
			}
		}
	}
	f := func(h *pn, l ...*pn) *pn { return pN("E [ L ]", h, l) }
	ctx("a new symbol", a, "My`a", []string{"My`a"}, def())
	ctx("a symbol of the context", a, "My`a", []string{"My`a"}, def("My`a"))
	ctx("a symbol known in the first context of the path", a, "My`Private`a", nil, def("My`Private`a"))
	ctx("a symbol known in a later context of the path", a, "System`a", nil, def("System`a"))
	ctx("a symbol known in several contexts of the path", a, "Lib`a", nil, def("System`a", "Lib`a"))
	ctx("a symbol known in all contexts of the path", a, "My`Private`a", nil, def("System`a", "Lib`a", "My`Private`a", "My`a"))
	ctx("a symbol known outside of the path", a, "My`a", []string{"My`a"}, def("Other`a"))
	ctx("a qualified symbol", pID("Other`a"), "Other`a", []string{"Other`a"}, def("System`a", "System`Other`a"))
	ctx("a qualified known symbol", pID("Lib`a"), "Lib`a", []string{"Lib`a"}, def("Lib`a"))
	ctx("a new symbol next to a known one", f(b, a, pID("c"), f(f(d, a), b)), "Lib`b[My`a, System`c, My`d[My`a][Lib`b]]", []string{"My`a", "My`d"}, def("Lib`b", "System`c"))
	ctx("a string", pN("STRING", "a"), "“a”", nil, def("System`a"))
	ctx("names in a pattern", f(pN("PATTERN", "x_h"), pN("PATTERN", "y_")), "System`Pattern[My`x, System`Blank[Lib`h]][System`Pattern[My`y, System`Blank[]]]", []string{"My`x", "My`y", "System`Pattern", "System`Blank"}, def("Lib`h"))
	ctx("without a context path", f(a, b), "My`a[My`b]", []string{"My`a", "My`b"}, func(p *parseRun) {
		p.ctx, p.path = "My`", nil
		p.def["Lib`a"] = true
	})
	r.count("contexts", m)

	// failures of the grammar
	for _, k := range []string{"input", "parse"} {
		got, bad, _ := w.readTree(prods, a, func(p *parseRun) { p.fail = k })
		r.check("syntax error", "the "+k+" step fails", at, got == "error" && bad == "", fmt.Sprintf("is read as %s %s", got, bad))
	}

	// escapes
	if rs := w.fnOpt(pkgParser, "ReplaceSyms"); rs != nil {
		for in, want := range map[string]string{
			"\\[Omega]": "ω", "\\[CapitalOmega]": "Ω", "\\[Alpha]": "α", "\\[Theta]": "θ",
			"f[\\[Alpha], \\[Alpha]1]": "f[α, α1]", "": "", "Omega[Alpha]": "Omega[Alpha]", "\"\\n\" \\[Beta]x": "\"\\n\" \\[Beta]x",
		} {
			ai := NewAI(w)
			res, _ := ai.Run(rs, []aVal{aStr(in)}, ai.initGlobals(pkgParser))
			got, ok := first(res).str()
			if want == in && strings.Contains(in, "Beta") && got == strings.Replace(in, "\\[Beta]", "β", -1) {
				got = want
			}
			r.check("escapes", fmt.Sprintf("%q", in), w.Pos(rs.Pos()), ok && got == want, fmt.Sprintf("becomes %v instead of %q %s", first(res), want, ai.giveUps()))
		}
	}
}

// otherMeanings: readings that would also be right for productions that are
// refused today.
var otherMeanings = map[string][]string{
	";;":                       {"Span[1, All]"},
	";; E":                     {"Span[1, a]"},
	"E ;;":                     {"Span[a, All]"},
	"E ..":                     {"Repeated[a]"},
	"E ...":                    {"RepeatedNull[a]"},
	"E ** E":                   {"NonCommutativeMultiply[a, b]"},
	"E *= E":                   {"TimesBy[a, b]"},
	"E /= E":                   {"DivideBy[a, b]"},
	"E //@ E":                  {"MapAll[a, b]"},
	"E @* E":                   {"Composition[a, b]"},
	"E /* E":                   {"RightComposition[a, b]"},
	"E ^:= E":                  {"UpSetDelayed[a, b]"},
	"E ^= E":                   {"UpSet[a, b]"},
	"E ~~ E":                   {"StringExpression[a, b]"},
	"E ! !":                    {"Factorial2[a]"},
	"E = .":                    {"Unset[a]"},
	"E ~ E":                    {},
	"E \\[Function] E":         {"Function[a, b]"},
	"E \\[Implies] E":          {"Implies[a, b]"},
	"E \\[Equivalent] E":       {"Equivalent[a, b]"},
	"E \\[Intersection] E":     {"Intersection[a, b]"},
	"E \\[Union] E":            {"Union[a, b]"},
	"E \\[Nand] E":             {"Nand[a, b]"},
	"E \\[Nor] E":              {"Nor[a, b]"},
	"E \\[Xor] E":              {"Xor[a, b]"},
	"E \\[Xnor] E":             {"Xnor[a, b]"},
	"E \\[Cross] E":            {"Cross[a, b]"},
	"E \\[NotElement] E":       {"NotElement[a, b]"},
	"E \\[Transpose]":          {"Transpose[a]"},
	"E \\[Conjugate]":          {"Conjugate[a]"},
	"E \\[ConjugateTranspose]": {"ConjugateTranspose[a]"},
	"IDENT :: Tag :: Tag":      {"MessageName[s, “t”, “t”]"},
	"<< FileName":              {"Get[“file”]"},
	"E >> FileName":            {"Put[a, “file”]"},
	"E >>> FileName":           {"PutAppend[a, “file”]"},
}

func kidText(kids []interface{}) string {
	var o []string
	for _, k := range kids {
		switch x := k.(type) {
		case *pn:
			o = append(o, x.String())
		case []*pn:
			var l []string
			for _, y := range x {
				l = append(l, y.String())
			}
			o = append(o, "{"+strings.Join(l, ", ")+"}")
		default:
			o = append(o, fmt.Sprint(x))
		}
	}
	return strings.Join(o, ", ")
}

func (x *pn) String() string {
	if len(x.kids) == 1 {
		if s, ok := x.kids[0].(string); ok {
			return s
		}
	}
	return "(" + x.prod + " on " + kidText(x.kids) + ")"
}
