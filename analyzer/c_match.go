package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C09", Title: "Pattern constructs match exactly what they say", Run: checkPatterns,
		Explain: "NewMatchIter, IsMatchQ and the iterators they return are interpreted abstractly on every pattern construct over opaque subpatterns (each with every outcome: no match, one match, two matches with different bindings), opaque targets of every kind, every starting binding of the variable concerned (none, the same value, another) and every outcome of tests and conditions. The first match and its bindings are compared with the definition of the construct. Subpatterns that fail after having bound variables in place are part of the outcomes.",
		Assume:  []string{"IsSameQ decides identity (C04); evaluation and substitution are opaque."}})
}

// matchRun interprets the matcher with opaque subpatterns.
type matchRun struct {
	w    *World
	ai   *AI
	mem  aMem
	outs map[string][][2]string // "Pat target" -> matches, each one binding (var, value) or none
	// which opaque expressions are identical: representative by text
	class  map[string]string
	evals  map[string]string // rendered argument of Eval -> symbol name
	attrs  map[string][]string
	deflt  map[string]aVal
	inPlac bool
	asked  map[string]bool
	err    string
}

func newMatchRun(w *World) *matchRun {
	m := &matchRun{w: w, ai: NewAI(w), outs: map[string][][2]string{}, class: map[string]string{}, evals: map[string]string{}, attrs: map[string][]string{}, deflt: map[string]aVal{}, asked: map[string]bool{}}
	m.mem = m.ai.initGlobals(pkgMatcher)
	m.ai.LoopBound = 400
	m.ai.MaxSteps = 400000
	m.ai.mapKeys = map[string]aElem{}
	m.ai.Hook = m.hook
	return m
}

// field of PDManager holding the bindings.
func (w *World) pdField() string {
	if s, ok := w.Type(pkgMatcher, "PDManager").Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Map); ok {
				return s.Field(i).Name()
			}
		}
	}
	return "patternDefined"
}

func (m *matchRun) newPD(mem aMem, name string, b map[string]aVal) aVal {
	return newPD(m.w, m.ai, mem, name, b)
}

func newPD(w *World, ai *AI, mem aMem, name string, b map[string]aVal) aVal {
	f := name + "." + w.pdField()
	if b == nil {
		mem[f] = aNilV
	} else {
		mp := "new:" + name + "map{}"
		mem["live:new:"+name+"map"] = aBool(true)
		mem[f] = one(aElem{Kind: aMap, Key: mp})
		for k, v := range b {
			ke, _ := aStr(k).single()
			mem[mp+"{"+ke.Key+"}"] = v
			ai.mapKeys[mp+"{"+ke.Key+"}"] = ke
		}
	}
	return aObj(name, nil)
}

// bindings of a PDManager value.
func (m *matchRun) readPD(mem aMem, v aVal) (map[string]aVal, string) {
	return readPD(m.w, m.ai, mem, v)
}

func readPD(w *World, ai *AI, mem aMem, v aVal) (map[string]aVal, string) {
	e, ok := v.single()
	if !ok {
		return nil, "bindings not determined: " + v.String()
	}
	o := map[string]aVal{}
	if e.Kind == aNil {
		return o, ""
	}
	mp, ok := mem[e.Key+"."+w.pdField()]
	if !ok {
		if isFresh(e.Key) {
			return o, ""
		}
		return nil, "unknown bindings " + e.Key
	}
	me, ok := mp.single()
	if !ok {
		return nil, "the map of bindings is not determined: " + mp.String()
	}
	if me.Kind == aNil {
		return o, ""
	}
	if _, unk := mem[me.Key+"{?}"]; unk {
		return nil, "unknown bindings"
	}
	for k, x := range mem {
		if !strings.HasPrefix(k, me.Key+"{") {
			continue
		}
		ke, ok := ai.mapKeys[k]
		if !ok || ke.Kind != aConst {
			return nil, "a binding of an unknown variable"
		}
		o[strings.Trim(ke.Key, `"`)] = x
	}
	return o, ""
}

func (m *matchRun) text(mem aMem, v aVal) string { return m.ai.render(mem, v, 0) }

func (m *matchRun) same(a, b string) bool {
	if c, ok := m.class[a]; ok {
		a = c
	}
	if c, ok := m.class[b]; ok {
		b = c
	}
	return a == b
}

// opaquePattern: the name of an opaque subpattern.
func (m *matchRun) opaquePattern(v aVal) string {
	if e, ok := v.single(); ok && strings.HasPrefix(e.Key, "Pat") {
		return e.Key
	}
	return ""
}

func (m *matchRun) mkPat(n string) aVal {
	return m.w.mkExpr(m.mem, "Pat"+n, m.w.mkSym(m.mem, "Pat"+n+"h", "Pat"+n))
}

func (m *matchRun) hook(ai *AI, fr *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
	o := calleeObj(call.Common())
	if o == nil {
		return nil, false
	}
	pk := ""
	if o.Pkg() != nil {
		pk = o.Pkg().Path()
	}
	if call.Common().IsInvoke() && pk == pkgAPI {
		switch o.Name() {
		case "Debugf", "Infof", "Errorf", "SetFrozen":
			return nil, true
		case "IsFrozen":
			return []aVal{aBool(false)}, true
		case "GetLogger", "GetDefinedMap":
			return []aVal{aSymV("es." + o.Name())}, true
		case "Get":
			return m.getDef(args[1]), true
		case "Eval":
			t := m.text(st.mem, args[1])
			m.asked[t] = true
			if s, ok := m.evals[t]; ok {
				return []aVal{m.w.mkSym(st.mem, "res:"+s, s)}, true
			}
			m.err = "evaluates " + t
			return []aVal{aSymV("E(" + t + ")")}, true
		case "DeepCopy", "Copy":
			return []aVal{args[0]}, true
		}
	}
	if o.Name() == "DeepCopy" || o.Name() == "Copy" {
		return []aVal{args[0]}, true
	}
	if pk == pkgAtoms && o.Name() == "IsSameQ" && len(args) == 2 {
		return []aVal{aBool(m.same(m.text(st.mem, args[0]), m.text(st.mem, args[1])))}, true
	}
	if call.Common().IsInvoke() && o.Name() == "Next" {
		if e, ok := args[0].single(); ok && strings.HasPrefix(e.Key, "iter:") {
			i, _ := st.mem[e.Key+".$i"].integer()
			n, _ := st.mem[e.Key+".$n"].integer()
			st.mem[e.Key+".$i"] = aInt(int64(i + 1))
			if i < n {
				// the last match may come with or before the end
				return []aVal{aBool(true), st.mem[fmt.Sprintf("%s.$%d", e.Key, i)], aBool(i == n-1 && m.inPlac)}, true
			}
			return []aVal{aBool(false), st.mem[e.Key+".$pm"], aBool(true)}, true
		}
	}
	if pk == pkgMatcher && o.Name() == "ReplacePD" && len(args) == 3 {
		b, err := m.readPD(st.mem, args[2])
		if err != "" {
			m.err = err
		}
		return []aVal{aSymV(fmt.Sprintf("(%s with %s)", m.text(st.mem, args[0]), m.showPD(st.mem, b)))}, true
	}
	if pk == pkgMatcher && (o.Name() == "IsMatchQ" || o.Name() == "NewMatchIter") && len(args) == 4 {
		p := m.opaquePattern(args[1])
		if p == "" {
			return nil, false
		}
		return m.subMatch(fr, call, st, o.Name(), p, args), true
	}
	return nil, false
}

func (m *matchRun) showPD(mem aMem, b map[string]aVal) string {
	var o []string
	for k, v := range b {
		o = append(o, k+"="+m.text(mem, v))
	}
	sort.Strings(o)
	return "{" + strings.Join(o, ",") + "}"
}

func (m *matchRun) getDef(name aVal) []aVal {
	s, ok := name.str()
	d := zeroOf(m.w.Type(pkgAPI, "Def"))
	if !ok {
		return []aVal{d, aBool(false)}
	}
	as, has := m.attrs[s]
	if !has && m.deflt[s].Els == nil {
		return []aVal{d, aBool(false)}
	}
	f := map[string]aVal{}
	for k, v := range d.Els[0].Flds {
		f[k] = v
	}
	af := map[string]aVal{}
	for k, v := range f["Attributes"].Els[0].Flds {
		af[k] = v
	}
	for _, a := range as {
		af[a] = aBool(true)
	}
	f["Attributes"] = mkStruct(af)
	if v, ok := m.deflt[s]; ok {
		f["DefaultExpr"] = v
	}
	return []aVal{mkStruct(f), aBool(true)}
}

// subMatch: the outcome of matching an opaque pattern.
func (m *matchRun) subMatch(fr *aFrame, call ssa.CallInstruction, st *aState, fname, p string, args []aVal) []aVal {
	t := m.text(st.mem, args[0])
	pm, err := m.readPD(st.mem, args[2])
	if err != "" {
		m.err = err
	}
	outs, known := m.outs[p+" "+t]
	if !known {
		outs = nil
	}
	name := fr.freshName(call.(ssa.Value))
	var pds []aVal
	for i, b := range outs {
		nb := map[string]aVal{}
		for k, v := range pm {
			nb[k] = v
		}
		if b[0] != "" {
			if old, ok := nb[b[0]]; ok && !m.same(m.text(st.mem, old), b[1]) {
				continue
			}
			nb[b[0]] = aSymV(b[1])
		}
		pd := m.newPD(st.mem, fmt.Sprintf("%s_pd%d", name, i), nb)
		pds = append(pds, pd)
	}
	if m.inPlac && len(pds) < 2 {
		// the bindings are written into the given manager, also by a failing match
		if e, ok := args[2].single(); ok && e.Kind == aAddr {
			b := pm
			if len(pds) == 1 {
				b, _ = m.readPD(st.mem, pds[0])
				pds[0] = args[2]
			} else {
				b["junk"] = aSymV("junk")
			}
			mp, _ := st.mem[e.Key+"."+m.w.pdField()].single()
			if mp.Kind != aMap {
				mp = aElem{Kind: aMap, Key: "new:" + name + "_map{}"}
				st.mem["live:new:"+name+"_map"] = aBool(true)
				st.mem[e.Key+"."+m.w.pdField()] = one(mp)
			}
			for k, v := range b {
				ke, _ := aStr(k).single()
				st.mem[mp.Key+"{"+ke.Key+"}"] = v
				m.ai.mapKeys[mp.Key+"{"+ke.Key+"}"] = ke
			}
		}
	}
	if fname == "IsMatchQ" {
		if len(pds) > 0 {
			return []aVal{aBool(true), pds[0]}
		}
		return []aVal{aBool(false), args[2]}
	}
	if len(pds) == 0 && !m.inPlac {
		return []aVal{aNilV, aBool(false)}
	}
	it := "iter:" + name
	st.mem[it+".$i"] = aInt(0)
	st.mem[it+".$n"] = aInt(int64(len(pds)))
	st.mem[it+".$pm"] = args[2]
	for i, pd := range pds {
		st.mem[fmt.Sprintf("%s.$%d", it, i)] = pd
	}
	return []aVal{aObj(it, nil), aBool(true)}
}

// first match: "no match", or the bindings.
func (m *matchRun) match(a, b aVal, start map[string]aVal) string {
	fn := m.w.fnOpt(pkgMatcher, "IsMatchQ")
	if fn == nil {
		return "IsMatchQ is missing"
	}
	pd := m.newPD(m.mem, "pd0", start)
	res, mem := m.ai.Run(fn, []aVal{a, b, pd, aSymV("es")}, m.mem)
	if len(res) != 2 {
		return "no result " + m.ai.giveUps()
	}
	ok, dec := res[0].boolean()
	if !dec || m.err != "" {
		return fmt.Sprintf("not determined (%v) %s %s", res[0], m.err, m.ai.giveUps())
	}
	if !ok {
		return "no match"
	}
	bs, err := m.readPD(mem, res[1])
	if err != "" {
		return err + " " + m.ai.giveUps()
	}
	for k, v := range start {
		if _, ok := bs[k]; !ok {
			bs[k] = v
		}
	}
	return "match " + m.showPD(mem, bs)
}

// all matches in order.
func (m *matchRun) matches(a, b aVal, start map[string]aVal, max int) []string {
	fn := m.w.fnOpt(pkgMatcher, "NewMatchIter")
	if fn == nil {
		return []string{"NewMatchIter is missing"}
	}
	pd := m.newPD(m.mem, "pd0", start)
	res, mem := m.ai.Run(fn, []aVal{a, b, pd, aSymV("es")}, m.mem)
	if len(res) != 2 {
		return []string{"no result " + m.ai.giveUps()}
	}
	cont, dec := res[1].boolean()
	if !dec || m.err != "" {
		return []string{fmt.Sprintf("not determined (%v) %s %s", res[1], m.err, m.ai.giveUps())}
	}
	var out []string
	for n := 0; cont; n++ {
		if n > max {
			return append(out, "...")
		}
		var r []aVal
		var err error
		r, mem, err = m.ai.RunMethod(res[0], "Next", nil, mem)
		if err != nil || len(r) != 3 {
			return append(out, fmt.Sprint("Next gives nothing ", err, m.ai.giveUps()))
		}
		ok, d1 := r[0].boolean()
		done, d2 := r[2].boolean()
		if !d1 || !d2 || m.err != "" {
			return append(out, fmt.Sprintf("not determined (%v, %v) %s %s", r[0], r[2], m.err, m.ai.giveUps()))
		}
		cont = !done
		if !ok {
			continue
		}
		bs, e := m.readPD(mem, r[1])
		if e != "" {
			return append(out, e)
		}
		for k, v := range start {
			if _, ok := bs[k]; !ok {
				bs[k] = v
			}
		}
		out = append(out, m.showPD(mem, bs))
	}
	return out
}

var outcomes = map[string][][2]string{
	"fails":              nil,
	"matches":            {{"", ""}},
	"matches with y":     {{"y", "v1"}},
	"matches with y, y'": {{"y", "v1"}, {"y", "v2"}},
}

// firstOf: the first binding of an outcome compatible with the start.
func firstOf(o [][2]string, start map[string]string) (map[string]string, bool) {
	for _, b := range o {
		if old, ok := start[b[0]]; ok && b[0] != "" && old != b[1] {
			continue
		}
		r := map[string]string{}
		for k, v := range start {
			r[k] = v
		}
		if b[0] != "" {
			r[b[0]] = b[1]
		}
		return r, true
	}
	return nil, false
}

func showB(b map[string]string) string {
	var o []string
	for k, v := range b {
		o = append(o, k+"="+v)
	}
	sort.Strings(o)
	return "match {" + strings.Join(o, ",") + "}"
}

func checkPatterns(w *World, r *Report) {
	where := w.Pos(w.Fn(pkgMatcher, "NewMatchIter").Pos())
	n := 0
	onames := []string{"fails", "matches", "matches with y", "matches with y, y'"}
	starts := []map[string]string{{}, {"y": "v1"}, {"y": "v2"}, {"z": "v0"}}
	vals := func(b map[string]string) map[string]aVal {
		if len(b) == 0 {
			return nil
		}
		o := map[string]aVal{}
		for k, v := range b {
			o[k] = aSymV(v)
		}
		return o
	}
	verify := func(rule, cons string, m *matchRun, a, b aVal, start map[string]string, want string) {
		n++
		got := m.match(a, b, vals(start))
		r.check(rule, cons, where, got == want, fmt.Sprintf("%s gives %s instead of %s", cons, got, want))
	}
	targets := map[string]func(m *matchRun) aVal{
		"an atom": func(m *matchRun) aVal { return w.mkString(m.mem, "t", "t") },
		"g[u]": func(m *matchRun) aVal {
			return w.mkExpr(m.mem, "t", w.mkSym(m.mem, "th", "Global`g"), w.mkSym(m.mem, "tu", "Global`u"))
		},
		"g[u, v]": func(m *matchRun) aVal {
			return w.mkExpr(m.mem, "t", w.mkSym(m.mem, "th", "Global`g"), w.mkSym(m.mem, "tu", "Global`u"), w.mkSym(m.mem, "tv", "Global`v"))
		},
	}
	mk := func(m *matchRun, head string, ps ...aVal) aVal {
		return w.mkExpr(m.mem, "pattern", append([]aVal{w.mkSym(m.mem, "patternh", "System`"+head)}, ps...)...)
	}
	for _, tn := range []string{"an atom", "g[u]", "g[u, v]"} {
		for _, inPlace := range []bool{false, true} {
			for si, start := range starts {
				fresh := func() (*matchRun, aVal, string) {
					m := newMatchRun(w)
					m.inPlac = inPlace
					t := targets[tn](m)
					return m, t, m.text(m.mem, t)
				}
				sfx := fmt.Sprintf(" on %s, start %d", tn, si)
				for _, o1 := range onames {
					out1 := outcomes[o1]
					b1, ok1 := firstOf(out1, start)
					res1 := "no match"
					if ok1 {
						res1 = showB(b1)
					}
					not1 := "no match"
					if !ok1 {
						not1 = showB(start)
					}
					for _, c := range []struct{ head, want string }{{"HoldPattern", res1}, {"Optional", res1}, {"Except", not1}, {"Alternatives", res1}} {
						m, t, tt := fresh()
						m.outs["PatP "+tt] = out1
						verify("construct", fmt.Sprintf("%s[P] where P %s%s", c.head, o1, sfx), m, t, mk(m, c.head, m.mkPat("P")), start, c.want)
					}
					// PatternTest
					for _, ev := range []string{"System`True", "System`False", "Global`True", "Global`other"} {
						m, t, tt := fresh()
						m.outs["PatP "+tt] = out1
						m.evals["Global`test["+tt+"]"] = ev
						want := "no match"
						if ok1 && ev == "System`True" {
							want = res1
						}
						verify("construct", fmt.Sprintf("PatternTest[P, test] where P %s and the test gives %s%s", o1, ev, sfx), m, t,
							mk(m, "PatternTest", m.mkPat("P"), w.mkSym(m.mem, "test", "Global`test")), start, want)
					}
					// the test NumberQ
					if tn == "an atom" && o1 == "matches with y" {
						for _, k := range allKinds {
							m := newMatchRun(w)
							m.inPlac = inPlace
							t := w.mkExpr(m.mem, "t", w.mkSym(m.mem, "th", "Global`g"), w.mkSym(m.mem, "tu", "Global`u"))
							if k != kExpr {
								t = w.mkAtom(m.mem, "t", k)
							}
							tt := m.text(m.mem, t)
							m.outs["PatP "+tt] = out1
							m.evals["System`NumberQ["+tt+"]"] = "System`True"
							want := res1
							if k == kStr || k == kSymb || k == kExpr {
								m.evals["System`NumberQ["+tt+"]"] = "System`False"
								want = "no match"
							}
							verify("construct", fmt.Sprintf("PatternTest[P, NumberQ] on a %s, start %d", k, si), m, t,
								mk(m, "PatternTest", m.mkPat("P"), w.mkSym(m.mem, "test", "System`NumberQ")), start, want)
						}
					}
					for _, o2 := range onames {
						out2 := outcomes[o2]
						b2, ok2 := firstOf(out2, start)
						res2 := "no match"
						if ok2 {
							res2 = showB(b2)
						}
						want := res1
						if !ok1 {
							want = res2
						}
						m, t, tt := fresh()
						m.outs["PatP "+tt], m.outs["PatQ "+tt] = out1, out2
						verify("construct", fmt.Sprintf("Alternatives[P, Q] where P %s and Q %s%s", o1, o2, sfx), m, t, mk(m, "Alternatives", m.mkPat("P"), m.mkPat("Q")), start, want)
						m, t, tt = fresh()
						m.outs["PatP "+tt], m.outs["PatQ "+tt] = out1, out2
						want = "no match"
						if !ok1 {
							want = res2
						}
						verify("construct", fmt.Sprintf("Except[P, Q] where P %s and Q %s%s", o1, o2, sfx), m, t, mk(m, "Except", m.mkPat("P"), m.mkPat("Q")), start, want)
					}
					// Condition: the first match whose condition is True
					for c := 0; c < 1<<len(out1); c++ {
						m, t, tt := fresh()
						m.outs["PatP "+tt] = out1
						want := "no match"
						for i, b := range out1 {
							bb, ok := firstOf([][2]string{b}, start)
							if !ok {
								continue
							}
							ev := "System`False"
							if c>>i&1 == 1 {
								ev = "System`True"
								if want == "no match" {
									want = showB(bb)
								}
							} else if c == 0 && i == 0 {
								ev = "Global`other"
							}
							m.evals["(cond with "+strings.TrimPrefix(showB(bb), "match ")+")"] = ev
						}
						verify("construct", fmt.Sprintf("Condition[P, cond] where P %s and the conditions are %b%s", o1, c, sfx), m, t, mk(m, "Condition", m.mkPat("P"), aSymV("cond")), start, want)
					}
				}
			}
		}
	}
	r.count("construct cases", n)
	r.atLeast("construct cases", 500)

	// blanks
	n0 := n
	heads := map[atomKind]string{kInt: "System`Integer", kFlt: "System`Real", kStr: "System`String", kSymb: "System`Symbol", kRat: "System`Rational", kCplx: "System`Complex", kExpr: "Global`g"}
	for _, k := range allKinds {
		for _, bl := range []string{"Blank", "BlankSequence", "BlankNullSequence"} {
			for _, h := range append([]string{""}, "System`Integer", "System`Real", "System`String", "System`Symbol", "System`Rational", "System`Complex", "Global`g", "Global`h") {
				for _, named := range []bool{false, true} {
					for _, st := range []string{"", "same", "other"} {
						if !named && st != "" {
							continue
						}
						m := newMatchRun(w)
						var t aVal
						if k == kExpr {
							t = targets["g[u]"](m)
						} else if k == kStr {
							t = w.mkString(m.mem, "t", "t")
						} else {
							t = w.mkAtom(m.mem, "t", k)
						}
						var ps []aVal
						if h != "" {
							ps = append(ps, w.mkSym(m.mem, "bh", h))
						}
						b := mk(m, bl, ps...)
						if named {
							b = w.mkExpr(m.mem, "named", w.mkSym(m.mem, "namedh", "System`Pattern"), w.mkSym(m.mem, "namedx", "Global`x"), b)
						}
						tt := m.text(m.mem, t)
						start := map[string]string{}
						if st == "same" {
							start["Global`x"] = tt
						} else if st == "other" {
							start["Global`x"] = "another"
						}
						want := "no match"
						if h == "" || h == heads[k] {
							if st != "other" {
								if named {
									start2 := map[string]string{"Global`x": tt}
									want = showB(start2)
								} else {
									want = showB(start)
								}
							}
						}
						nm := bl
						if h != "" {
							nm += "[" + h + "]"
						}
						if named {
							nm = "Pattern[x, " + nm + "]"
						}
						verify("blank", fmt.Sprintf("%s on %s, x %s", nm, k, map[string]string{"": "unbound", "same": "bound to it", "other": "bound to another"}[st]), m, t, b, start, want)
					}
				}
			}
		}
	}
	r.count("blank cases", n-n0)
	r.atLeast("blank cases", 500)

	// literals
	n0 = n
	for _, k := range allKinds {
		for _, kb := range allKinds {
			for _, same := range []bool{true, false} {
				if k == kExpr && kb == kExpr || k != kb && same || (k == kRat || k == kCplx) && kb == kExpr {
					continue
				}
				m := newMatchRun(w)
				mkA := func(n string, k atomKind) aVal {
					if k == kExpr {
						return w.mkExpr(m.mem, n, w.mkSym(m.mem, n+"h", "Global`"+n), w.mkSym(m.mem, n+"u", "Global`u"))
					}
					return w.mkAtom(m.mem, n, k)
				}
				a, b := mkA("a", k), mkA("b", kb)
				want := "no match"
				if same {
					m.class[m.text(m.mem, a)] = m.text(m.mem, b)
					want = showB(nil)
				}
				verify("literal", fmt.Sprintf("%s against %s, identical: %v", k, kb, same), m, a, b, nil, want)
			}
		}
	}
	// rational and complex numbers against Rational[P, Q], Complex[P, Q]
	for _, k := range []atomKind{kRat, kCplx} {
		for _, h := range []string{"System`Rational", "System`Complex", "Global`g"} {
			for np := 1; np <= 3; np++ {
				for mask := 0; mask < 4; mask++ {
					m := newMatchRun(w)
					a := w.mkAtom(m.mem, "a", k, kRat, kInt)
					e, _ := a.single()
					var c1, c2 string
					if k == kRat {
						c1, c2 = m.numText("aN"), m.numText("aD")
					} else {
						c1, c2 = m.text(m.mem, m.mem[e.Key+".Re"]), m.text(m.mem, m.mem[e.Key+".Im"])
					}
					ps := []aVal{m.mkPat("P"), m.mkPat("Q"), m.mkPat("R")}[:np]
					if mask&1 != 0 {
						m.outs["PatP "+c1] = [][2]string{{"y", "v1"}}
					}
					if mask&2 != 0 {
						m.outs["PatQ "+c2] = [][2]string{{"z", "v2"}}
					}
					b := w.mkExpr(m.mem, "b", append([]aVal{w.mkSym(m.mem, "bh", h)}, ps...)...)
					want := "no match"
					if np == 2 && mask == 3 && h == heads[k] {
						want = showB(map[string]string{"y": "v1", "z": "v2"})
					}
					verify("literal", fmt.Sprintf("%s against %s of %d patterns, matching %b", k, h, np, mask), m, a, b, nil, want)
				}
			}
		}
	}
	r.count("literal cases", n-n0)
	r.atLeast("literal cases", 60)
}

// numText renders an Integer of the big number object.
func (m *matchRun) numText(obj string) string {
	m.mem["probe.Val"] = aObj(obj, nil)
	return m.text(m.mem, aObj("probe", m.w.ptrTo(kInt)))
}
