package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	register(&Check{ID: "C05", Title: "Copies equal their originals and share nothing that can change", Run: checkCopy,
		Explain: "DeepCopy, Copy and ShallowCopy are interpreted abstractly on a symbolic value of every kind and on expressions that hold every kind at several depths; the result is compared with the original object by object: kind, content, caches, and which storage is shared. The constructors and the appending, setting, exchanging and reading of parts are interpreted on lists of zero to four parts."})
}

// copyTree compares the copy c with the original o. mode: deep, copy or shallow.
func (ai *AI) copyTree(mem aMem, o, c aVal, mode, path string, seen map[string]bool) []string {
	oe, ok := o.single()
	if !ok {
		return []string{path + ": original not determined"}
	}
	ce, ok := c.single()
	if !ok {
		return []string{fmt.Sprintf("%s: the copy is not determined (%v) %s", path, c, ai.giveUps())}
	}
	if oe.Kind == aSym { // an opaque value
		if ce.id() != oe.id() {
			return []string{fmt.Sprintf("%s: the copy holds %s instead of %s", path, ce.id(), oe.id())}
		}
		return nil
	}
	if kindOf(ce) != kindOf(oe) {
		return []string{fmt.Sprintf("%s: the copy of a %s is %s", path, kindOf(oe), kindOf(ce))}
	}
	var bad []string
	k := kindOf(oe)
	st := &aState{mem: mem}
	if ce.Key == oe.Key {
		if mode == "deep" && k != kStr && k != kSymb {
			bad = append(bad, fmt.Sprintf("%s: the copy is the original %s itself", path, k))
		}
		if k == kExpr {
			bad = append(bad, fmt.Sprintf("%s: the copy is the original expression itself", path))
		}
		return bad
	}
	// caches: a copied hash is the original's or none
	if s, ok := ai.W.Type(pkgAtoms, string(k)).Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint64 {
				continue
			}
			cv := aiLoad(st, ce.Key+"."+f.Name(), f.Type())
			ov := aiLoad(st, oe.Key+"."+f.Name(), f.Type())
			if n, ok := cv.integer(); ok && n == 0 {
				continue
			}
			if cv.key() != ov.key() {
				bad = append(bad, fmt.Sprintf("%s: the copy's %s is %v, not that of the original", path, f.Name(), cv))
			}
		}
	}
	switch k {
	case kInt, kRat, kFlt:
		ov, err1 := ai.valueOf(mem, oe)
		cv, err2 := ai.valueOf(mem, ce)
		if err1 != nil || err2 != nil {
			return append(bad, fmt.Sprintf("%s: value not determined: %v %v", path, err1, err2))
		}
		if !cEq(ov, cv) {
			bad = append(bad, fmt.Sprintf("%s: the copy of the %s %v is %v", path, k, ov, cv))
		}
		if mode == "deep" {
			for _, f := range []string{"Val", "Num", "Den"} {
				a, ok := mem[oe.Key+"."+f]
				if ok && a.key() == mem[ce.Key+"."+f].key() {
					bad = append(bad, fmt.Sprintf("%s: the copy shares the number %s of the original", path, f))
				}
			}
			if k == kRat {
				if mem[ce.Key+".Num"].key() == mem[ce.Key+".Den"].key() {
					bad = append(bad, path+": numerator and denominator of the copy are one object")
				}
			}
		}
	case kCplx:
		for _, f := range []string{"Re", "Im"} {
			bad = append(bad, ai.copyTree(mem, mem[oe.Key+"."+f], mem[ce.Key+"."+f], mode, path+"."+f, seen)...)
		}
	case kStr:
		if a, b := aiLoad(st, oe.Key+".Val", types.Typ[types.String]), aiLoad(st, ce.Key+".Val", types.Typ[types.String]); a.key() != b.key() {
			bad = append(bad, fmt.Sprintf("%s: the text of the copy is %v", path, b))
		}
	case kSymb:
		if a, b := aiLoad(st, oe.Key+".Name", types.Typ[types.String]), aiLoad(st, ce.Key+".Name", types.Typ[types.String]); a.key() != b.key() {
			bad = append(bad, fmt.Sprintf("%s: the name of the copy is %v", path, b))
		}
	case kExpr:
		ol, b1 := ai.parts(mem, oe)
		cl, b2 := ai.parts(mem, ce)
		if b1 == "" || len(ol) > 0 && b1 == b2 {
			bad = append(bad, fmt.Sprintf("%s: the copy shares the part list of the original", path))
		}
		if len(ol) != len(cl) {
			return append(bad, fmt.Sprintf("%s: the copy has %d parts, the original %d %s", path, len(cl), len(ol), ai.giveUps()))
		}
		for i := range ol {
			if mode == "shallow" {
				if ol[i].key() != cl[i].key() {
					bad = append(bad, fmt.Sprintf("%s: part %d of the shallow copy is %v instead of %v", path, i, cl[i], ol[i]))
				}
				continue
			}
			bad = append(bad, ai.copyTree(mem, ol[i], cl[i], mode, fmt.Sprintf("%s[%d]", path, i), seen)...)
		}
	}
	return bad
}

// parts of an expression object and the base of the list.
func (ai *AI) parts(mem aMem, e aElem) ([]aVal, string) {
	pe, ok := mem[e.Key+".Parts"].single()
	if !ok || pe.Kind != aSlice {
		return nil, "none"
	}
	st := &aState{mem: mem}
	n := sliceLen(st, pe)
	var o []aVal
	for i := 0; i < n; i++ {
		o = append(o, aiLoad(st, fmt.Sprintf("%s[%d]", pe.Base, pe.Lo+i), ai.W.Type(pkgAPI, "Ex")))
	}
	return o, pe.Base
}

func (w *World) copySamples(mem aMem) map[string]aVal {
	o := map[string]aVal{}
	for _, k := range allKinds {
		if k == kCplx || k == kExpr {
			continue
		}
		o[string(k)] = w.mkAtom(mem, "o"+string(k), k)
	}
	for _, re := range []atomKind{kInt, kRat, kFlt} {
		for _, im := range []atomKind{kInt, kRat, kFlt} {
			o["Complex of "+string(re)+" and "+string(im)] = w.mkAtom(mem, "oC"+string(re)+string(im), kCplx, re, im)
		}
	}
	all := func(p string) []aVal {
		var ps []aVal
		for _, k := range allKinds {
			if k != kExpr {
				ps = append(ps, w.mkAtom(mem, p+string(k), k))
			}
		}
		return ps
	}
	o["Expression f[]"] = w.mkExpr(mem, "oe1", w.mkSym(mem, "oe1h", "Global`f"))
	o["Expression with an atom of every kind"] = w.mkExpr(mem, "oe2", append([]aVal{w.mkSym(mem, "oe2h", "Global`f")}, all("oe2p")...)...)
	inner := w.mkExpr(mem, "oe3i", append([]aVal{w.mkSym(mem, "oe3ih", "Global`g")}, all("oe3p")...)...)
	empty := w.mkExpr(mem, "oe3e", w.mkSym(mem, "oe3eh", "Global`h"))
	mid := w.mkExpr(mem, "oe3m", w.mkSym(mem, "oe3mh", "Global`k"), inner, empty)
	o["Expression three levels deep"] = w.mkExpr(mem, "oe3", mid, w.mkAtom(mem, "oe3n", kInt), mid, inner)
	o["Expression with a compound head"] = w.mkExpr(mem, "oe4", w.mkExpr(mem, "oe4h", w.mkSym(mem, "oe4hh", "Global`f"), w.mkAtom(mem, "oe4n", kInt)), w.mkAtom(mem, "oe4r", kRat))
	for n, v := range o {
		e, _ := v.single()
		if k := kindOf(e); k == kExpr || k == kInt {
			_ = n
			for f, t := range map[string]types.Type{"EvaledHash": nil, "CachedHash": nil, "cachedHash": nil} {
				_ = t
				mem[e.Key+"."+f] = aSymV("the " + f + " of " + e.Key)
			}
		}
	}
	return o
}

func checkCopy(w *World, r *Report) {
	runs := 0
	ns := map[string]bool{}
	for n := range w.copySamples(aMem{}) {
		ns[n] = true
	}
	at := func(k string) string {
		if f := w.fnOpt(pkgAtoms, strings.Fields(k)[0]+".DeepCopy"); f != nil {
			return w.Pos(f.Pos())
		}
		return pkgAtoms
	}
	for _, n := range keys(ns) {
		for _, m := range []struct{ method, mode string }{{"DeepCopy", "deep"}, {"Copy", "copy"}, {"ShallowCopy", "shallow"}} {
			if m.mode == "shallow" && !strings.HasPrefix(n, "Expression") {
				continue
			}
			ai := NewAI(w)
			ai.LoopBound = 24
			mem := aMem{}
			v := w.copySamples(mem)[n]
			var res []aVal
			var out aMem
			var err error
			if m.mode == "shallow" {
				f := w.fnOpt(pkgAtoms, "ShallowCopy")
				if f == nil {
					continue
				}
				res, out = ai.Run(f, []aVal{v}, mem)
				w.asExpr(res)
			} else {
				res, out, err = ai.RunMethod(v, m.method, nil, mem)
			}
			runs++
			var bad []string
			if err != nil || len(res) != 1 {
				bad = append(bad, fmt.Sprint(err, ai.giveUps()))
			} else {
				bad = ai.copyTree(out, v, res[0], m.mode, "it", nil)
				// an expression that needs evaluation still does
				if e, _ := v.single(); kindOf(e) == kRat || kindOf(e) == kCplx {
					o, _, _ := ai.RunMethod(v, "NeedsEval", nil, out)
					c, _, _ := ai.RunMethod(res[0], "NeedsEval", nil, out)
					if len(o) == 1 && len(c) == 1 && o[0].key() != c[0].key() {
						if b, ok := c[0].boolean(); !ok || !b {
							bad = append(bad, fmt.Sprintf("whether the copy needs evaluation (%v) is not that of the original (%v)", c[0], o[0]))
						}
					}
				}
			}
			r.check("copy", fmt.Sprintf("%s of %s", m.method, n), at(n), len(bad) == 0, strings.Join(bad, "; "))
		}
	}
	r.count("copies", runs)
	r.atLeast("copies", 30)
	checkParts(w, r)
}

func checkParts(w *World, r *Report) {
	atExpr := w.Pos(w.Fn(pkgAtoms, "Expression.AppendEx").Pos())
	n := 0
	texts := func(vs []aVal) string {
		var o []string
		for _, v := range vs {
			o = append(o, strings.TrimPrefix(v.key(), "sym:"))
		}
		return strings.Join(o, ",")
	}
	try := func(what string, l int, f func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string)) {
		for _, spare := range []bool{false, true} {
			ai := NewAI(w)
			mem := aMem{}
			var ps []aVal
			for i := 0; i < l; i++ {
				ps = append(ps, aSymV(fmt.Sprintf("p%d", i)))
			}
			e := w.mkExpr(mem, "e", ps...)
			_ = spare
			res, out, want, err := f(ai, mem, e)
			n++
			got := "not determined"
			if re, ok := res.single(); ok && err == "" {
				if kindOf(re) == kExpr {
					p, _ := ai.parts(out, re)
					got = texts(p)
				} else if re.Kind == aSym {
					got = re.Key
				} else {
					got = ai.render(out, res, 0)
				}
			}
			r.check("parts", fmt.Sprintf("%s, %d parts", what, l), atExpr, err == "" && got == want, fmt.Sprintf("gives %s instead of %s %s %s", got, want, err, ai.giveUps()))
			break
		}
	}
	orig := func(l int) []string {
		var o []string
		for i := 0; i < l; i++ {
			o = append(o, fmt.Sprintf("p%d", i))
		}
		return o
	}
	run := func(ai *AI, mem aMem, e aVal, m string, args ...aVal) ([]aVal, aMem, string) {
		res, out, err := ai.RunMethod(e, m, args, mem)
		if err != nil {
			return res, out, err.Error()
		}
		return res, out, ""
	}
	for l := 0; l <= 4; l++ {
		l := l
		try("AppendEx", l, func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string) {
			_, out, err := run(ai, mem, e, "AppendEx", aSymV("new"))
			return e, out, strings.Join(append(orig(l), "new"), ","), err
		})
		for m := 0; m <= 3; m++ {
			m := m
			try(fmt.Sprintf("AppendExArray of %d", m), l, func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string) {
				want := orig(l)
				for i := 0; i < m; i++ {
					mem[fmt.Sprintf("N[%d]", i)] = aSymV(fmt.Sprintf("n%d", i))
					want = append(want, fmt.Sprintf("n%d", i))
				}
				_, out, err := run(ai, mem, e, "AppendExArray", aList("N", m))
				return e, out, strings.Join(want, ","), err
			})
			try(fmt.Sprintf("SetParts of %d", m), l, func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string) {
				var want []string
				for i := 0; i < m; i++ {
					mem[fmt.Sprintf("N[%d]", i)] = aSymV(fmt.Sprintf("n%d", i))
					want = append(want, fmt.Sprintf("n%d", i))
				}
				_, out, err := run(ai, mem, e, "SetParts", aList("N", m))
				return e, out, strings.Join(want, ","), err
			})
		}
		for i := 0; i < l; i++ {
			i := i
			try(fmt.Sprintf("GetPart(%d)", i), l, func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string) {
				res, out, err := run(ai, mem, e, "GetPart", aInt(int64(i)))
				return first(res), out, fmt.Sprintf("p%d", i), err
			})
			for j := 0; i > 0 && j < l-1; j++ {
				j := j
				try(fmt.Sprintf("Swap(%d,%d)", i-1, j), l, func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string) {
					want := orig(l)
					want[i], want[j+1] = want[j+1], want[i]
					_, out, err := run(ai, mem, e, "Swap", aInt(int64(i-1)), aInt(int64(j)))
					return e, out, strings.Join(want, ","), err
				})
			}
		}
		if l > 0 {
			try("Len", l, func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string) {
				res, out, err := run(ai, mem, e, "Len")
				return first(res), out, fmt.Sprint(l - 1), err
			})
		}
		try("GetParts", l, func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string) {
			res, out, err := run(ai, mem, e, "GetParts")
			if err != "" {
				return aTop, out, "", err
			}
			out["x.Parts"] = first(res)
			return aObj("x", w.ptrTo(kExpr)), out, strings.Join(orig(l), ","), ""
		})
		for _, c := range []string{"NewExpression", "E"} {
			f := w.fnOpt(pkgAtoms, c)
			if f == nil {
				continue
			}
			try(c, l, func(ai *AI, mem aMem, e aVal) (aVal, aMem, string, string) {
				for i := 0; i < l; i++ {
					mem[fmt.Sprintf("N[%d]", i)] = aSymV(fmt.Sprintf("p%d", i))
				}
				res, out := ai.Run(f, []aVal{aList("N", l)}, mem)
				w.asExpr(res)
				return first(res), out, strings.Join(orig(l), ","), ""
			})
		}
	}
	// heads
	heads := map[string]func(mem aMem) aVal{
		"f":    func(mem aMem) aVal { return w.mkSym(mem, "h", "f") },
		"g":    func(mem aMem) aVal { return w.mkSym(mem, "h", "g") },
		"f[1]": func(mem aMem) aVal { return w.mkExpr(mem, "h", w.mkSym(mem, "hh", "f"), w.mkAtom(mem, "h1", kInt)) },
		"g[1]": func(mem aMem) aVal { return w.mkExpr(mem, "h", w.mkSym(mem, "hh", "g"), w.mkAtom(mem, "h1", kInt)) },
		"f[1][1]": func(mem aMem) aVal {
			in := w.mkExpr(mem, "hi", w.mkSym(mem, "hih", "f"), w.mkAtom(mem, "hi1", kInt))
			return w.mkExpr(mem, "h", in, w.mkAtom(mem, "h1", kInt))
		},
		"“f”": func(mem aMem) aVal { return w.mkString(mem, "h", "f") },
		"1":   func(mem aMem) aVal { return w.mkAtom(mem, "h", kInt) },
	}
	for _, h := range []string{"f", "g", "f[1]", "g[1]", "f[1][1]", "“f”", "1"} {
		for _, op := range []string{"HeadStr", "HeadAssertion", "OperatorAssertion", "HeadAssertion of an atom"} {
			ai := NewAI(w)
			mem := aMem{}
			hv := heads[h](mem)
			e := w.mkExpr(mem, "e", hv, aSymV("p1"))
			var res []aVal
			var err error
			want, got := "", ""
			switch op {
			case "HeadStr":
				res, _, err = ai.RunMethod(e, "HeadStr", nil, mem)
				want = fmt.Sprintf("%q", map[string]string{"f": "f", "g": "g"}[h])
				if s, ok := first(res).str(); ok {
					got = fmt.Sprintf("%q", s)
				}
			case "HeadAssertion", "HeadAssertion of an atom":
				f := w.fnOpt(pkgAtoms, "HeadAssertion")
				if f == nil {
					continue
				}
				a := e
				want = fmt.Sprint(h == "f")
				if op != "HeadAssertion" {
					a = hv
					want = fmt.Sprint(h == "f[1]")
				}
				res, _ = ai.Run(f, []aVal{a, aStr("f")}, mem)
				if b, ok := last(res).boolean(); ok {
					got = fmt.Sprint(b)
					if b && first(res).key() != a.key() {
						got = "another expression"
					}
				}
			case "OperatorAssertion":
				f := w.fnOpt(pkgAtoms, "OperatorAssertion")
				if f == nil {
					continue
				}
				want = fmt.Sprint(h == "f[1]")
				res, _ = ai.Run(f, []aVal{e, aStr("f")}, mem)
				if b, ok := last(res).boolean(); ok {
					got = fmt.Sprint(b)
					if b && (len(res) != 3 || res[0].key() != e.key() || res[1].key() != hv.key()) {
						got = "other expressions"
					}
				}
			}
			n++
			r.check("heads", fmt.Sprintf("%s where the head is %s", op, h), atExpr, err == nil && got == want, fmt.Sprintf("gives %s instead of %s %v %s", got, want, first(res), ai.giveUps()))
		}
	}
	r.count("accessors", n)
	r.atLeast("accessors", 100)
}

func first(v []aVal) aVal {
	if len(v) == 0 {
		return aTop
	}
	return v[0]
}

func last(v []aVal) aVal {
	if len(v) == 0 {
		return aTop
	}
	return v[len(v)-1]
}

// asExpr gives the dynamic type to results of static type *Expression.
func (w *World) asExpr(vs []aVal) {
	for i, v := range vs {
		if e, ok := v.single(); ok && e.Kind == aAddr && e.Typ == nil {
			vs[i] = aObj(e.Key, w.ptrTo(kExpr))
		}
	}
}
