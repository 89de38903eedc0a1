package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C22", Title: "Text goes to exactly the stream it is written to", Run: checkStreams,
		Explain: "NewStreamManager is interpreted abstractly, then the manager's WriteString for every combination of a stream name (stdout, stderr, any other) and index (missing, 1, 2, any other), with symbolic text and both outcomes of the writer; the write performed and the result are compared with the table of open streams. AsExpr is interpreted under both iteration orders of the stream table. The builtin WriteString is interpreted for both ways to name a stream.",
		Assume:  []string{"A stream name or index that is not one of the constants in the code is treated like any other such name or index."}})
	register(&Check{ID: "C23", Title: "Time counters add up and do not mix", Run: checkTimes,
		Explain: "The counter group is interpreted abstractly: each counter is fed alone and in combination, two groups are merged, and the printed text is compared with the sums and counts, under both iteration orders of maps.",
		Assume:  []string{"Times are represented by sample values of which all sums are exact and distinct or equal as stated."}})
}

func (ai *AI) fieldsText(mem aMem, v aVal) string {
	return ai.render(mem, v, 0)
}

// render describes an expression object structurally.
func (ai *AI) render(mem aMem, v aVal, d int) string {
	if v.Top {
		return "⊤"
	}
	if len(v.Els) != 1 || d > 12 {
		return v.String()
	}
	e := v.Els[0]
	if e.Kind == aNil {
		return "nil"
	}
	st := &aState{mem: mem}
	switch kindOf(e) {
	case kSymb:
		n, ok := mem[e.Key+".Name"]
		if !ok {
			return "Symbol(" + e.Key + ")"
		}
		return n.key1()
	case kStr:
		n, ok := mem[e.Key+".Val"]
		if !ok {
			return "String(" + e.Key + ")"
		}
		return "“" + n.key1() + "”"
	case kInt, kFlt, kRat:
		r, err := ai.realOf(mem, e)
		if err != nil {
			return "number?"
		}
		s := strings.TrimPrefix(r.String(), "num:")
		if kindOf(e) == kFlt {
			s += "."
		}
		return s
	case kExpr:
		pl, ok := mem[e.Key+".Parts"]
		if !ok {
			return "Expression(" + e.Key + ")"
		}
		pe, ok := pl.single()
		if !ok || pe.Kind != aSlice {
			return "Expression?" + pl.String()
		}
		n := sliceLen(st, pe)
		if n < 0 {
			return "Expression(" + e.Key + ")"
		}
		var ps []string
		for i := 0; i < n; i++ {
			ps = append(ps, ai.render(mem, aiLoad(st, fmt.Sprintf("%s[%d]", pe.Base, pe.Lo+i), ai.W.Type(pkgAPI, "Ex")), d+1))
		}
		if n == 0 {
			return "?[]"
		}
		return ps[0] + "[" + strings.Join(ps[1:], ", ") + "]"
	}
	return e.Key
}

// key1 is the text of a constant string, or the symbol.
func (v aVal) key1() string {
	if s, ok := v.str(); ok {
		return s
	}
	return v.key()
}

// ---- C22 ----

func checkStreams(w *World, r *Report) {
	mk := w.Fn(pkgStream, "NewStreamManager")
	where := w.Pos(mk.Pos())
	type event struct{ writer, text string }
	newAI := func(fail bool, ev *[]event) *AI {
		ai := NewAI(w)
		ai.Hook = func(_ *AI, _ *aFrame, call ssa.CallInstruction, fn *ssa.Function, args []aVal, _ *aState) ([]aVal, bool) {
			o := calleeObj(call.Common())
			if o == nil {
				return nil, false
			}
			n := o.FullName()
			if n == "(io.Writer).Write" || n == "(*os.File).Write" || n == "(*os.File).WriteString" || n == "(io.StringWriter).WriteString" {
				*ev = append(*ev, event{args[0].key(), args[1].key()})
			} else if n == "io.WriteString" || n == "fmt.Fprint" {
				*ev = append(*ev, event{args[0].key(), args[1].key()})
			} else {
				return nil, false
			}
			if fail {
				return []aVal{aTop, one(aElem{Kind: aAddr, Key: "the error"})}, true
			}
			return []aVal{aTop, aNilV}, true
		}
		return ai
	}
	names := []string{"stdout", "stderr", "another name"}
	idx := []int64{-1, 1, 2, 3, 0, -2}
	ids := map[string]int64{"stdout": 1, "stderr": 2}
	files := map[string]string{"stdout": "Stdout", "stderr": "Stderr"}
	for _, n := range names {
		for _, i := range idx {
			for _, fail := range []bool{false, true} {
				var ev []event
				ai := newAI(fail, &ev)
				res, mem := ai.Run(mk, nil, ai.initGlobals(pkgStream))
				if len(res) != 1 {
					r.bad("analysis", "NewStreamManager", where, "not decided: %s", ai.giveUps())
					return
				}
				out, _, err := ai.RunMethod(res[0], "WriteString", []aVal{aStr(n), aInt(i), aSymV("the text")}, mem)
				r.count("writes interpreted", 1)
				cons := fmt.Sprintf("%s, %d", n, i)
				if err != nil || len(out) != 1 {
					r.bad("analysis", cons, where, "not decided: %v %s", err, ai.giveUps())
					continue
				}
				want, open := ids[n]
				open = open && (i == -1 || i == want)
				ok, known := out[0].boolean()
				switch {
				case !known:
					r.bad("write", cons, where, "whether a write to %s succeeds is not determined (%v)", cons, out[0])
				case open && len(ev) == 1 && strings.Contains(ev[0].writer, files[n]) && strings.Contains(ev[0].text, "the text") && ok == !fail:
					r.ok("write", cons, where, "written to os.%s", files[n])
				case !open && len(ev) == 0 && !ok:
					r.ok("write", cons, where, "refused, and nothing is written")
				case open:
					r.bad("write", cons, where, "a write to the open stream (%s) performs the writes %v and reports %v (the writer fails: %v)", cons, ev, ok, fail)
				default:
					r.bad("write", cons, where, "a write to (%s), which is no open stream, performs the writes %v and reports %v", cons, ev, ok)
				}
			}
		}
	}
	// listing
	for _, rev := range []bool{false, true} {
		var ev []event
		ai := newAI(false, &ev)
		ai.MapReverse = rev
		res, mem := ai.Run(mk, nil, ai.initGlobals(pkgStream))
		out, mem, err := ai.RunMethod(res[0], "AsExpr", nil, mem)
		txt := ""
		if err == nil && len(out) == 1 {
			txt = ai.render(mem, out[0], 0)
		}
		want := "System`List[System`OutputStream[“stdout”, 1], System`OutputStream[“stderr”, 2]]"
		r.check("listing", fmt.Sprintf("order %v", rev), where, txt == want, "the open streams are listed as "+txt+" "+ai.giveUps()+", want "+want)
	}
	// the builtin
	b := w.builtins()["WriteString"]
	if b == nil || b.Eval() == nil {
		r.bad("anchor", "WriteString", "", "the builtin WriteString is not registered with a Go function")
		return
	}
	fn := b.Eval()
	where = w.Pos(fn.Pos())
	for _, sh := range []string{"name", "stream"} {
		for _, done := range []bool{true, false} {
			ai := NewAI(w)
			mem := ai.initGlobals(pkgCore)
			var calls []string
			ai.Hook = func(_ *AI, _ *aFrame, call ssa.CallInstruction, callee *ssa.Function, args []aVal, st *aState) ([]aVal, bool) {
				o := calleeObj(call.Common())
				if o == nil {
					return nil, false
				}
				if o.Name() == "GetStreamManager" {
					return []aVal{aSymV("manager")}, true
				}
				if o.FullName() == "("+pkgAPI+".StreamManager).WriteString" {
					var ks []string
					for _, a := range args[1:] {
						ks = append(ks, a.key1())
					}
					calls = append(calls, strings.Join(ks, " | "))
					return []aVal{aBool(done)}, true
				}
				if o.Name() == "IsInt64" {
					return []aVal{aBool(true)}, true
				}
				return nil, false
			}
			name, text := w.mkString(mem, "nm", ""), w.mkString(mem, "tx", "")
			mem["nm.Val"], mem["tx.Val"] = aSymV("the name"), aSymV("the text")
			idx := w.mkAtom(mem, "ix", kInt)
			stream := name
			want := "the name | -1 | the text"
			if sh == "stream" {
				stream = w.mkExpr(mem, "os", w.mkSym(mem, "osh", "System`OutputStream"), name, idx)
				want = "the name | num:ix | the text"
			}
			this := w.mkExpr(mem, "this", w.mkSym(mem, "hd", "System`WriteString"), stream, text)
			res, m := ai.Run(fn, []aVal{this, aSymV("es")}, mem)
			out := "nothing"
			if len(res) == 1 {
				out = ai.render(m, res[0], 0)
			}
			cons := fmt.Sprintf("%s %v", sh, done)
			switch {
			case len(calls) != 1 || calls[0] != want:
				r.bad("builtin", cons, where, "WriteString of a text to a stream given by its %s calls the stream manager with %v instead of once with %s %s", sh, calls, want, ai.giveUps())
			case done && out != "System`Null":
				r.bad("builtin", cons, where, "WriteString that succeeded gives %s", out)
			case !done && (out == "System`Null" || len(res) != 1 || res[0].Top):
				r.bad("builtin", cons, where, "WriteString that failed gives %s", out)
			default:
				r.ok("builtin", cons, where, "writes once and tells the outcome")
			}
		}
	}
	r.atLeast("writes interpreted", 36)
}

// ---- C23 ----

func checkTimes(w *World, r *Report) {
	gt := w.Type(pkgTime, "Group")
	if gt == nil {
		r.bad("anchor", "Group", "", "timecounter.Group is gone")
		return
	}
	pt := types.NewPointer(gt)
	where := w.Pos(gt.Obj().Pos())
	counters := []string{"CounterGroupDefTime", "CounterGroupLHSDefTime", "CounterGroupEvalTime", "CounterGroupHeadEvalTime"}
	var ids []aVal
	seen := map[string]string{}
	for _, c := range counters {
		v, ok := w.constOf(pkgTime, c)
		if !ok {
			r.bad("anchor", c, where, "the counter %s is gone", c)
			return
		}
		if o, dup := seen[v.key()]; dup {
			r.bad("distinct", c, where, "%s and %s are the same counter", c, o)
		}
		seen[v.key()] = c
		ids = append(ids, v)
	}
	type add struct {
		c int
		k string
		t string
	}
	flt := func(s string) aVal {
		c := constantFloat(s)
		return one(aElem{Kind: aConst, Key: "f" + c.ExactString(), C: c})
	}
	runSeq := func(a, b []add, rev bool) (string, string) {
		ai := NewAI(w)
		ai.MapReverse = rev
		ai.LoopBound = 40
		mem := aMem{}
		step := func(g aVal, m string, args ...aVal) string {
			var err error
			var res []aVal
			res, mem, err = ai.RunMethod(g, m, args, mem)
			if err != nil {
				return err.Error()
			}
			if len(res) == 1 {
				s, ok := res[0].str()
				if !ok {
					return "not determined: " + res[0].String() + ai.giveUps()
				}
				return s
			}
			return ""
		}
		g, h := aObj("new:G", pt), aObj("new:H", pt)
		mem["live:new:G"], mem["live:new:H"] = aBool(true), aBool(true)
		step(g, "Init")
		step(h, "Init")
		for _, x := range a {
			step(g, "AddTime", ids[x.c], aStr(x.k), flt(x.t))
		}
		for _, x := range b {
			step(h, "AddTime", ids[x.c], aStr(x.k), flt(x.t))
		}
		if b != nil {
			step(g, "Update", h)
		}
		return step(g, "String"), ai.giveUps()
	}
	type entry struct {
		n int
		t float64
	}
	expect := func(all []add) string {
		out := ""
		for c := range counters {
			m := map[string]*entry{}
			for _, x := range all {
				if x.c == c {
					if m[x.k] == nil {
						m[x.k] = &entry{}
					}
					m[x.k].n++
					var f float64
					fmt.Sscan(x.t, &f)
					m[x.k].t += f
				}
			}
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sortBy(ks, func(a, b string) bool {
				if m[a].t != m[b].t {
					return m[a].t > m[b].t
				}
				return a < b
			})
			for _, k := range ks {
				out += fmt.Sprintf("%v, %v, %v\n", m[k].t, m[k].n, k)
			}
			out += "\n"
		}
		return out
	}
	cases := []struct {
		what string
		a, b []add
	}{
		{"nothing", nil, nil},
		{"merging empty groups", nil, []add{}},
	}
	for c := range counters {
		cases = append(cases, struct {
			what string
			a, b []add
		}{"one time in " + counters[c], []add{{c, "x", "0.5"}}, nil},
			struct {
				what string
				a, b []add
			}{"several times in " + counters[c], []add{{c, "x", "0.5"}, {c, "y", "2"}, {c, "x", "0.25"}, {c, "z", "2"}}, nil},
			struct {
				what string
				a, b []add
			}{"merging into " + counters[c], []add{{c, "x", "0.5"}, {c, "y", "2"}, {c, "y", "2"}}, []add{{c, "x", "0.25"}, {c, "x", "4"}, {c, "z", "1"}, {c, "z", "1"}}},
			struct {
				what string
				a, b []add
			}{"merging into an empty " + counters[c], nil, []add{{c, "x", "0.25"}, {c, "x", "4"}, {c, "z", "1"}, {c, "a", "1"}}})
	}
	all := []add{}
	for c := range counters {
		for i := 0; i <= c; i++ {
			all = append(all, add{c, "k", "0.5"}, add{c, fmt.Sprintf("k%d", i), "1"})
		}
	}
	cases = append(cases, struct {
		what string
		a, b []add
	}{"all counters", all, all})
	for _, cs := range cases {
		for _, rev := range []bool{false, true} {
			r.count("scenarios", 1)
			got, give := runSeq(cs.a, cs.b, rev)
			want := expect(append(append([]add{}, cs.a...), cs.b...))
			if normFloats(got) == want {
				r.ok("sums", cs.what, where, "as expected")
			} else {
				r.bad("sums", cs.what, where, "%s: the group prints as %q, want %q %s", cs.what, got, want, give)
			}
		}
	}
	r.atLeast("scenarios", 30)
}

func constantFloat(s string) constant.Value {
	return constant.ToFloat(constant.MakeFromLiteral(s, token.FLOAT, 0))
}

func sortBy(ks []string, less func(a, b string) bool) {
	sort.Slice(ks, func(i, j int) bool { return less(ks[i], ks[j]) })
}

// normFloats prints the exact floats of the interpretation the way Go does.
func normFloats(s string) string {
	return floatRe.ReplaceAllStringFunc(s, func(m string) string {
		q, ok := new(big.Rat).SetString(strings.Trim(m, "<>"))
		if !ok {
			return m
		}
		f, _ := q.Float64()
		return fmt.Sprint(f)
	})
}

var floatRe = regexp.MustCompile(`<[-0-9./]+>`)
