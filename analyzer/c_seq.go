package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
)

func init() {
	register(&Check{ID: "C10", Title: "Sequence patterns try every assignment once, with consistent bindings", Run: checkSequences,
		Explain: "The sequence matcher (parsing of the forms, allocation, assignment, backtracking and the bindings of every branch) is interpreted abstractly on f[t1, ..., tn] against f[F1, ..., Fk] with opaque elements and opaque subpatterns: up to three elements and three forms out of blanks, sequences, repeated patterns, named subpatterns, optional forms and tests, for f with no attributes, Orderless, Flat, OneIdentity and defaults, with every choice of which elements are identical, and subpatterns that match some elements, bind a variable or match in two ways. The list of matches with their bindings is compared with the definition: every assignment of the elements to the forms whose sizes and subpatterns fit and whose variables agree, once each (in the order shorter sequences first, optional forms filled first, when the order of elements counts).",
		Assume:  []string{"IsSameQ decides identity (C04); the matching of subpatterns is opaque (C09)."}})
}

const seqInf = 1 << 20

type seqForm struct {
	name     string
	min, max int
	optional bool
	deflt    string // default value, or ""
	v        string // variable
	blank    bool   // a single Blank
	elem     string // "": anything, "P"/"Q": opaque, "H1": head, "test": tested
	build    func(m *matchRun, i int) aVal
}

func (m *matchRun) ex(name, head string, ps ...aVal) aVal {
	return m.w.mkExpr(m.mem, name, append([]aVal{m.w.mkSym(m.mem, name+"h", head)}, ps...)...)
}

func seqForms(headDefault bool) map[string]seqForm {
	nm := func(i int, s string) string { return fmt.Sprintf("form%d%s", i, s) }
	pat := func(v, bl string, args ...string) func(m *matchRun, i int) aVal {
		return func(m *matchRun, i int) aVal {
			var ps []aVal
			for _, a := range args {
				ps = append(ps, m.w.mkSym(m.mem, nm(i, "arg"), a))
			}
			var b aVal
			if strings.HasPrefix(bl, "Pat") {
				b = m.mkPat(bl[3:])
			} else {
				b = m.ex(nm(i, "b"), "System`"+bl, ps...)
			}
			if v == "" {
				return b
			}
			return m.ex(nm(i, "p"), "System`Pattern", m.w.mkSym(m.mem, nm(i, "v"), v), b)
		}
	}
	rep := func(v, head, pt string, n int64) func(m *matchRun, i int) aVal {
		return func(m *matchRun, i int) aVal {
			ps := []aVal{m.mkPat(pt)}
			if n >= 0 {
				a := m.w.mkAtom(m.mem, nm(i, "n"), kInt)
				e, _ := a.single()
				m.mem[e.Key+"V.$v"] = one(m.ai.numKey(rConst(n)))
				ps = append(ps, m.ex(nm(i, "l"), "System`List", a))
			}
			b := m.ex(nm(i, "r"), "System`"+head, ps...)
			if v == "" {
				return b
			}
			return m.ex(nm(i, "p"), "System`Pattern", m.w.mkSym(m.mem, nm(i, "v"), v), b)
		}
	}
	opt := func(inner func(m *matchRun, i int) aVal, d string) func(m *matchRun, i int) aVal {
		return func(m *matchRun, i int) aVal {
			ps := []aVal{inner(m, i)}
			if d != "" {
				ps = append(ps, m.w.mkSym(m.mem, nm(i, "d"), d))
			}
			return m.ex(nm(i, "o"), "System`Optional", ps...)
		}
	}
	test := func(inner func(m *matchRun, i int) aVal) func(m *matchRun, i int) aVal {
		return func(m *matchRun, i int) aVal {
			return m.ex(nm(i, "t"), "System`PatternTest", inner(m, i), m.w.mkSym(m.mem, nm(i, "tt"), "test"))
		}
	}
	l := []seqForm{
		{name: "P", min: 1, max: 1, elem: "P", build: pat("", "PatP")},
		{name: "Q", min: 1, max: 1, elem: "Q", build: pat("", "PatQ")},
		{name: "x:P", min: 1, max: 1, elem: "P", v: "x", build: pat("x", "PatP")},
		{name: "y:Q", min: 1, max: 1, elem: "Q", v: "y", build: pat("y", "PatQ")},
		{name: "_", min: 1, max: 1, blank: true, build: pat("", "Blank")},
		{name: "x_", min: 1, max: 1, blank: true, v: "x", build: pat("x", "Blank")},
		{name: "y_", min: 1, max: 1, blank: true, v: "y", build: pat("y", "Blank")},
		{name: "x_H1", min: 1, max: 1, blank: true, v: "x", elem: "H1", build: pat("x", "Blank", "H1")},
		{name: "__", min: 1, max: seqInf, build: pat("", "BlankSequence")},
		{name: "___", min: 0, max: seqInf, build: pat("", "BlankNullSequence")},
		{name: "x__", min: 1, max: seqInf, v: "x", build: pat("x", "BlankSequence")},
		{name: "y__", min: 1, max: seqInf, v: "y", build: pat("y", "BlankSequence")},
		{name: "x___", min: 0, max: seqInf, v: "x", build: pat("x", "BlankNullSequence")},
		{name: "x__H1", min: 1, max: seqInf, v: "x", elem: "H1", build: pat("x", "BlankSequence", "H1")},
		{name: "x___H1", min: 0, max: seqInf, v: "x", elem: "H1", build: pat("x", "BlankNullSequence", "H1")},
		{name: "P..", min: 1, max: seqInf, elem: "P", build: rep("", "Repeated", "P", -1)},
		{name: "P...", min: 0, max: seqInf, elem: "P", build: rep("", "RepeatedNull", "P", -1)},
		{name: "x:P..", min: 1, max: seqInf, elem: "P", v: "x", build: rep("x", "Repeated", "P", -1)},
		{name: "Repeated[P, {2}]", min: 2, max: 2, elem: "P", build: rep("", "Repeated", "P", 2)},
		{name: "x__?test", min: 1, max: seqInf, elem: "test", v: "x", build: test(pat("x", "BlankSequence"))},
		{name: "x_?test", min: 1, max: 1, blank: true, elem: "test", v: "x", build: test(pat("x", "Blank"))},
		{name: "x_:d", min: 0, max: 1, optional: true, deflt: "d", v: "x", build: opt(pat("x", "Blank"), "d")},
		{name: "y_:t1", min: 0, max: 1, optional: true, deflt: "t1", v: "y", build: opt(pat("y", "Blank"), "t1")},
		{name: "x_.", min: 1, max: 1, optional: true, v: "x", build: opt(pat("x", "Blank"), "")},
	}
	if headDefault {
		l[len(l)-1].min, l[len(l)-1].deflt = 0, "dh"
	}
	o := map[string]seqForm{}
	for _, f := range l {
		o[f.name] = f
	}
	return o
}

type seqCase struct {
	attrs       []string
	headDefault bool
	forms       []string
	n           int
	classes     []int // element i is identical with element classes[i]
	profile     int   // what P and Q match
	inPlace     bool
	heads       string // "", "pattern", "verbatim", "assumed"
}

func (c seqCase) String() string {
	var ts []string
	for i := 0; i < c.n; i++ {
		ts = append(ts, fmt.Sprintf("t%d", c.classes[i]+1))
	}
	s := fmt.Sprintf("f[%s] against f[%s]", strings.Join(ts, ", "), strings.Join(c.forms, ", "))
	if c.heads != "" {
		s = fmt.Sprintf("f[%s] against %s[%s]", strings.Join(ts, ", "), map[string]string{"pattern": "h:Q", "verbatim": "Verbatim[f]", "other": "g"}[c.heads], strings.Join(c.forms, ", "))
	}
	if len(c.attrs) > 0 {
		s += ", f " + strings.Join(c.attrs, " ")
	}
	if c.headDefault {
		s += " with default"
	}
	return fmt.Sprintf("%s (subpattern outcome %d)", s, c.profile)
}

// what opaque pattern P or Q does with element i.
func (c seqCase) out(p string, i int) [][2]string {
	t := func(i int) string { return fmt.Sprintf("t%d", c.classes[i]+1) }
	i = c.classes[i]
	switch c.profile {
	case 0:
		return [][2]string{{"", ""}}
	case 1: // P matches the first element, Q others
		if (p == "P") == (i == 0) {
			return [][2]string{{"", ""}}
		}
		return nil
	case 2: // both bind y
		return [][2]string{{"y", t(i)}}
	case 3: // in two ways
		return [][2]string{{"y", t(i)}, {"y", "t9"}}
	}
	return nil
}

// expected matches.
func (c seqCase) expected() []string {
	fs := seqForms(c.headDefault)
	t := func(i int) string { return fmt.Sprintf("t%d", c.classes[i]+1) }
	has := func(a string) bool {
		for _, x := range c.attrs {
			if x == a {
				return true
			}
		}
		return false
	}
	orderless, flat, oneId := has("Orderless") && c.heads == "", has("Flat") && c.heads == "", has("OneIdentity") && c.heads == ""
	if c.heads == "other" {
		return nil
	}
	seqHead := "f"
	var out []string
	clone := func(b map[string]string) map[string]string {
		o := map[string]string{}
		for k, v := range b {
			o[k] = v
		}
		return o
	}
	forms := make([]seqForm, len(c.forms))
	for i, n := range c.forms {
		forms[i] = fs[n]
		if flat && forms[i].blank && !forms[i].optional {
			forms[i].max = seqInf
		}
		if flat && forms[i].optional {
			forms[i].max = seqInf
		}
	}
	elem := func(f seqForm, i int, b map[string]string) []map[string]string {
		switch f.elem {
		case "":
			return []map[string]string{b}
		case "H1":
			if c.classes[i] == 0 {
				return []map[string]string{b}
			}
			return nil
		case "test":
			if c.classes[i] != 1 {
				return []map[string]string{b}
			}
			return nil
		}
		var o []map[string]string
		for _, m := range c.out(f.elem, i) {
			if m[0] == "" {
				o = append(o, b)
				continue
			}
			if old, ok := b[m[0]]; ok && old != m[1] {
				continue
			}
			nb := clone(b)
			nb[m[0]] = m[1]
			o = append(o, nb)
		}
		return o
	}
	define := func(f seqForm, idx []int, b map[string]string) (map[string]string, bool) {
		if f.v == "" {
			return b, true
		}
		var ts []string
		for _, i := range idx {
			ts = append(ts, t(i))
		}
		val := "System`Sequence[" + strings.Join(ts, ", ") + "]"
		implied := flat && f.blank || flat && f.optional
		switch {
		case len(idx) == 0 && f.optional:
			val = f.deflt
		case len(idx) == 1 && (!implied || oneId || f.optional):
			val = ts[0]
		case implied:
			val = seqHead + "[" + strings.Join(ts, ", ") + "]"
		}
		if old, ok := b[f.v]; ok && old != val {
			return nil, false
		}
		nb := clone(b)
		nb[f.v] = val
		return nb, true
	}
	var assign func(fi int, used []bool, next int, b map[string]string)
	fill := func(f seqForm, idx []int, b map[string]string, k func(b map[string]string)) {
		var rec func(j int, b map[string]string)
		rec = func(j int, b map[string]string) {
			if j == len(idx) {
				if nb, ok := define(f, idx, b); ok {
					k(nb)
				}
				return
			}
			for _, nb := range elem(f, idx[j], b) {
				rec(j+1, nb)
			}
		}
		rec(0, b)
	}
	assign = func(fi int, used []bool, next int, b map[string]string) {
		if fi == len(forms) {
			for _, u := range used {
				if !u {
					return
				}
			}
			out = append(out, strings.TrimPrefix(showB(b), "match "))
			return
		}
		f := forms[fi]
		if !orderless {
			var sizes []int
			for s := f.min; s <= f.max && next+s <= c.n; s++ {
				sizes = append(sizes, s)
			}
			if f.optional && !flat || f.optional {
				sort.Sort(sort.Reverse(sort.IntSlice(sizes)))
			}
			for _, s := range sizes {
				var idx []int
				u := append([]bool{}, used...)
				for i := next; i < next+s; i++ {
					idx = append(idx, i)
					u[i] = true
				}
				fill(f, idx, b, func(nb map[string]string) { assign(fi+1, u, next+s, nb) })
			}
			return
		}
		for mask := 0; mask < 1<<c.n; mask++ {
			var idx []int
			u := append([]bool{}, used...)
			bad := false
			for i := 0; i < c.n; i++ {
				if mask>>i&1 == 1 {
					if u[i] {
						bad = true
					}
					u[i] = true
					idx = append(idx, i)
				}
			}
			if bad || len(idx) < f.min || len(idx) > f.max {
				continue
			}
			fill(f, idx, b, func(nb map[string]string) { assign(fi+1, u, 0, nb) })
		}
	}
	start := map[string]string{}
	if c.heads == "pattern" { // the head is matched first, by Q
		start["h"] = "f"
	}
	assign(0, make([]bool, c.n), 0, start)
	if orderless {
		sort.Strings(out)
	}
	return out
}

func (c seqCase) got(w *World) []string {
	m := newMatchRun(w)
	m.inPlac = c.inPlace
	m.attrs["f"] = c.attrs
	if c.headDefault {
		m.deflt["f"] = w.mkSym(m.mem, "headDefault", "dh")
	}
	fs := seqForms(c.headDefault)
	var ts, ps []aVal
	for i := 0; i < c.n; i++ {
		// elements are expressions whose text is t1, t2, ...
		cl := c.classes[i] + 1
		ts = append(ts, w.mkExpr(m.mem, fmt.Sprintf("elem%d", i), w.mkSym(m.mem, fmt.Sprintf("elem%dh", i), fmt.Sprintf("H%d", cl)), w.mkAtom(m.mem, fmt.Sprintf("elem%da", i), kStr)))
		m.mem[fmt.Sprintf("elem%da.Val", i)] = aStr(fmt.Sprintf("t%d", cl))
		tx := m.text(m.mem, ts[i])
		for _, p := range []string{"P", "Q"} {
			var o [][2]string
			for _, b := range c.out(p, i) {
				if b[0] != "" {
					b[1] = fmt.Sprintf("H%s[“%s”]", b[1][1:], b[1])
				}
				o = append(o, b)
			}
			m.outs["Pat"+p+" "+tx] = o
		}
		m.evals["test["+tx+"]"] = "System`True"
		if cl == 2 {
			m.evals["test["+tx+"]"] = "System`False"
		}
	}
	for i, n := range c.forms {
		ps = append(ps, fs[n].build(m, i))
	}
	// the symbol t1 (a default value) is identical with the element t1
	m.class["t1"] = "H1[“t1”]"
	hf := func(n string) aVal { return w.mkSym(m.mem, n, "f") }
	a := w.mkExpr(m.mem, "target", append([]aVal{hf("targeth")}, ts...)...)
	ph := hf("patternh")
	switch c.heads {
	case "pattern":
		m.outs["PatH f"] = [][2]string{{"h", "f"}}
		ph = m.mkPat("H")
	case "verbatim":
		ph = m.ex("verb", "System`Verbatim", hf("verbf"))
	case "other":
		ph = w.mkSym(m.mem, "patternh", "g")
	}
	b := w.mkExpr(m.mem, "pattern", append([]aVal{ph}, ps...)...)
	got := m.matches(a, b, nil, 60)
	for i := range got {
		for k := 1; k <= 9; k++ {
			got[i] = strings.ReplaceAll(got[i], fmt.Sprintf("H%d[“t%d”]", k, k), fmt.Sprintf("t%d", k))
		}
	}
	for _, x := range c.attrs {
		if x == "Orderless" && c.heads == "" {
			sort.Strings(got)
		}
	}
	return got
}

func seqCases() []seqCase {
	all := []string{}
	for n := range seqForms(false) {
		all = append(all, n)
	}
	sort.Strings(all)
	uses := func(fs []string) (opaque, head bool) {
		for _, f := range fs {
			if strings.ContainsAny(f, "PQ") {
				opaque = true
			}
			if strings.Contains(f, "H1") || strings.Contains(f, "test") {
				head = true
			}
		}
		return
	}
	// variables bound by two forms
	agree := func(fs []string) bool {
		seen := map[string]bool{}
		for _, f := range fs {
			if v := f[:1]; v == "x" || v == "y" {
				if seen[v] {
					return true
				}
				seen[v] = true
			}
		}
		return false
	}
	classes := func(n int, dup bool) [][]int {
		if !dup {
			return [][]int{[]int{0, 1, 2, 3, 4}[:n]}
		}
		switch n {
		case 0, 1:
			return [][]int{[]int{0}[:n]}
		case 2:
			return [][]int{{0, 1}, {0, 0}}
		case 4:
			return [][]int{{0, 1, 2, 3}, {0, 0, 1, 1}, {0, 1, 0, 1}, {0, 0, 0, 0}}
		}
		return [][]int{{0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}}
	}
	var out []seqCase
	add := func(attrs []string, hd bool, fs []string, maxN int, heads string) {
		op, hd1 := uses(fs)
		flat := false
		for _, a := range attrs {
			flat = flat || a == "Flat"
		}
		if flat && hd1 {
			return
		}
		profiles := []int{0}
		if op && len(fs) == 1 {
			profiles = []int{0, 1, 2, 3}
		} else if op {
			profiles = []int{1, 2}
			if len(attrs) == 0 && len(fs) == 2 && (fs[0] == "P" || fs[0] == "x:P" || fs[1] == "P") {
				profiles = []int{1, 2, 3}
			}
		}
		for n := 0; n <= maxN; n++ {
			for _, p := range profiles {
				for _, cl := range classes(n, agree(fs) || p > 1 && len(fs) == 2) {
					out = append(out, seqCase{attrs, hd, fs, n, cl, p, p == 2, heads})
				}
			}
		}
	}
	for _, at := range [][]string{nil, {"Orderless"}, {"Flat"}, {"Flat", "OneIdentity"}, {"Orderless", "Flat", "OneIdentity"}} {
		for _, f := range all {
			add(at, false, []string{f}, 3, "")
		}
	}
	add(nil, true, []string{"x_."}, 3, "")
	add(nil, true, []string{"P", "x_."}, 3, "")
	add(nil, true, []string{"x_.", "P"}, 3, "")
	add([]string{"Orderless"}, true, []string{"x_.", "P"}, 3, "")
	small := map[string]bool{}
	for _, f := range []string{"P", "x:P", "x_", "y_", "x__", "___", "P..", "x_:d"} {
		small[f] = true
	}
	for _, f := range all {
		for _, g := range all {
			add(nil, false, []string{f, g}, 3, "")
			if small[f] && small[g] {
				add([]string{"Orderless"}, false, []string{f, g}, 3, "")
				add([]string{"Flat", "OneIdentity"}, false, []string{f, g}, 2, "")
				add([]string{"Flat"}, false, []string{f, g}, 2, "")
				add([]string{"Orderless", "Flat"}, false, []string{f, g}, 2, "")
			}
			if len(f) <= 3 && len(g) <= 3 && small[f] && small[g] {
				add([]string{"Orderless"}, false, []string{f, g}, 2, "verbatim")
				add(nil, false, []string{f, g}, 2, "pattern")
				add([]string{"Orderless", "Flat"}, false, []string{f, g}, 2, "pattern")
				add(nil, false, []string{f, g}, 2, "other")
			}
		}
	}
	few := []string{"P", "x_", "y__", "x___", "x:P", "x_:d"}
	for _, f := range few {
		for _, g := range few {
			for _, h := range few {
				add(nil, false, []string{f, g, h}, 3, "")
				if f != "y__" && g != "x___" {
					add([]string{"Orderless"}, false, []string{f, g, h}, 3, "")
				}
			}
		}
	}
	long := []string{"P", "x_", "y__", "x___", "x_:d"}
	for _, f := range long {
		for _, g := range long {
			for _, h := range long {
				for _, k := range long {
					n := 0
					for _, z := range []string{f, g, h, k} {
						if z == "P" {
							n++
						}
					}
					if n > 1 {
						continue
					}
					add(nil, false, []string{f, g, h, k}, 4, "")
					if n == 0 && f == "x_" && h != "x___" {
						add([]string{"Orderless"}, false, []string{f, g, h, k}, 4, "")
					}
				}
			}
		}
	}
	return out
}

func checkSequences(w *World, r *Report) {
	where := w.Pos(w.Fn(pkgMatcher, "NewMatchIter").Pos())
	cs := seqCases()
	type res struct{ got, want []string }
	rs := make([]res, len(cs))
	// the first run fills the caches shared by all
	rs[0] = res{cs[0].got(w), cs[0].expected()}
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				rs[i] = res{cs[i].got(w), cs[i].expected()}
			}
		}()
	}
	for i := 1; i < len(cs); i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	for i, c := range cs {
		got, want := strings.Join(rs[i].got, " "), strings.Join(rs[i].want, " ")
		r.check("sequence", c.String(), where, got == want, fmt.Sprintf("%s gives the matches [%s] instead of [%s]", c, got, want))
	}
	r.count("sequence cases", len(cs))
	r.atLeast("sequence cases", 1000)
}
