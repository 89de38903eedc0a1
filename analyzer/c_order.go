package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C07", Title: "The canonical order distinguishes every two different values", Explain: "ExOrder is interpreted for every pair of number kinds and every outcome of comparing their (symbolic) real and imaginary parts, in both argument orders; for every pair of kinds of value; for pairs of representative texts; and for all pairs of 32 expression shapes. Rules: antisymmetric, within -1..1, zero only for identical values, by value among numbers, kinds in order.",
		Assume: []string{"math/big Cmp is the numeric comparison"},
		Run:    checkOrder})
}

// checkOrder analyses ExOrder on every pair of operand kinds.
func checkOrder(w *World, r *Report) {
	fn := w.Fn(pkgAtoms, "ExOrder")
	where := w.Pos(fn.Pos())

	type op struct {
		operand
		name string
	}
	var ops []operand
	for _, k := range []atomKind{kInt, kRat, kFlt} {
		ops = append(ops, operand{k: k})
	}
	for _, a := range []atomKind{kInt, kRat, kFlt} {
		for _, b := range []atomKind{kInt, kRat, kFlt} {
			ops = append(ops, operand{kCplx, a, b})
		}
	}
	bad := 0
	fail := func(rule, key, f string, a ...interface{}) {
		bad++
		if bad <= 20 {
			r.bad(rule, key, where, f, a...)
		}
	}

	// numbers: every kind pair, every outcome of comparing their contents
	for _, oa := range ops {
		for _, ob := range ops {
			what := oa.String() + " , " + ob.String()
			for _, reCmp := range []int{-1, 0, 1} {
				ims := []int{0}
				if oa.k == kCplx && ob.k == kCplx {
					ims = []int{-1, 0, 1}
				}
				for _, imCmp := range ims {
					for _, sig := range [][2]int{{1, 1}, {-1, 1}, {1, -1}, {-1, -1}} {
						ab := numOrder(w, fn, oa, ob, reCmp, imCmp, sig, false)
						ba := numOrder(w, fn, oa, ob, reCmp, imCmp, sig, true)
						r.count("number_cases", 1)
						key := fmt.Sprintf("%s|re%+d|im%+d", what, reCmp, imCmp)
						if ab.err != "" {
							fail("number-order-decided", key, "ExOrder(a, b) for %s: %s", key, ab.err)
							continue
						}
						if ba.err != "" {
							fail("number-order-decided", key, "ExOrder(b, a) for %s: %s", key, ba.err)
							continue
						}
						if ab.v != -ba.v || ab.v < -1 || ab.v > 1 {
							fail("number-order-antisymmetric", key, "for %s, ExOrder(a,b)=%d and ExOrder(b,a)=%d", key, ab.v, ba.v)
							continue
						}
						want := 0
						switch {
						case reCmp != 0:
							want = -reCmp
						case kindRank(oa.reKind()) != kindRank(ob.reKind()):
							want = sgn(kindRank(ob.reKind()) - kindRank(oa.reKind()))
						case oa.k != kCplx && ob.k == kCplx:
							want = 1
						case oa.k == kCplx && ob.k != kCplx:
							want = -1
						case oa.k == kCplx && imCmp != 0:
							want = -imCmp
						case oa.k == kCplx:
							want = sgn(kindRank(ob.im) - kindRank(oa.im))
						}
						if (ab.v == 0) != (want == 0) {
							fail("number-order-distinguishes", key, "for %s, ExOrder=%d, expected %d: equal only for the same number", key, ab.v, want)
						} else if reCmp != 0 && ab.v != want {
							fail("number-order-by-value", key, "for %s, ExOrder=%d, expected %d: the smaller value comes first", key, ab.v, want)
						} else if oa.k == kCplx && ob.k == kCplx && oa == ob && ab.v != want {
							fail("number-order-by-value", key, "for %s, ExOrder=%d, expected %d: equal real parts are ordered by the imaginary part", key, ab.v, want)
						}
					}
				}
			}
		}
	}
	if bad == 0 {
		r.ok("number-order", "all kinds", where, "for every pair of number kinds and every relation of their values the order is antisymmetric, by value, and zero only for the same number")
	}
	r.atLeast("number_cases", 1500)

	// kinds
	kinds := []struct {
		rank int
		k    atomKind
	}{{0, kInt}, {0, kRat}, {0, kFlt}, {0, kCplx}, {1, kStr}, {2, kSymb}, {3, kExpr}}
	nb := bad
	for _, a := range kinds {
		for _, b := range kinds {
			if a.rank == b.rank {
				continue
			}
			ai := NewAI(w)
			mem := aMem{}
			mk := func(n string, k atomKind) aVal {
				switch k {
				case kExpr:
					return w.mkExpr(mem, n, w.mkSym(mem, n+"h", "Global`f"), w.mkAtom(mem, n+"p", kSymb))
				case kSymb:
					return w.mkSym(mem, n, "Global`"+n)
				}
				return w.mkAtom(mem, n, k)
			}
			res, _ := ai.Run(fn, []aVal{mk("a", a.k), mk("b", b.k)}, mem)
			r.count("kind_pairs", 1)
			want := sgn(b.rank - a.rank)
			if len(res) != 1 {
				fail("kind-order", string(a.k)+","+string(b.k), "no result")
				continue
			}
			if n, ok := res[0].integer(); !ok || n != want {
				fail("kind-order", string(a.k)+","+string(b.k), "ExOrder(%s, %s) = %v, expected %d (numbers, strings, symbols, expressions)", a.k, b.k, res[0], want)
			}
		}
	}
	if bad == nb {
		r.ok("kind-order", "all kinds", where, "numbers come before strings, strings before symbols, symbols before expressions")
	}

	// names and strings
	nb = bad
	var words []string
	base := strings.Repeat("ab", 40)
	for _, n := range []int{0, 1, 2, 3, 7, 16, 33, 70} {
		words = append(words, base[:n])
		if n > 0 {
			words = append(words, base[:n-1]+"A", base[:n-1]+"z", base[:n-1]+"\u00e9")
		}
		if n > 2 {
			words = append(words, "Z"+base[1:n], base[:n/2]+"~"+base[n/2+1:n])
		}
	}
	words = append(words, "System`A", "System`a", "Global`A", "1", "$")
	for _, k := range []atomKind{kStr, kSymb} {
		for _, x := range words {
			for _, y := range words {
				ai := NewAI(w)
				ai.LoopBound = 90
				mem := aMem{}
				mk := func(n, t string) aVal {
					if k == kStr {
						return w.mkString(mem, n, t)
					}
					return w.mkSym(mem, n, t)
				}
				res, _ := ai.Run(fn, []aVal{mk("a", x), mk("b", y)}, mem)
				r.count("text_pairs", 1)
				want := -strings.Compare(x, y)
				n, ok := 0, false
				if len(res) == 1 {
					n, ok = res[0].integer()
				}
				if !ok || n != want {
					fail("text-order", fmt.Sprintf("%s,%q,%q", k, x, y), "ExOrder of the %ss %q and %q is %v, expected %d %s", k, x, y, res, want, ai.giveUps())
				}
			}
		}
	}
	if bad == nb {
		r.ok("text-order", "strings and symbols", where, "texts are ordered by their first difference, a prefix first, and are equal only if identical (%d words of length up to 70)", len(words))
	}
	checkExprOrder(w, r, fn, where, fail)
}

func sgn(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func (o operand) reKind() atomKind {
	if o.k == kCplx {
		return o.re
	}
	return o.k
}

func kindRank(k atomKind) int { return numRank[k] }

type ordRes struct {
	v   int
	err string
}

// numOrder analyses ExOrder on operands whose real values compare as re and
// whose imaginary values compare as im; sig are the signs of the denominators.
func numOrder(w *World, fn *ssa.Function, oa, ob operand, re, im int, sig [2]int, swap bool) ordRes {
	ai := NewAI(w)
	ai.Rounding = true
	mem := aMem{}
	av := w.mkAtom(mem, "a", oa.k, oa.re, oa.im)
	bv := w.mkAtom(mem, "b", ob.k, ob.re, ob.im)
	numRegister(ai, mem)
	// which side and part a number belongs to
	side := func(x *ratFn) (string, bool) {
		s := x.String()
		s = strings.ReplaceAll(s, "num:", "")
		hasA, hasB := strings.Contains(s, "a"), strings.Contains(s, "b")
		isIm := strings.Contains(s, "im")
		if hasA == hasB {
			return "", false
		}
		p := "re"
		if isIm {
			p = "im"
		}
		if hasA {
			return "a" + p, true
		}
		return "b" + p, true
	}
	bad := ""
	ai.NumCmp = func(x, y *ratFn) (int, bool) {
		// sign tests: denominators are never zero
		if c, ok := y.isConst(); ok && c.Sign() == 0 {
			s, ok := side(x)
			if !ok {
				return 0, false
			}
			if s[0] == 'a' {
				return sig[0], true
			}
			return sig[1], true
		}
		if c, ok := x.isConst(); ok && c.Sign() == 0 {
			s, ok := side(y)
			if !ok {
				return 0, false
			}
			if s[0] == 'a' {
				return -sig[0], true
			}
			return -sig[1], true
		}
		sx, ok1 := side(x)
		sy, ok2 := side(y)
		if !ok1 || !ok2 || sx[1:] != sy[1:] || sx[0] == sy[0] {
			bad = fmt.Sprintf("compares %v with %v", x, y)
			return 0, false
		}
		// both sides must be the whole values
		whole := func(v *ratFn, s string, o operand) (exact, isWhole bool) {
			k := o.reKind()
			if s[1:] == "im" {
				k = o.im
			}
			n := s[:1]
			if o.k == kCplx {
				n += s[1:]
			}
			want := rVar(n)
			if k == kRat {
				want = rMul(rVar(n+"n"), rInv(rVar(n+"d")))
			}
			if rEq(v, want) {
				return k != kFlt, true
			}
			fl := rVar("fl(" + want.simp().String() + ")")
			return false, rEq(v, fl)
		}
		oOf := func(s string) operand {
			if s[0] == 'a' {
				return oa
			}
			return ob
		}
		ex, wx := whole(x, sx, oOf(sx))
		ey, wy := whole(y, sy, oOf(sy))
		if !wx || !wy {
			bad = fmt.Sprintf("compares %v with %v", x, y)
			return 0, false
		}
		c := re
		if sx[1:] == "im" {
			c = im
		}
		if sx[0] == 'b' {
			c = -c
		}
		kx, ky := oOf(sx).reKind(), oOf(sy).reKind()
		if sx[1:] == "im" {
			kx, ky = oOf(sx).im, oOf(sy).im
		}
		if kx != kFlt && ky != kFlt && !(ex && ey) {
			// two exact numbers compared after rounding: may look equal
			return 0, true
		}
		return c, true
	}
	args := []aVal{av, bv}
	if swap {
		args = []aVal{bv, av}
	}
	res, _ := ai.Run(fn, args, mem)
	if len(res) != 1 {
		return ordRes{0, "no result " + ai.giveUps()}
	}
	n, ok := res[0].integer()
	if !ok {
		return ordRes{0, fmt.Sprintf("the result is not determined by the comparison of the values: %v %s %s", res[0], bad, ai.giveUps())}
	}
	return ordRes{n, ""}
}

// checkExprOrder compares a family of expression shapes with known parts.
func checkExprOrder(w *World, r *Report, fn *ssa.Function, where string, fail func(rule, key, f string, a ...interface{})) {
	type shape struct {
		name string
		mk   func(mem aMem, p string) aVal
	}
	sym := func(n string) func(mem aMem, p string) aVal {
		return func(mem aMem, p string) aVal { return w.mkSym(mem, p, n) }
	}
	num := func(n int64) func(mem aMem, p string) aVal {
		return func(mem aMem, p string) aVal {
			v := w.mkAtom(mem, p, kInt)
			mem[p+"V.$v"] = one((&AI{}).numKey(&ratFn{pConst(big.NewRat(n, 1)), pConst(big.NewRat(1, 1))}))
			return v
		}
	}
	type mkT = func(mem aMem, p string) aVal
	ex := func(h string, parts ...mkT) mkT {
		return func(mem aMem, p string) aVal {
			ps := []aVal{w.mkSym(mem, p+"h", h)}
			for i, q := range parts {
				ps = append(ps, q(mem, fmt.Sprintf("%s_%d", p, i)))
			}
			return w.mkExpr(mem, p, ps...)
		}
	}
	a, b, c := sym("Global`a"), sym("Global`b"), sym("Global`c")
	var shapes []shape
	add := func(n string, m mkT) { shapes = append(shapes, shape{n, m}) }
	T, P, F, G := "System`Times", "System`Power", "Global`f", "Global`g"
	add("a", a)
	add("b", b)
	add("f[]", ex(F))
	add("f[a]", ex(F, a))
	add("f[b]", ex(F, b))
	add("g[a]", ex(G, a))
	add("f[a,a]", ex(F, a, a))
	add("f[a,b]", ex(F, a, b))
	add("f[b,a]", ex(F, b, a))
	add("f[a,b,c]", ex(F, a, b, c))
	add("f[a,c,b]", ex(F, a, c, b))
	add("f[2]", ex(F, num(2)))
	add("f[3]", ex(F, num(3)))
	add("f[2,a]", ex(F, num(2), a))
	add("f[f[a]]", ex(F, ex(F, a)))
	add("f[f[b]]", ex(F, ex(F, b)))
	add("a^2", ex(P, a, num(2)))
	add("a^3", ex(P, a, num(3)))
	add("b^2", ex(P, b, num(2)))
	add("a^b", ex(P, a, b))
	add("f[a]^2", ex(P, ex(F, a), num(2)))
	add("2a", ex(T, num(2), a))
	add("3a", ex(T, num(3), a))
	add("2b", ex(T, num(2), b))
	add("a b", ex(T, a, b))
	add("a c", ex(T, a, c))
	add("b c", ex(T, b, c))
	add("2 a b", ex(T, num(2), a, b))
	add("a b c", ex(T, a, b, c))
	add("a^2 b", ex(T, ex(P, a, num(2)), b))
	add("2 a^2", ex(T, num(2), ex(P, a, num(2))))
	add("2 f[a]", ex(T, num(2), ex(F, a)))

	n := len(shapes)
	tab := make([][]int, n)
	bad := 0
	for i := range shapes {
		tab[i] = make([]int, n)
		for j := range shapes {
			ai := NewAI(w)
			ai.LoopBound = 30
			mem := aMem{}
			x, y := shapes[i].mk(mem, "x"), shapes[j].mk(mem, "y")
			for k, v := range mem {
				if strings.HasSuffix(k, ".$v") {
					if e, ok := v.single(); ok {
						if q, ok := new(big.Rat).SetString(strings.TrimPrefix(e.Key, "num:")); ok {
							mem[k] = one(ai.numKey(&ratFn{pConst(q), pConst(big.NewRat(1, 1))}))
						}
					}
				}
			}
			res, _ := ai.Run(fn, []aVal{x, y}, mem)
			r.count("expression_pairs", 1)
			key := shapes[i].name + " , " + shapes[j].name
			v, ok := 0, false
			if len(res) == 1 {
				v, ok = res[0].integer()
			}
			if !ok || v < -1 || v > 1 {
				bad++
				fail("expression-order-decided", key, "ExOrder(%s) = %v is not -1, 0 or 1 %s", key, res, ai.giveUps())
				continue
			}
			tab[i][j] = v
			if (v == 0) != (i == j) {
				bad++
				fail("expression-order-distinguishes", key, "ExOrder(%s) = %d: only identical expressions may be equal", key, v)
			}
		}
	}
	for i := range shapes {
		for j := range shapes {
			if bad == 0 && tab[i][j] != -tab[j][i] {
				bad++
				fail("expression-order-antisymmetric", shapes[i].name+" , "+shapes[j].name, "ExOrder gives %d one way and %d the other", tab[i][j], tab[j][i])
			}
		}
	}
	trans := 0
	for i := range shapes {
		for j := range shapes {
			for k := range shapes {
				if bad == 0 && tab[i][j] == 1 && tab[j][k] == 1 && tab[i][k] != 1 {
					trans++
					if trans < 6 {
						r.note("not transitive: %s < %s < %s but not %s < %s", shapes[i].name, shapes[j].name, shapes[k].name, shapes[i].name, shapes[k].name)
					}
				}
			}
		}
	}
	if trans > 0 {
		fail("expression-order-transitive", fmt.Sprint(trans), "%d triples of shapes are not ordered transitively, so that sorting depends on the input order (see notes)", trans)
	}
	checkSortInterface(w, r)
	if bad == 0 && trans == 0 {
		r.ok("expression-order", fmt.Sprintf("%d shapes", n), where, "among %d expression shapes (general, powers, products, nested) the order is antisymmetric and zero only for identical expressions", n)
	}
	r.atLeast("expression_pairs", 900)
}

// checkSortInterface: sorting an expression compares and exchanges its
// arguments, by ExOrder.
func checkSortInterface(w *World, r *Report) {
	mk := func() (aMem, aVal) {
		mem := aMem{}
		return mem, w.mkExpr(mem, "e", w.mkSym(mem, "h", "Global`f"), w.mkSym(mem, "p0", "Global`a"),
			w.mkSym(mem, "p1", "Global`c"), w.mkAtom(mem, "p2", kInt), w.mkSym(mem, "p3", "Global`b"))
	}
	rank := []int{1, 3, 0, 2}
	where := w.Pos(w.Fn(pkgAtoms, "Expression.Less").Pos())
	key := one(aElem{Kind: aAddr, Key: "e"})
	good := true
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			ai := NewAI(w)
			mem, _ := mk()
			res, _ := ai.Run(w.Fn(pkgAtoms, "Expression.Less"), []aVal{key, aInt(int64(i)), aInt(int64(j))}, mem)
			b, ok := false, false
			if len(res) == 1 {
				b, ok = res[0].boolean()
			}
			if !ok || b != (rank[i] < rank[j]) {
				good = false
				r.bad("sort-by-order", fmt.Sprintf("Less(%d,%d)", i, j), where, "of the arguments {a, c, 5, b}, Less(%d,%d) is %v %s", i, j, res, ai.giveUps())
			}
			ai = NewAI(w)
			mem, _ = mk()
			_, m := ai.Run(w.Fn(pkgAtoms, "Expression.Swap"), []aVal{key, aInt(int64(i)), aInt(int64(j))}, mem)
			perm := []int{0, 1, 2, 3}
			perm[i], perm[j] = perm[j], perm[i]
			want := []string{"h"}
			for _, q := range perm {
				want = append(want, fmt.Sprintf("p%d", q))
			}
			var got []string
			for k := 0; k < 5; k++ {
				e, _ := m[fmt.Sprintf("eP[%d]", k)].single()
				got = append(got, e.Key)
			}
			if strings.Join(got, ",") != strings.Join(want, ",") {
				good = false
				r.bad("sort-by-order", fmt.Sprintf("Swap(%d,%d)", i, j), where, "Swap(%d,%d) leaves the parts %v", i, j, got)
			}
		}
	}
	ai := NewAI(w)
	mem, _ := mk()
	res, _ := ai.Run(w.Fn(pkgAtoms, "Expression.Len"), []aVal{key}, mem)
	if n, ok := res[0].integer(); !ok || n != 4 {
		good = false
		r.bad("sort-by-order", "Len", where, "an expression of 4 arguments has sort length %v", res)
	}
	if good {
		r.ok("sort-by-order", "Less, Swap, Len", where, "sorting an expression compares and exchanges its arguments by the canonical order")
	}
}
