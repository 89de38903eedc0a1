package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"math/big"
)

func init() {
	register(&Check{ID: "C36", Title: "Fractions and complex numbers evaluate to lowest terms", Run: checkCanon,
		Explain: "EvalState.Eval is interpreted abstractly on fractions with given numerator and denominator (all pairs from -12 to 12, multiples of large numbers) and on complex numbers whose parts evaluate to given values. The result is compared with the reduced fraction (positive denominator, whole numbers as integers, 0/0 as Indeterminate, n/0 as ComplexInfinity) and with the complex number of the evaluated parts (the real part alone if the imaginary part is exactly 0); the original keeps its content.",
		Assume:  []string{"math/big computes exactly."}})
}

func checkCanon(w *World, r *Report) {
	at := w.Pos(w.Fn(pkgCore, "EvalState.Eval").Pos())
	intVal := func(n *big.Int) aVal {
		return aC(constant.BinaryOp(constant.ToFloat(constant.Make(n)), token.QUO, constant.MakeFloat64(1)))
	}
	fracs := 0
	fraction := func(num, den *big.Int) {
		fracs++
		name := fmt.Sprintf("%v/%v", num, den)
		x := w.newEvalRun(&evalCase{})
		mem := x.ai.initGlobals(pkgCore)
		for k, v := range x.ai.initGlobals(pkgAtoms) {
			mem[k] = v
		}
		es := w.evalState(mem)
		v := w.mkAtom(mem, "in", kRat)
		mem["inN.$v"], mem["inD.$v"] = intVal(num), intVal(den)
		res, out, err := x.ai.RunMethod(es, "Eval", []aVal{v}, mem)
		if err != nil || len(res) != 1 || x.ai.giveUps() != "" {
			r.check("fraction", name, at, false, fmt.Sprint("not determined: ", err, x.ai.giveUps()))
			return
		}
		want := ""
		switch {
		case den.Sign() == 0 && num.Sign() == 0:
			want = "System`Indeterminate"
		case den.Sign() == 0:
			want = "System`ComplexInfinity"
		default:
			q := new(big.Rat).SetFrac(num, den)
			if want = q.Num().String(); !q.IsInt() {
				want = q.String()
			}
		}
		got := x.number(out, res[0])
		if got == "" {
			got = x.ai.toTree(out, res[0]).String()
		}
		bad := ""
		if got != want {
			bad = fmt.Sprintf("gives %s instead of %s", got, want)
		} else if in := x.number(out, v); in != name {
			bad = "changes its argument to " + in
		}
		r.check("fraction", name, at, bad == "", ctxRE.ReplaceAllString(bad, ""))
	}
	for n := int64(-12); n <= 12; n++ {
		for d := int64(-12); d <= 12; d++ {
			fraction(big.NewInt(n), big.NewInt(d))
		}
	}
	big1, _ := new(big.Int).SetString("1606938044258990275541962092341162602522202993782792835301376", 10)
	for _, f := range []int64{-35, -7, -1, 0, 1, 6, 14} {
		for _, g := range []int64{-21, -1, 1, 3, 28} {
			fraction(new(big.Int).Mul(big1, big.NewInt(f)), new(big.Int).Mul(big1, big.NewInt(g)))
			fraction(new(big.Int).Mul(big1, big.NewInt(f)), big.NewInt(g))
			fraction(big.NewInt(f), new(big.Int).Mul(big1, big.NewInt(g)))
		}
	}
	r.count("fractions", fracs)
	r.atLeast("fractions", 600)

	vals := []string{"0", "1", "-3", "2/3", "0.", "2.5", "Global`a", "Global`f[2]", "System`Indeterminate"}
	n := 0
	for _, re := range vals {
		for _, im := range vals {
			for _, res := range [][2]string{{re, im}, {re, "0"}, {"5", im}, {"0", "0"}, {"0.", "0."}, {"1/2", "0"}, {"7", "Global`b"}} {
				n++
				c := &evalCase{text: fmt.Sprintf("(Complex)[%s, %s]", re, im), outcome: map[string]string{}}
				if re != res[0] {
					c.outcome[re] = res[0]
				}
				if im != res[1] {
					c.outcome[im] = res[1]
				}
				if re == im && res[0] != res[1] {
					continue
				}
				x := w.newEvalRun(c)
				mem := x.ai.initGlobals(pkgCore)
				for k, v := range x.ai.initGlobals(pkgAtoms) {
					mem[k] = v
				}
				es := w.evalState(mem)
				t := parseTree(c.text)
				v := w.freshTree(mem, t, "in")
				name := fmt.Sprintf("Complex[%s, %s] with parts evaluating to %s and %s", re, im, res[0], res[1])
				o, out, err := x.ai.RunMethod(es, "Eval", []aVal{v}, mem)
				if err != nil || len(o) != 1 || x.ai.giveUps() != "" {
					r.check("complex", name, at, false, fmt.Sprint("not determined: ", err, x.ai.giveUps()))
					continue
				}
				want := parseTree(fmt.Sprintf("(Complex)[%s, %s]", res[0], res[1]))
				if res[1] == "0" {
					want = parseTree(res[0])
				}
				norm := func(v aVal) string { return x.ai.toTree(out, v).String() }
				exp := norm2(w, x, want)
				bad := ""
				if got := norm(o[0]); got != exp {
					bad = fmt.Sprintf("gives %s instead of %s", got, exp)
				} else if in := norm(v); in != norm2(w, x, t) {
					bad = "changes its argument to " + in
				}
				r.check("complex", ctxRE.ReplaceAllString(name, ""), at, bad == "", ctxRE.ReplaceAllString(bad, ""))
			}
		}
	}
	r.count("complex numbers", n)
	r.atLeast("complex numbers", 300)
}

// norm2 is the text of a tree after a round through memory.
func norm2(w *World, x *evalRun, t *tree) string {
	mem := aMem{}
	return x.ai.toTree(mem, w.freshTree(mem, t, "n")).String()
}

// number is the exact content of an Integer or a Rational, not reduced.
func (x *evalRun) number(mem aMem, v aVal) string {
	e, ok := v.single()
	if !ok {
		return ""
	}
	field := func(f string) string {
		p, ok := mem[e.Key+"."+f].single()
		if !ok {
			return "?"
		}
		c, ok := x.ai.contentAt(mem, p.Key).single()
		if !ok {
			return "?"
		}
		n, ok := x.ai.num(c).isConst()
		if !ok || !n.IsInt() {
			return "?"
		}
		return n.Num().String()
	}
	switch kindOf(e) {
	case kInt:
		return field("Val")
	case kRat:
		return field("Num") + "/" + field("Den")
	}
	return ""
}
