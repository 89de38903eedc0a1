package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Algebraic value domain for math/big: the content of a big.Int, big.Rat or
// big.Float is a rational function over the symbolic contents the analysis
// started from. Two contents are the same value exactly if the functions are
// equal, which is decided by cross multiplication.

type poly map[string]*big.Rat // monomial ("a*a*b", "" for 1) -> coefficient

type ratFn struct{ num, den poly }

func pConst(n *big.Rat) poly {
	if n.Sign() == 0 {
		return poly{}
	}
	return poly{"": n}
}

func pVar(v string) poly { return poly{v: big.NewRat(1, 1)} }

func pAdd(a, b poly) poly {
	o := poly{}
	for _, p := range []poly{a, b} {
		for m, c := range p {
			if o[m] == nil {
				o[m] = new(big.Rat)
			}
			o[m] = new(big.Rat).Add(o[m], c)
			if o[m].Sign() == 0 {
				delete(o, m)
			}
		}
	}
	return o
}

const monoSep = "\x01"

func pMul(a, b poly) poly {
	o := poly{}
	for m1, c1 := range a {
		for m2, c2 := range b {
			var vs []string
			for _, m := range []string{m1, m2} {
				if m != "" {
					vs = append(vs, strings.Split(m, monoSep)...)
				}
			}
			sort.Strings(vs)
			m := strings.Join(vs, monoSep)
			c := new(big.Rat).Mul(c1, c2)
			if o[m] != nil {
				c.Add(c, o[m])
			}
			if c.Sign() == 0 {
				delete(o, m)
			} else {
				o[m] = c
			}
		}
	}
	return o
}

func pNeg(a poly) poly { return pMul(a, pConst(big.NewRat(-1, 1))) }

func pEq(a, b poly) bool { return len(pAdd(a, pNeg(b))) == 0 }

func (p poly) String() string {
	if len(p) == 0 {
		return "0"
	}
	var ks []string
	for m := range p {
		ks = append(ks, m)
	}
	sort.Strings(ks)
	var out []string
	for _, m := range ks {
		c := p[m].RatString()
		mm := strings.ReplaceAll(m, monoSep, "·")
		switch {
		case m == "":
			out = append(out, c)
		case c == "1":
			out = append(out, mm)
		default:
			out = append(out, c+"·"+mm)
		}
	}
	return strings.Join(out, "+")
}

func (r *ratFn) String() string {
	if c, ok := r.den[""]; ok && len(r.den) == 1 && c.Cmp(big.NewRat(1, 1)) == 0 {
		return "num:" + r.num.String()
	}
	return "num:(" + r.num.String() + ")/(" + r.den.String() + ")"
}

func (r *ratFn) simp() *ratFn {
	if len(r.den) == 1 {
		if c, ok := r.den[""]; ok {
			return &ratFn{pMul(r.num, pConst(new(big.Rat).Inv(c))), pConst(big.NewRat(1, 1))}
		}
	}
	if len(r.num) == 0 {
		return rConst(0)
	}
	if pEq(r.num, r.den) {
		return rConst(1)
	}
	// cancel a single common monomial factor
	common := func(p poly) map[string]int {
		var acc map[string]int
		for m := range p {
			cur := map[string]int{}
			if m != "" {
				for _, v := range strings.Split(m, monoSep) {
					cur[v]++
				}
			}
			if acc == nil {
				acc = cur
				continue
			}
			for v := range acc {
				if cur[v] < acc[v] {
					acc[v] = cur[v]
				}
			}
		}
		return acc
	}
	cn, cd := common(r.num), common(r.den)
	strip := map[string]int{}
	for v, n := range cn {
		if k := min(n, cd[v]); k > 0 {
			strip[v] = k
		}
	}
	if len(strip) == 0 {
		return r
	}
	div := func(p poly) poly {
		o := poly{}
		for m, c := range p {
			left := map[string]int{}
			for k, v := range strip {
				left[k] = v
			}
			var vs []string
			for _, v := range strings.Split(m, monoSep) {
				if left[v] > 0 {
					left[v]--
					continue
				}
				vs = append(vs, v)
			}
			o[strings.Join(vs, monoSep)] = c
		}
		return o
	}
	return (&ratFn{div(r.num), div(r.den)}).simp()
}

func rConst(n int64) *ratFn {
	return &ratFn{pConst(big.NewRat(n, 1)), pConst(big.NewRat(1, 1))}
}
func rVar(v string) *ratFn { return &ratFn{pVar(v), pConst(big.NewRat(1, 1))} }
func rAdd(a, b *ratFn) *ratFn {
	return (&ratFn{pAdd(pMul(a.num, b.den), pMul(b.num, a.den)), pMul(a.den, b.den)}).simp()
}
func rMul(a, b *ratFn) *ratFn { return (&ratFn{pMul(a.num, b.num), pMul(a.den, b.den)}).simp() }
func rNeg(a *ratFn) *ratFn    { return &ratFn{pNeg(a.num), a.den} }
func rInv(a *ratFn) *ratFn    { return (&ratFn{a.den, a.num}).simp() }
func rSub(a, b *ratFn) *ratFn { return rAdd(a, rNeg(b)) }
func rEq(a, b *ratFn) bool    { return pEq(pMul(a.num, b.den), pMul(b.num, a.den)) }
func (r *ratFn) isConst() (*big.Rat, bool) {
	s := r.simp()
	if len(s.num) == 0 {
		return new(big.Rat), true
	}
	if c, ok := s.num[""]; ok && len(s.num) == 1 {
		if d, ok := s.den[""]; ok && len(s.den) == 1 {
			return new(big.Rat).Quo(c, d), true
		}
	}
	return nil, false
}

// numbers known by key
func (ai *AI) numKey(r *ratFn) aElem {
	r = r.simp()
	k := r.String()
	if ai.nums == nil {
		ai.nums = map[string]*ratFn{}
	}
	ai.nums[k] = r
	return aElem{Kind: aSym, Key: k}
}

func (ai *AI) num(e aElem) *ratFn {
	if r, ok := ai.nums[e.Key]; ok && e.Kind == aSym {
		return r
	}
	if e.Kind == aConst {
		if n, ok := new(big.Rat).SetString(constant.ToFloat(e.C).ExactString()); ok {
			return &ratFn{pConst(n), pConst(big.NewRat(1, 1))}
		}
	}
	return rVar(e.Key)
}

// contents of the number objects v points to
func (ai *AI) contents(st *aState, v aVal) aVal {
	if v.Top {
		return aTop
	}
	out := aVal{}
	for _, e := range v.Els {
		if e.Kind != aAddr && e.Kind != aSym {
			continue
		}
		out = join(out, ai.contentAt(st.mem, e.Key))
	}
	return out
}

func (ai *AI) contentAt(mem aMem, key string) aVal {
	if c, ok := mem[key+".$v"]; ok {
		return c
	}
	if isFresh(key) {
		return one(ai.numKey(rConst(0)))
	}
	return one(ai.numKey(rVar(key)))
}

func (ai *AI) setContents(st *aState, z aVal, c aVal) {
	if z.Top {
		ai.imprecise("number written through an unknown pointer")
		return
	}
	for _, e := range z.Els {
		if e.Kind != aAddr && e.Kind != aSym {
			continue
		}
		if len(z.Els) == 1 {
			st.mem[e.Key+".$v"] = c
		} else {
			st.mem[e.Key+".$v"] = join(ai.contentAt(st.mem, e.Key), c)
		}
	}
}

func (ai *AI) op2(a, b aVal, f func(x, y *ratFn) *ratFn) aVal {
	if a.Top || b.Top {
		return aTop
	}
	r := aVal{}
	for _, x := range a.Els {
		for _, y := range b.Els {
			r = join(r, one(ai.numKey(f(ai.num(x), ai.num(y)))))
		}
	}
	return r
}

// numCmp compares two contents as far as known.
func (ai *AI) numCmp(x, y aElem) aVal {
	a, b := ai.num(x), ai.num(y)
	if rEq(a, b) {
		return aInt(0)
	}
	if d, ok := rSub(a, b).isConst(); ok {
		return aInt(int64(d.Sign()))
	}
	if ai.NumCmp != nil {
		if c, ok := ai.NumCmp(a, b); ok {
			return aInt(int64(c))
		}
	}
	return aSymV("cmp(" + a.String() + "," + b.String() + ")")
}

func cross(a, b aVal, f func(x, y aElem) aVal) aVal {
	if a.Top || b.Top {
		return aTop
	}
	r := aVal{}
	for _, x := range a.Els {
		for _, y := range b.Els {
			r = join(r, f(x, y))
		}
	}
	return r
}

// bigIntrinsic models math/big.
func (fr *aFrame) bigIntrinsic(st *aState, call ssa.CallInstruction, fn *ssa.Function, args []aVal) ([]aVal, bool) {
	ai := fr.ai
	if fn.Pkg == nil && fn.Object() == nil {
		return nil, false
	}
	obj, _ := fn.Object().(*types.Func)
	if obj == nil || obj.Pkg() == nil || obj.Pkg().Path() != "math/big" {
		return nil, false
	}
	sig := obj.Type().(*types.Signature)
	fresh := func(c aVal) []aVal {
		n := fr.freshName(call.(ssa.Value)) + "_big"
		st.mem["live:"+n] = aBool(true)
		st.mem[n+".$v"] = c
		return []aVal{one(aElem{Kind: aAddr, Key: n})}
	}
	scalar := func(v aVal) aVal {
		return mapEls(v, func(e aElem) aVal { return one(ai.numKey(ai.num(e))) })
	}
	round := func(v aVal) aVal {
		if !ai.Rounding {
			return v
		}
		return mapEls(v, func(e aElem) aVal {
			r := ai.num(e)
			if _, ok := r.isConst(); ok {
				return one(e)
			}
			if strings.HasPrefix(r.String(), "num:fl(") {
				return one(e)
			}
			return one(ai.numKey(rVar("fl(" + r.String() + ")")))
		})
	}
	if sig.Recv() == nil {
		switch obj.Name() {
		case "NewInt", "NewFloat":
			return fresh(scalar(args[0])), true
		case "NewRat":
			return fresh(ai.op2(scalar(args[0]), scalar(args[1]), func(x, y *ratFn) *ratFn { return rMul(x, rInv(y)) })), true
		}
		return nil, false
	}
	rt := namedOf(sig.Recv().Type())
	if rt == nil {
		return nil, false
	}
	typ, m := rt.Obj().Name(), obj.Name()
	z := args[0]
	arg := func(i int) aVal { return ai.contents(st, args[i]) }
	put := func(c aVal) ([]aVal, bool) {
		ai.setContents(st, z, c)
		return []aVal{z}, true
	}
	// whole number operations on known numbers
	if typ == "Int" {
		known := func(i int) *big.Int {
			if i >= len(args) {
				return nil
			}
			if e, ok := arg(i).single(); ok {
				if c, ok := ai.num(e).isConst(); ok && c.IsInt() {
					return c.Num()
				}
			}
			return nil
		}
		toV := func(n *big.Int) aVal {
			return one(ai.numKey(&ratFn{pConst(new(big.Rat).SetInt(n)), pConst(big.NewRat(1, 1))}))
		}
		isNil := func(v aVal) bool { e, ok := v.single(); return ok && e.Kind == aNil }
		switch m {
		case "Quo", "Div", "Rem", "Mod":
			if x, y := known(1), known(2); x != nil && y != nil && y.Sign() != 0 {
				f := map[string]func(a, b *big.Int) *big.Int{"Quo": new(big.Int).Quo, "Div": new(big.Int).Div, "Rem": new(big.Int).Rem, "Mod": new(big.Int).Mod}[m]
				return put(toV(f(x, y)))
			}
		case "QuoRem", "DivMod":
			if x, y := known(1), known(2); x != nil && y != nil && y.Sign() != 0 {
				f := map[string]func(a, b *big.Int) (*big.Int, *big.Int){
					"QuoRem": func(a, b *big.Int) (*big.Int, *big.Int) { return new(big.Int).QuoRem(a, b, new(big.Int)) },
					"DivMod": func(a, b *big.Int) (*big.Int, *big.Int) { return new(big.Int).DivMod(a, b, new(big.Int)) }}[m]
				q, r := f(x, y)
				ai.setContents(st, z, toV(q))
				ai.setContents(st, args[3], toV(r))
				return []aVal{z, args[3]}, true
			}
		case "CmpAbs":
			if x, y := known(0), known(1); x != nil && y != nil {
				return []aVal{aInt(int64(x.CmpAbs(y)))}, true
			}
		case "BitLen":
			if x := known(0); x != nil {
				return []aVal{aInt(int64(x.BitLen()))}, true
			}
		case "GCD":
			if len(args) == 5 && isNil(args[1]) && isNil(args[2]) {
				if x, y := known(3), known(4); x != nil && y != nil {
					return put(toV(new(big.Int).GCD(nil, nil, x, y)))
				}
			}
		}
	}
	if typ == "Rat" {
		if e, ok := arg(0).single(); ok {
			if c, ok := ai.num(e).isConst(); ok {
				whole := func(n *big.Int) ([]aVal, bool) {
					return fresh(one(ai.numKey(&ratFn{pConst(new(big.Rat).SetInt(n)), pConst(big.NewRat(1, 1))}))), true
				}
				switch m {
				case "Num":
					return whole(c.Num())
				case "Denom":
					return whole(c.Denom())
				case "IsInt":
					return []aVal{aBool(c.IsInt())}, true
				}
			}
		}
	}
	switch m {
	case "Add":
		return put(ai.op2(arg(1), arg(2), rAdd))
	case "Sub":
		return put(ai.op2(arg(1), arg(2), rSub))
	case "Mul":
		return put(ai.op2(arg(1), arg(2), rMul))
	case "Neg":
		return put(ai.op2(arg(1), arg(1), func(x, _ *ratFn) *ratFn { return rNeg(x) }))
	case "Quo":
		if typ == "Int" {
			break
		}
		return put(ai.op2(arg(1), arg(2), func(x, y *ratFn) *ratFn { return rMul(x, rInv(y)) }))
	case "Inv":
		return put(ai.op2(arg(1), arg(1), func(x, _ *ratFn) *ratFn { return rInv(x) }))
	case "Set", "Copy":
		return put(arg(1))
	case "SetString":
		t, ok := args[1].str()
		if !ok {
			break
		}
		base := 10
		if len(args) > 2 {
			if base, ok = args[2].integer(); !ok {
				break
			}
		}
		var v *big.Rat
		if typ == "Int" {
			if n, ok := new(big.Int).SetString(t, base); ok {
				v = new(big.Rat).SetInt(n)
			}
		} else {
			v, _ = new(big.Rat).SetString(t)
		}
		if v == nil {
			return []aVal{aNilV, aBool(false)}, true
		}
		ai.setContents(st, z, one(ai.numKey(&ratFn{pConst(v), pConst(big.NewRat(1, 1))})))
		return []aVal{z, aBool(true)}, true
	case "SetInt", "SetRat":
		if typ == "Float" {
			return put(round(arg(1)))
		}
		return put(arg(1))
	case "SetInt64", "SetUint64", "SetFloat64":
		return put(scalar(args[1]))
	case "SetFrac":
		return put(ai.op2(arg(1), arg(2), func(x, y *ratFn) *ratFn { return rMul(x, rInv(y)) }))
	case "Abs":
		return put(mapEls(arg(1), func(e aElem) aVal {
			r := ai.num(e)
			s := ai.numCmp(e, ai.numKey(rConst(0)))
			if n, ok := s.integer(); ok {
				if n < 0 {
					return one(ai.numKey(rNeg(r)))
				}
				return one(e)
			}
			return one(ai.numKey(rVar("abs(" + r.String() + ")")))
		}))
	case "Cmp":
		return []aVal{cross(z2(ai, st, z), arg(1), ai.numCmp)}, true
	case "Sign":
		return []aVal{mapEls(ai.contents(st, z), func(e aElem) aVal { return ai.numCmp(e, ai.numKey(rConst(0))) })}, true
	case "Int64", "Uint64":
		if sig.Results().Len() != 1 {
			break
		}
		return []aVal{mapEls(ai.contents(st, z), func(e aElem) aVal {
			if c, ok := ai.num(e).isConst(); ok && c.IsInt() {
				return aInt(c.Num().Int64())
			}
			return one(e)
		})}, true
	case "IsInt64", "IsUint64":
		if e, ok := ai.contents(st, z).single(); ok {
			if c, ok := ai.num(e).isConst(); ok && c.IsInt() {
				if obj.Name() == "IsInt64" {
					return []aVal{aBool(c.Num().IsInt64())}, true
				}
				return []aVal{aBool(c.Num().IsUint64())}, true
			}
		}
	case "Rat": // (*Float).Rat(z) (*Rat, Accuracy)
		c := ai.contents(st, z)
		if e, ok := args[1].single(); ok && e.Kind == aNil {
			return []aVal{fresh(c)[0], aSymV("accuracy")}, true
		}
		ai.setContents(st, args[1], c)
		return []aVal{args[1], aSymV("accuracy")}, true
	case "Num", "Denom":
		return fresh(mapEls(ai.contents(st, z), func(e aElem) aVal {
			return one(ai.numKey(rVar(strings.ToLower(m) + "(" + ai.num(e).String() + ")")))
		})), true
	case "Text":
		if typ == "Float" && ai.FmtNum != nil {
			f, ok1 := args[1].integer()
			n, ok2 := args[2].integer()
			ce, ok3 := ai.contents(st, z).single()
			if ok1 && ok2 && ok3 {
				if t, ok := ai.FmtNum(fmt.Sprintf("%%.%d%c", n, rune(f)), ai.num(ce)); ok {
					return []aVal{aStr(t)}, true
				}
			}
		}
		fallthrough
	case "GobEncode", "Bytes", "String", "MarshalText", "MarshalBinary", "Append":
		var ks []string
		ks = append(ks, ai.contents(st, z).key())
		for _, a := range args[1:] {
			ks = append(ks, a.key())
		}
		var out []aVal
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			if i > 0 {
				out = append(out, aNilV)
				continue
			}
			k := typ + "." + m + "(" + strings.Join(ks, ",") + ")"
			if _, ok := rt.Underlying().(*types.Slice); ok {
				out = append(out, one(aElem{Kind: aSlice, Key: k + "#", Base: k + "#", N: -1}))
			} else {
				out = append(out, aSymV(k))
			}
		}
		return out, true
	case "Float64", "Float32":
		var out []aVal
		out = append(out, mapEls(ai.contents(st, z), func(e aElem) aVal { return aSymV("float64(" + ai.num(e).String() + ")") }))
		for i := 1; i < sig.Results().Len(); i++ {
			out = append(out, aSymV(fmt.Sprintf("acc%d", i)))
		}
		return out, true
	}
	// A function of the operands' contents; a result of the receiver's type is
	// the receiver, written.
	var ks []string
	for i, a := range args {
		if i == 0 && sig.Results().Len() >= 1 && types.Identical(sig.Results().At(0).Type(), sig.Recv().Type()) {
			continue
		}
		if i < 1 || pointerToBig(sig.Params().At(i-1).Type()) {
			ks = append(ks, ai.contents(st, a).key())
		} else {
			ks = append(ks, a.key())
		}
	}
	k := strings.ToLower(typ) + m + "(" + strings.Join(ks, ",") + ")"
	if sig.Results().Len() >= 1 && types.Identical(sig.Results().At(0).Type(), sig.Recv().Type()) {
		// division by a gcd is exact
		if (m == "Div" || m == "Quo") && typ == "Int" {
			c := cross(arg(1), arg(2), func(x, y aElem) aVal {
				if strings.HasPrefix(ai.num(y).String(), "num:intGCD(") {
					return one(ai.numKey(rMul(ai.num(x), rInv(ai.num(y)))))
				}
				return one(ai.numKey(rVar("div(" + x.Key + "," + y.Key + ")")))
			})
			return put(c)
		}
		put(one(ai.numKey(rVar(k))))
		out := []aVal{z}
		for i := 1; i < sig.Results().Len(); i++ {
			out = append(out, symResult(k, i, sig.Results().Len(), sig.Results().At(i).Type()))
		}
		return out, true
	}
	var out []aVal
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, symResult(k, i, sig.Results().Len(), sig.Results().At(i).Type()))
	}
	return out, true
}

func z2(ai *AI, st *aState, z aVal) aVal { return ai.contents(st, z) }

func pointerToBig(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}
