package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract atoms: one abstract object per kind, with symbolic contents.

type atomKind string

const (
	kInt  atomKind = "Integer"
	kRat  atomKind = "Rational"
	kFlt  atomKind = "Flt"
	kCplx atomKind = "Complex"
	kStr  atomKind = "String"
	kSymb atomKind = "Symbol"
	kExpr atomKind = "Expression"
)

var allKinds = []atomKind{kInt, kRat, kFlt, kCplx, kStr, kSymb, kExpr}

// ptrTo is the pointer type of an atom kind.
func (w *World) ptrTo(k atomKind) types.Type {
	return types.NewPointer(w.Type(pkgAtoms, string(k)))
}

// mkAtom puts an abstract atom called name into memory. For a complex number re
// and im give the kinds of its parts. A string's or symbol's text is the symbol
// name+".Val" or name+".Name".
func (w *World) mkAtom(mem aMem, name string, k atomKind, reim ...atomKind) aVal {
	var ai AI
	switch k {
	case kInt, kFlt:
		mem[name+".Val"] = aObj(name+"V", nil)
		mem[name+"V.$v"] = one(aElem{Kind: aSym, Key: "num:" + name})
	case kRat:
		mem[name+".Num"] = aObj(name+"N", nil)
		mem[name+".Den"] = aObj(name+"D", nil)
		mem[name+"N.$v"] = one(aElem{Kind: aSym, Key: "num:" + name + "n"})
		mem[name+"D.$v"] = one(aElem{Kind: aSym, Key: "num:" + name + "d"})
	case kCplx:
		re, im := kInt, kInt
		if len(reim) == 2 {
			re, im = reim[0], reim[1]
		}
		mem[name+".Re"] = w.mkAtom(mem, name+"re", re)
		mem[name+".Im"] = w.mkAtom(mem, name+"im", im)
	case kStr:
		mem[name+".Val"] = aSymV(name + "s")
	case kSymb:
		mem[name+".Name"] = aSymV(name + "s")
	}
	_ = ai
	return aObj(name, w.ptrTo(k))
}

// mkExpr puts an abstract expression with the given parts into memory.
func (w *World) mkExpr(mem aMem, name string, parts ...aVal) aVal {
	for i, p := range parts {
		mem[fmt.Sprintf("%sP[%d]", name, i)] = p
	}
	mem[name+".Parts"] = aList(name+"P", len(parts))
	return aObj(name, w.ptrTo(kExpr))
}

// mkSym is a symbol object of a known name.
func (w *World) mkSym(mem aMem, name, text string) aVal {
	mem[name+".Name"] = aStr(text)
	return aObj(name, w.ptrTo(kSymb))
}

func (w *World) mkString(mem aMem, name, text string) aVal {
	mem[name+".Val"] = aStr(text)
	return aObj(name, w.ptrTo(kStr))
}

// kindOf names the kind of an abstract element.
func kindOf(e aElem) atomKind {
	if e.Kind == aNil {
		return "nil"
	}
	if n := namedOf(e.Typ); e.Typ != nil && n != nil {
		return atomKind(n.Obj().Name())
	}
	return "?"
}

// cnum is an exact complex number over rational functions.
type cnum struct{ re, im *ratFn }

func (ai *AI) realOf(mem aMem, e aElem) (*ratFn, error) {
	at := func(f string) (*ratFn, error) {
		p, ok := mem[e.Key+"."+f]
		if !ok {
			p = one(aElem{Kind: aAddr, Key: e.Key + "." + f + "^"})
		}
		pe, ok := p.single()
		if !ok {
			return nil, fmt.Errorf("%s.%s may be several numbers (%v)", e.Key, f, p)
		}
		c := ai.contentAt(mem, pe.Key)
		ce, ok := c.single()
		if !ok {
			return nil, fmt.Errorf("the value of %s.%s is not determined (%v)", e.Key, f, c)
		}
		return ai.num(ce), nil
	}
	switch kindOf(e) {
	case kInt, kFlt:
		return at("Val")
	case kRat:
		n, err := at("Num")
		if err != nil {
			return nil, err
		}
		d, err := at("Den")
		if err != nil {
			return nil, err
		}
		return rMul(n, rInv(d)), nil
	}
	return nil, fmt.Errorf("%s is %s, not a real number", e.Key, kindOf(e))
}

// valueOf reads the exact value of a number object.
func (ai *AI) valueOf(mem aMem, e aElem) (cnum, error) {
	if kindOf(e) != kCplx {
		r, err := ai.realOf(mem, e)
		return cnum{r, rConst(0)}, err
	}
	part := func(f string) (*ratFn, error) {
		v, ok := mem[e.Key+"."+f]
		if !ok {
			return nil, fmt.Errorf("%s.%s unknown", e.Key, f)
		}
		pe, ok := v.single()
		if !ok {
			return nil, fmt.Errorf("%s.%s may be several numbers (%v)", e.Key, f, v)
		}
		return ai.realOf(mem, pe)
	}
	re, err := part("Re")
	if err != nil {
		return cnum{}, err
	}
	im, err := part("Im")
	return cnum{re, im}, err
}

func cAdd(a, b cnum) cnum { return cnum{rAdd(a.re, b.re), rAdd(a.im, b.im)} }
func cMul(a, b cnum) cnum {
	return cnum{rSub(rMul(a.re, b.re), rMul(a.im, b.im)), rAdd(rMul(a.re, b.im), rMul(a.im, b.re))}
}
func cEq(a, b cnum) bool { return rEq(a.re, b.re) && rEq(a.im, b.im) }
func (c cnum) String() string {
	return c.re.String() + " + I*(" + c.im.String() + ")"
}

func keys(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}

// constOf reads an integer package constant.
func (w *World) constOf(pkg, name string) (aVal, bool) {
	p := w.SSA[pkg]
	if p == nil {
		return aVal{}, false
	}
	if c, ok := p.Members[name].(*ssa.NamedConst); ok {
		return aC(c.Value.Value), true
	}
	return aVal{}, false
}

// undecided conditions mentioning any of the words
func (ai *AI) giveUps() string {
	var o []string
	o = append(o, keys(ai.Imprecise)...)
	for _, p := range ai.Panics {
		o = append(o, "panic: "+p)
	}
	return strings.Join(o, "; ")
}
