package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C37", Title: "Integers are never cut down to machine size", Run: runTrunc,
		Explain: "Every conversion of an arbitrary-precision integer to a machine integer (Int64, Uint64 of math/big) must come where the number is known to fit: on every way to it IsInt64 or IsUint64 of the same number was true, or its bit length or comparisons with numbers made from machine integers bound it; or the number was made from a machine integer in the first place; or the result is returned together with IsInt64 of the same number. Guards in helpers and at all callers count. Conversions to narrower machine integers of such results must be bounded likewise.",
		Assume:  []string{"int has 64 bits.", "Numbers are not changed in place (C01)."}})
}

// Marker types for facts about arbitrary-precision integers.
var (
	markInt64  = types.Typ[types.Int64]
	markUint64 = types.Typ[types.Uint64]
	markUpper  = types.Typ[types.Int32] // not above a machine integer
	markLower  = types.Typ[types.Int16] // not below one
)

func mirror(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func bigIntMethod(c *ssa.CallCommon) (string, ssa.Value) {
	g := c.StaticCallee()
	if g == nil || g.Signature.Recv() == nil || len(c.Args) == 0 || types.TypeString(g.Signature.Recv().Type(), nil) != "*math/big.Int" {
		return "", nil
	}
	return g.Name(), c.Args[0]
}

// bigRange adds what a test of an arbitrary-precision integer tells about it.
func (b *Bnd) bigRange(f *facts, call *ssa.Call, op token.Token, k int64, truth bool) {
	name, recv := bigIntMethod(&call.Call)
	if recv == nil || !truth {
		return
	}
	mark := func(v ssa.Value, t types.Type) {
		p := b.pathOf(v)
		f.typ = append(f.typ, tyfact{p, b.key(p), t})
	}
	switch name {
	case "IsInt64":
		mark(recv, markInt64)
	case "IsUint64":
		mark(recv, markUint64)
	case "BitLen":
		if op == token.LSS && k <= 64 || op == token.LEQ && k <= 63 || op == token.EQL && k <= 63 {
			mark(recv, markInt64)
		}
	case "Sign":
		switch {
		case op == token.GTR && k >= -1, op == token.GEQ && k >= 0, op == token.EQL && k >= 0, op == token.NEQ && k == -1:
			mark(recv, markLower)
		}
		switch {
		case op == token.LSS && k <= 1, op == token.LEQ && k <= 0, op == token.EQL && k <= 0, op == token.NEQ && k == 1:
			mark(recv, markUpper)
		}
	case "Cmp":
		x, y := recv, call.Call.Args[1]
		lo, hi := false, false // of x against y
		switch {
		case op == token.GTR && k >= -1, op == token.GEQ && k >= 0, op == token.EQL && k >= 0, op == token.NEQ && k == -1:
			lo = true
		}
		switch {
		case op == token.LSS && k <= 1, op == token.LEQ && k <= 0, op == token.EQL && k <= 0, op == token.NEQ && k == 1:
			hi = true
		}
		if b.smallBig(y, 0) {
			if lo {
				mark(x, markLower)
			}
			if hi {
				mark(x, markUpper)
			}
		}
		if b.smallBig(x, 0) {
			if lo {
				mark(y, markUpper)
			}
			if hi {
				mark(y, markLower)
			}
		}
	}
}

// smallBig: the number was made from a machine integer.
func (b *Bnd) smallBig(v ssa.Value, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		g := x.Call.StaticCallee()
		if g == nil {
			return false
		}
		if g.RelString(nil) == "math/big.NewInt" {
			return true
		}
		if n, _ := bigIntMethod(&x.Call); n == "SetInt64" {
			return true
		}
	case *ssa.UnOp:
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			// the number of a freshly made Integer
			if c, ok := a.X.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Signature.Params().Len() == 1 && isInt(g.Signature.Params().At(0).Type()) {
					return true
				}
			}
		case *ssa.Global:
			return b.constGlobal(a) && b.globalSmall(a, d)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !b.smallBig(e, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

func (b *Bnd) globalSmall(g *ssa.Global, d int) bool {
	if g.Pkg == nil {
		return false
	}
	ini := g.Pkg.Func("init")
	if ini == nil {
		return false
	}
	ok := false
	instrs(ini, func(in ssa.Instruction) {
		if st, is := in.(*ssa.Store); is && st.Addr == g {
			ok = b.smallBig(st.Val, d+1)
		}
	})
	return ok
}

// fits: the number is known to fit a machine integer at the point.
func (b *Bnd) fits(v ssa.Value, at bpoint, unsigned bool, d int) bool {
	if d > 5 {
		return false
	}
	if b.smallBig(v, 0) {
		return true
	}
	p := b.pathOf(v)
	if b.fitsPath(p, at, unsigned) {
		return true
	}
	if ph, ok := v.(*ssa.Phi); ok && at.blk != nil && ph.Block().Dominates(at.blk) {
		for i, e := range ph.Edges {
			if !b.fits(e, bpoint{blk: ph.Block().Preds[i], to: ph.Block()}, unsigned, d+1) {
				return false
			}
		}
		return true
	}
	// at all callers
	f := at.blk.Parent()
	if prm, ok := p.root.(*ssa.Parameter); ok && prm.Parent() == f && b.onlyCalled(f) && !ast_exported(f) && len(b.w.callersOf[f]) > 0 {
		for _, call := range b.w.callersOf[f] {
			q, ok := b.subst(p, call, f)
			if !ok {
				return false
			}
			if b.fitsPath(q, bpoint{blk: call.Block()}, unsigned) {
				continue
			}
			if len(p.sel) == 0 {
				if a := argOf(call, f, paramIndex(f, prm)); a != nil && b.fits(a, bpoint{blk: call.Block()}, unsigned, d+1) {
					continue
				}
			}
			return false
		}
		return true
	}
	return false
}

func (b *Bnd) fitsPath(p apath, at bpoint, unsigned bool) bool {
	k := b.key(p)
	lo, hi := false, false
	fs := b.pf(at)
	if fs.contra {
		return true
	}
	for _, t := range fs.typ {
		if t.k != k {
			continue
		}
		switch t.t {
		case markInt64:
			if !unsigned {
				return true
			}
			hi = true
		case markUint64:
			if unsigned {
				return true
			}
		case markUpper:
			hi = true
		case markLower:
			lo = true
		}
	}
	return lo && hi
}

// returnedWithTest: the machine integer is only returned, together with the
// test whether it fits.
func (b *Bnd) returnedWithTest(x *ssa.Call, recv ssa.Value) bool {
	k := b.key(b.pathOf(recv))
	n := 0
	for _, ref := range *orEmpty(x.Referrers()) {
		switch y := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Return:
			ok := false
			for _, r := range y.Results {
				if c, is := r.(*ssa.Call); is {
					if m, rv := bigIntMethod(&c.Call); (m == "IsInt64" || m == "IsUint64") && b.key(b.pathOf(rv)) == k {
						ok = true
					}
				}
			}
			if !ok {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

func runTrunc(w *World, r *Report) {
	b := NewBnd(w)
	for _, f := range w.Funcs {
		if !coreFunc(f) || docOnly(w, f, 0) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			x, ok := in.(*ssa.Call)
			if !ok {
				return
			}
			name, recv := bigIntMethod(&x.Call)
			if name != "Int64" && name != "Uint64" {
				return
			}
			r.count("conversions", 1)
			switch {
			case b.fits(recv, bpoint{blk: x.Block()}, name == "Uint64", 0):
				r.ok("conversion", fname(f), w.At(in), "the number fits")
			case b.returnedWithTest(x, recv):
				r.ok("conversion", fname(f), w.At(in), "returned with the test whether it fits")
			default:
				r.bad("conversion", fname(f)+"|"+name, w.At(in), "an integer beyond 64 bits is cut to 64 bits: nothing on the way to %s tells that it fits", name)
			}
			for _, ref := range *orEmpty(x.Referrers()) {
				if cv, ok := ref.(*ssa.Convert); ok && isInt(cv.Type()) && narrower(cv.Type()) {
					r.bad("narrowing", fname(f), w.At(cv), "an integer is cut to %s", cv.Type())
				}
			}
		})
	}
	r.atLeast("conversions", 15)
}

func narrower(t types.Type) bool {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch bt.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
		return true
	}
	return false
}
