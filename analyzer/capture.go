package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Capture analysis: an object that became part of an expression or number must
// not be modified under its old name and then become part of something again.

// aliasesOf follows a freshly created object forward through the values that
// denote the same object.
func (o *Own) aliasesOf(root ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{root: true}
	work := []ssa.Value{root}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		for _, ref := range *orEmpty(v.Referrers()) {
			var nv ssa.Value
			switch x := ref.(type) {
			case *ssa.MakeInterface:
				nv = x
			case *ssa.ChangeInterface:
				nv = x
			case *ssa.ChangeType:
				nv = x
			case *ssa.TypeAssert:
				nv = x
				if x.CommaOk {
					for _, r2 := range *orEmpty(x.Referrers()) {
						if e, ok := r2.(*ssa.Extract); ok && e.Index == 0 && !out[e] {
							out[e] = true
							work = append(work, e)
						}
					}
					continue
				}
			case *ssa.Phi:
				nv = x
			case *ssa.Call:
				f := x.Call.StaticCallee()
				if f != nil && extPkg(f) == "math/big" && f.Signature.Recv() != nil && len(x.Call.Args) > 0 && x.Call.Args[0] == v {
					if f.Signature.Results().Len() > 0 && namedOf(f.Signature.Results().At(0).Type()) == namedOf(f.Signature.Recv().Type()) {
						nv = x
					}
				}
			}
			if nv != nil && !out[nv] {
				out[nv] = true
				work = append(work, nv)
			}
		}
	}
	return out
}

// rootsOf finds the creating instructions of the object a value denotes, as far
// as they lie in the same function.
func (o *Own) rootsOf(v ssa.Value) []ssa.Value {
	var out []ssa.Value
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.Parameter:
			out = append(out, x)
		case *ssa.MakeInterface:
			walk(x.X)
		case *ssa.ChangeInterface:
			walk(x.X)
		case *ssa.ChangeType:
			walk(x.X)
		case *ssa.TypeAssert:
			walk(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				walk(ta.X)
			} else if c, ok := x.Tuple.(*ssa.Call); ok {
				_ = c
				out = append(out, x)
			}
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f != nil && extPkg(f) == "math/big" && f.Signature.Recv() != nil && f.Signature.Results().Len() > 0 && namedOf(f.Signature.Results().At(0).Type()) == namedOf(f.Signature.Recv().Type()) {
				walk(x.Call.Args[0])
				return
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return
			}
			// GetParts() and the like: the object they belong to
			if obj := calleeObj(&x.Call); obj != nil && obj.Name() == "GetParts" {
				if x.Call.IsInvoke() {
					walk(x.Call.Value)
				} else if len(x.Call.Args) > 0 {
					walk(x.Call.Args[0])
				}
				return
			}
			out = append(out, x)
		case *ssa.UnOp:
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				if n := namedOf(a.X.Type()); n != nil && o.atoms[n] {
					walk(a.X)
				}
			case *ssa.Alloc:
				for _, s := range storesTo(a) {
					walk(s)
				}
			}
		case *ssa.Slice:
			walk(x.X)
		}
	}
	walk(v)
	return out
}

func (o *Own) isExElem(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return types.Implements(u.Elem(), o.ex)
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return types.Implements(a.Elem(), o.ex)
		}
	}
	return false
}

type retainKey struct {
	f *ssa.Function
	i int
}

// retains says whether a function keeps its i-th parameter inside an expression
// or number that outlives the call.
func (o *Own) retains(f *ssa.Function, i int, memo map[retainKey]bool) bool {
	k := retainKey{f, i}
	if r, ok := memo[k]; ok {
		return r
	}
	memo[k] = false
	if i >= len(f.Params) || !o.w.inScope[f] {
		return false
	}
	al := o.aliasesOf(f.Params[i])
	for v := range al {
		for _, ref := range *orEmpty(v.Referrers()) {
			if o.capturesHere(ref, v, memo) {
				memo[k] = true
				return true
			}
		}
	}
	return false
}

// capturesHere says whether an instruction makes the object v denotes part of an
// expression or number.
func (o *Own) capturesHere(in ssa.Instruction, v ssa.Value, memo map[retainKey]bool) bool {
	switch x := in.(type) {
	case *ssa.Store:
		if x.Val != v {
			return false
		}
		switch a := x.Addr.(type) {
		case *ssa.FieldAddr:
			n := namedOf(a.X.Type())
			return n != nil && o.atoms[n] && o.valueField(n, a.Field)
		case *ssa.IndexAddr:
			return o.isExElem(a.X.Type())
		}
	case *ssa.MapUpdate:
		// a binding
		return x.Value == v && types.Implements(x.Value.Type(), o.ex)
	case ssa.CallInstruction:
		c := x.Common()
		for _, f := range o.w.Callees(x) {
			for i := range f.Params {
				if argFor(x, f, i) == v {
					if o.retains(f, i, memo) {
						return true
					}
				}
			}
		}
		_ = c
	}
	return false
}

// CaptureReuse reports modifications between two captures of one object.
func (o *Own) captureReuse(f *ssa.Function, m ssa.Instruction, target ssa.Value, memo map[retainKey]bool) (ssa.Instruction, ssa.Value) {
	for _, r := range o.rootsOf(target) {
		def, _ := r.(ssa.Instruction)
		al := o.aliasesOf(r)
		var caps []ssa.Instruction
		for v := range al {
			for _, ref := range *orEmpty(v.Referrers()) {
				if ref != m && o.capturesHere(ref, v, memo) {
					caps = append(caps, ref)
				}
			}
		}
		redef := func(in ssa.Instruction) bool { return def != nil && in == def }
		for _, c1 := range caps {
			if !pathAvoid(c1, m, redef) {
				continue
			}
			for _, c2 := range caps {
				if pathAvoid(m, c2, redef) {
					return c1, r
				}
			}
		}
	}
	return nil, nil
}
