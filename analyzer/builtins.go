package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A builtin is one registered Definition: its fields as far as they are
// constants or functions.
type builtin struct {
	Name  string
	At    ssa.Instruction
	Funcs map[string]*ssa.Function // by field
	Vals  map[string]ssa.Value
	Const map[string]constant.Value
}

// Eval is the Go function that evaluates the builtin: of type
// func(ExpressionInterface, EvalStateInterface) Ex.
func (b *builtin) Eval() *ssa.Function {
	for _, f := range b.Funcs {
		s := f.Signature
		if s.Params().Len() == 2 && s.Results().Len() == 1 && isNamed(s.Params().At(0).Type(), pkgAPI, "ExpressionInterface") && isNamed(s.Params().At(1).Type(), pkgAPI, "EvalStateInterface") {
			return f
		}
	}
	return nil
}

// EvalValue is the value of the field that holds the function, however it is
// made.
func (b *builtin) EvalValue() ssa.Value {
	for _, v := range b.Vals {
		s, ok := v.Type().Underlying().(*types.Signature)
		if ok && s.Params().Len() == 2 && s.Results().Len() == 1 && isNamed(s.Params().At(0).Type(), pkgAPI, "ExpressionInterface") && isNamed(s.Params().At(1).Type(), pkgAPI, "EvalStateInterface") {
			return v
		}
	}
	return nil
}

// constValue computes a value that is made of functions, constants and calls
// with such arguments.
func (w *World) constValue(ai *AI, v ssa.Value, mem aMem) (aVal, aMem, error) {
	switch x := v.(type) {
	case *ssa.Function:
		return one(aElem{Kind: aFunc, Key: fname(x), Fn: x}), mem, nil
	case *ssa.ChangeType:
		return w.constValue(ai, x.X, mem)
	case *ssa.Const:
		if x.Value == nil {
			return aNilV, mem, nil
		}
		return aC(x.Value), mem, nil
	case *ssa.MakeClosure:
		var b []aVal
		for _, y := range x.Bindings {
			z, m, err := w.constValue(ai, y, mem)
			if err != nil {
				return z, m, err
			}
			b, mem = append(b, z), m
		}
		f := x.Fn.(*ssa.Function)
		return one(aElem{Kind: aFunc, Key: fname(f), Fn: f, Bind: b}), mem, nil
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			break
		}
		var args []aVal
		for _, y := range x.Call.Args {
			z, m, err := w.constValue(ai, y, mem)
			if err != nil {
				return z, m, err
			}
			args, mem = append(args, z), m
		}
		r, m := ai.Run(f, args, mem)
		if len(r) != 1 {
			return aTop, m, fmt.Errorf("%s has no single result", fname(f))
		}
		return r[0], m, nil
	}
	return aTop, mem, fmt.Errorf("the function is made in a way that is not understood (%v)", v)
}

// runFunc interprets a known function value.
func (ai *AI) runFunc(f aVal, args []aVal, mem aMem) ([]aVal, aMem) {
	e, ok := f.single()
	if !ok || e.Kind != aFunc || e.Fn == nil {
		ai.imprecise("the function is not determined (%v)", f)
		return nil, mem
	}
	ctx := fmt.Sprintf("run%d", ai.runs)
	ai.runs++
	ai.pend = nil
	return ai.call(e.Fn, args, e.Bind, mem, ctx, 0, nil, true)
}

// builtins lists all registered definitions.
func (w *World) builtins() map[string]*builtin {
	if w.builtinC != nil {
		return w.builtinC
	}
	w.builtinC = map[string]*builtin{}
	dt := w.Type(pkgCore, "Definition")
	if dt == nil {
		return w.builtinC
	}
	for _, f := range w.Funcs {
		if !coreFunc(f) {
			continue
		}
		by := map[ssa.Value]*builtin{}
		instrs(f, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			pt, ok := fa.X.Type().Underlying().(*types.Pointer)
			if !ok || !types.Identical(pt.Elem(), dt) {
				return
			}
			b := by[fa.X]
			if b == nil {
				b = &builtin{At: in, Funcs: map[string]*ssa.Function{}, Vals: map[string]ssa.Value{}, Const: map[string]constant.Value{}}
				by[fa.X] = b
			}
			n := fieldVar(fa.X.Type(), fa.Field).Name()
			v := st.Val
			b.Vals[n] = v
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
			}
			switch x := v.(type) {
			case *ssa.Const:
				if x.Value != nil {
					b.Const[n] = x.Value
					if n == "Name" && x.Value.Kind() == constant.String {
						b.Name = constant.StringVal(x.Value)
						b.At = in
					}
				}
			case *ssa.Function:
				b.Funcs[n] = x
			case *ssa.MakeClosure:
				b.Funcs[n], _ = x.Fn.(*ssa.Function)
			}
		})
		for _, b := range by {
			if b.Name != "" && w.builtinC[b.Name] == nil {
				w.builtinC[b.Name] = b
			}
		}
	}
	return w.builtinC
}
