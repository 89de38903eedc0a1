package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C30", Title: "Evaluation never dereferences nil", Run: runNil,
		Explain: "Every place in the interpreter's packages that panics on nil - a method called on an interface, a field or element reached through a pointer, a function value called, a key written to a map, a pointer handed to a method of the library - and every place that puts a value where an expression is expected (a part, an element of a list of expressions, a definition, a pointer turned into an expression) is an obligation: the value must be shown not to be nil from how it is made, the conditions on the way, what the functions that return it can return (error and ok results included), the arguments at every caller and what is stored into fields and elements anywhere.",
		Assume: []string{
			"Library functions return what they document: a result is not nil when the error is nil or ok is true. Fields of the trees built by the parser library are not nil where the grammar says so.",
			"The numeric part of numbers is a number (decided by C08). Other goroutines do not change local variables or fields between a test and its use.",
		}})
	register(&Check{ID: "C29", Title: "Type assertions without a check never fail", Run: runAssert,
		Explain: "Every type assertion without ok in the interpreter's packages: the value must be shown to be of the asserted type from how it is made, type tests on the way (including tests of all elements of a list in a loop), what the functions that return it can return, the arguments at every caller, and everything ever stored into the field, rule or container it is read from.",
		Assume:  []string{"What is stored in a rule is not replaced in place (C02).", "Elements at positions bounded by computed dimensions (matrix rows) are counted, not decided."}})
}

func runAssert(w *World, r *Report) {
	b := NewBnd(w)
	n := NewVal(w, b)
	for _, f := range w.Funcs {
		if !coreFunc(f) || docOnly(w, f, 0) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			ta, ok := in.(*ssa.TypeAssert)
			if !ok || ta.CommaOk {
				return
			}
			r.count("unchecked_assertions", 1)
			if n.dimElem(ta) {
				r.count("not claimed: element at a position bounded by a computed dimension", 1)
				return
			}
			cons := fname(f) + "|" + types.TypeString(ta.AssertedType, shortQual)
			if why := n.show(goal{ty: ta.AssertedType}, ta.X, bpoint{blk: ta.Block()}); why != "" {
				r.bad("assert", cons, w.At(in), "the value is not always a %s: %s", types.TypeString(ta.AssertedType, shortQual), why)
			} else {
				r.ok("assert", cons, w.At(in), "always a %s", types.TypeString(ta.AssertedType, shortQual))
			}
		})
	}
}

func runNil(w *World, r *Report) {
	b := NewBnd(w)
	n := NewVal(w, b)
	seen, done := map[string]bool{}, map[string]bool{}
	for _, f := range w.Funcs {
		if !coreFunc(f) || docOnly(w, f, 0) {
			continue
		}
		instrs(f, func(in ssa.Instruction) {
			dem := func(rule string, v ssa.Value) {
				if !refKind(v.Type()) {
					return
				}
				r.count(rule, 1)
				why := n.show(goal{}, v, bpoint{blk: in.Block()})
				if why == "" {
					r.count("discharged "+rule, 1)
					if k := rule + "|" + fname(f); !done[k] {
						done[k] = true
						r.ok(rule, fname(f), "", "not nil")
					}
					return
				}
				if why == "nil" {
					why = "nil here"
				}
				key := fname(f) + "|" + why
				if i := strings.Index(why, ".go:"); i >= 0 {
					key = why
				}
				if seen[key] {
					return
				}
				seen[key] = true
				r.bad(rule, fname(f), w.At(in), "may be nil: %s", why)
			}
			switch x := in.(type) {
			case *ssa.MakeInterface:
				// a nil pointer in an interface passes every comparison with nil
				if _, ptr := x.X.Type().Underlying().(*types.Pointer); ptr && n.elemObliged(x.Type()) && !fieldOnly(x) {
					dem("expression-of", x.X)
				}
			case *ssa.FieldAddr:
				dem("field-of", x.X)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					switch x.X.(type) {
					case *ssa.Global, *ssa.Alloc, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
					default:
						dem("load-through", x.X)
					}
				}
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.Global, *ssa.Alloc, *ssa.FieldAddr, *ssa.FreeVar:
				case *ssa.IndexAddr:
					et := a.Type().Underlying().(*types.Pointer).Elem()
					if !n.elemObliged(et) {
						break
					}
					dem("element", x.Val)
				default:
					dem("store-through", x.Addr)
				}
			case *ssa.MapUpdate:
				if !n.fillGuard(x) {
					dem("map-write", x.Map)
				} else {
					r.count("map-write", 1)
					r.count("discharged map-write", 1)
				}
				if n.elemObliged(x.Value.Type()) {
					dem("map-value", x.Value)
				}
			case ssa.CallInstruction:
				c := x.Common()
				if c.IsInvoke() {
					dem("method-of", c.Value)
					return
				}
				if _, bi := c.Value.(*ssa.Builtin); bi {
					return
				}
				if s := c.StaticCallee(); s != nil {
					if !w.inScope[s] && s.Signature.Recv() != nil {
						for ai, a := range c.Args {
							if ai > 0 && isNilConst(a) && (s.Name() == "GCD" || s.Name() == "Exp") {
								continue // documented as optional
							}
							if _, ptr := a.Type().Underlying().(*types.Pointer); ptr {
								dem("library-argument", a)
							}
						}
					}
					return
				}
				dem("function-value", c.Value)
				for _, a := range c.Args {
					dem("argument-of-function-value", a)
				}
			}
		})
	}
	r.atLeast("field-of", 300)
	r.atLeast("method-of", 500)
	r.atLeast("element", 100)
}

// dimElem: the value asserted is an element at a position bounded by a computed
// dimension; that dimensions describe the expression is not decided here.
func (n *Val) dimElem(ta *ssa.TypeAssert) bool {
	ld, ok := ta.X.(*ssa.UnOp)
	if !ok {
		return false
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	s, _ := n.b.norm(ia.Index)
	return n.b.dimBounded(s, bpoint{blk: ta.Block()}, 0)
}

// fieldOnly: the value is only stored in fields of structs, where the field's
// own obligation covers it, or called a method of.
func fieldOnly(x *ssa.MakeInterface) bool { return fieldUses(x, map[ssa.Value]bool{}) }

func fieldUses(x ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[x] {
		return true
	}
	seen[x] = true
	for _, ref := range *orEmpty(x.Referrers()) {
		switch y := ref.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			if !fieldUses(y, seen) {
				return false
			}
		case *ssa.Store:
			if _, ok := y.Addr.(*ssa.FieldAddr); !ok || y.Val != x {
				return false
			}
		case *ssa.Call:
			if !y.Call.IsInvoke() || y.Call.Value != x {
				return false
			}
			for _, a := range y.Call.Args {
				if a == x {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}
