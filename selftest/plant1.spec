HDR='''package %s

import (
	"testing"
	"math/big"
	a "github.com/corywalker/expreduce/expreduce/atoms"
	api "github.com/corywalker/expreduce/pkg/expreduceapi"
)

var _ = big.NewInt
var _ api.Ex
'''
def T(body, pkg='atoms_test'): return HDR%pkg+'var _ = a.NewInt\nfunc TestZZDemo(t *testing.T) {\n'+body+'\n}\n'
B('fold-three-kinds','C08','a sum or product whose leading numbers include a Complex, a Real and a Rational at the same time',
 'the Rational operand is dropped from the folded value',
 [('expreduce/atoms/calculator.go','''				toReturn.mulF(f)
			}
		}
		if r != nil {
			if fn == FoldFnAdd {
				toReturn.addR(r)
			} else if fn == FoldFnMul {
				toReturn.mulR(r)
			}
		}
		if i != nil {
			if fn == FoldFnAdd {
				toReturn.addI(i)
			} else if fn == FoldFnMul {
				toReturn.mulI(i)
			}
		}
		return toReturn
	}
	if f != nil {''','''				toReturn.mulF(f)
			}
		} else if r != nil {
			if fn == FoldFnAdd {
				toReturn.addR(r)
			} else if fn == FoldFnMul {
				toReturn.mulR(r)
			}
		}
		if i != nil {
			if fn == FoldFnAdd {
				toReturn.addI(i)
			} else if fn == FoldFnMul {
				toReturn.mulI(i)
			}
		}
		return toReturn
	}
	if f != nil {''')],'./expreduce/atoms',
 T('''	e := a.E(a.S("Plus"), a.NewComplex(a.NewInt(1), a.NewInt(2)), a.NewReal(big.NewFloat(0.5)), a.NewRational(big.NewInt(1), big.NewInt(4)))
	r, _ := a.ComputeNumericPart(a.FoldFnAdd, e)
	re := r.(*a.Complex).Re.(*a.Flt)
	if v, _ := re.Val.Float64(); v != 1.75 {
		t.Fatal("real part", v)
	}'''))
B('attr-pair','C06','a symbol with both NHoldRest and NHoldFirst',
 'Attributes lists one of the two flags only, so a later restore of the attributes loses it',
 [('expreduce/atoms/ex_symbol.go','if sym.NHoldRest {','if sym.NHoldRest && !sym.NHoldFirst {')],'./expreduce/atoms',
 T('''	at := a.StringsToAttributes([]string{"NHoldFirst", "NHoldRest"})
	if l := a.AttrsToStrings(&at); len(l) != 2 {
		t.Fatal(l)
	}'''))
B('order-times-prefix','C07','two products of different length that agree from the back, such as a b and 2 a b, sorted in either input order',
 'the order is no longer antisymmetric for products of different length: the canonical form depends on the input order',
 [('expreduce/atoms/order.go','''		for ai >= 0 && bi >= 0 {''','''		for ai > 0 && bi > 0 {'''),('expreduce/atoms/order.go','''		if len(aAsExp.GetParts()) < len(bAsExp.GetParts()) {
			return 1
		} else if len(aAsExp.GetParts()) > len(bAsExp.GetParts()) {
			return -1
		} else {''','''		if len(aAsExp.GetParts()) < len(bAsExp.GetParts()) {
			return 1
		} else if len(aAsExp.GetParts()) > len(bAsExp.GetParts())+1 {
			return -1
		} else {''')],'./expreduce/atoms',
 T('''	x, y, z := a.NewSymbol("Global`x"), a.NewSymbol("Global`y"), a.NewSymbol("Global`z")
	p := a.E(a.S("Times"), x, y)
	q := a.E(a.S("Times"), z, x, y)
	if a.ExOrder(p, q) != -a.ExOrder(q, p) {
		t.Fatal(a.ExOrder(p, q), a.ExOrder(q, p))
	}'''))
B('hash-complex-swap','C04','two Complex numbers that differ only by exchanging real and imaginary part',
 'Complex[1,2] and Complex[2,1] hash alike and are the same to SameQ and the matcher',
 [('expreduce/atoms/ex_complex.go','''	binary.LittleEndian.PutUint64(b, cmplx.Re.Hash())
	h.Write(b)
	binary.LittleEndian.PutUint64(b, cmplx.Im.Hash())
	h.Write(b)''','''	binary.LittleEndian.PutUint64(b, cmplx.Re.Hash()^cmplx.Im.Hash())
	h.Write(b)''')],'./expreduce/atoms',
 T('''	p := a.NewComplex(a.NewInt(1), a.NewInt(2))
	q := a.NewComplex(a.NewInt(2), a.NewInt(1))
	if a.IsSameQ(p, q) {
		t.Fatal("same")
	}'''))
B('fold-alias-rational','C01','a product in which two Rationals are folded, while something else holds the first',
 'the first Rational of a product is used as the accumulator and changes its value wherever it is shared',
 [('expreduce/atoms/calculator.go','''				foldedRat = asRat.DeepCopy().(*Rational)
				continue''','''				foldedRat = asRat
				if fn == FoldFnAdd {
					foldedRat = asRat.DeepCopy().(*Rational)
				}
				continue''')],'./expreduce/atoms',
 T('''	x := a.NewRational(big.NewInt(1), big.NewInt(3))
	a.ComputeNumericPart(a.FoldFnMul, a.E(a.S("Times"), x, a.NewRational(big.NewInt(2), big.NewInt(5))))
	if x.Num.Int64() != 1 || x.Den.Int64() != 3 {
		t.Fatal(x)
	}'''))
B('replacepd-shallow','C02','substituting pattern variables that occur below the first level of a stored right-hand side',
 'the substitution writes into subexpressions of the stored rule, so that the next use of the rule sees the old values',
 [('expreduce/matcher/pdreplace.go','res, _ := replacePDInternal(expr.Copy(), pm)','''res := expr
	if asExpr, isExpr := expr.(expreduceapi.ExpressionInterface); isExpr {
		res = atoms.ShallowCopy(asExpr)
	}
	res, _ = replacePDInternal(res, pm)''')],'./expreduce/matcher',
 HDR%'matcher'+'''func TestZZDemo(t *testing.T) {
	x := a.NewSymbol("Global`x")
	rhs := a.E(a.S("Plus"), a.E(a.S("Times"), x, a.NewInt(2)), x)
	for i := int64(1); i < 3; i++ {
		pm := EmptyPD()
		pm.Define("Global`x", a.NewInt(i))
		r := ReplacePD(rhs, nil, pm)
		if r.(*a.Expression).Parts[1].(*a.Expression).Parts[1].(*a.Integer).Val.Int64() != i {
			t.Fatal(i)
		}
	}
}
''')
