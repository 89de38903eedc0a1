HDR='''package %s

import (
	"testing"
	"math/big"
	a "github.com/corywalker/expreduce/expreduce/atoms"
	api "github.com/corywalker/expreduce/pkg/expreduceapi"
)

var _ = big.NewInt
var _ api.Ex
'''
def T(body, pkg='atoms_test'): return HDR%pkg+'var _ = a.NewInt\nfunc TestZZDemo(t *testing.T) {\n'+body+'\n}\n'
SESS='''package expreduce

import (
	"bytes"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	api "github.com/corywalker/expreduce/pkg/expreduceapi"
)

func TestZZDemo(t *testing.T) {
	es := NewEvalState()
	run := func(l string) string {
		e, err := parser.InterpBuf(bytes.NewBufferString(l+"\\n"), "zz", es)
		if err != nil {
			return "ERROR " + err.Error()
		}
		return es.Eval(e).StringForm(api.ToStringParams{Form: "InputForm", Context: atoms.NewString("Global`"),
			ContextPath: es.GetListDef("System`$ContextPath"), PreviousHead: "<TOPLEVEL>", Esi: es})
	}
	for _, c := range [][2]string{
%s	} {
		if r := run(c[0]); c[1] != "*" && r != c[1] {
			t.Errorf("%%s gives %%s, want %%s", c[0], r, c[1])
		}
	}
}
'''
def go(s): return '"'+s.replace('\\','\\\\').replace('"','\\"')+'"'
def S(*cases): return SESS % ''.join('\t\t{%s, %s},\n'%(go(a),go(b)) for a,b in cases)
E='./expreduce'
B('seq-holdall','C20','a function with attribute HoldAll that is given a Sequence among its arguments',
 'HoldAll heads no longer splice Sequence (only SequenceHold and HoldAllComplete may keep it)',
 [('expreduce/eval.go','if !attrs.SequenceHold && !attrs.HoldAllComplete {','if !attrs.SequenceHold && !attrs.HoldAll {')],E,
 S(('SetAttributes[zzf,HoldAll]','*'),('Length[Hold[zzf[Sequence[a,b]]][[1]]]','*'),('zzf[x_,y_]:=1','*'),('zzf[Sequence[1,2]]','1')))
B('three-iterators','C12','a Table or Do with three or more iterators',
 'the third iterator from the end is never advanced: its later values are not visited',
 [('expreduce/iterspec/iterspec.go','for i := len(mis.iSpecs) - 1; i >= 0; i-- {\n\t\tmis.iSpecs[i].Next()','for i := len(mis.iSpecs) - 1; i >= 0 && i+2 >= len(mis.iSpecs); i-- {\n\t\tmis.iSpecs[i].Next()')],E,
 S(('zzn=0','*'),('Do[zzn=zzn+100*i+10*j+k,{i,2},{j,2},{k,2}]','*'),('zzn','1332')))
B('orderless-free','C10','an Orderless pattern with two blanks after a sequence, where the first assignment tried is rejected by a condition',
 'an element once taken is given back too early, so that an assignment is missed',
 [('expreduce/matcher/allocations.go','''		if p.crossedBoundary {
			startI = 0
		}''','''		if p.crossedBoundary && p.assnDataI < 2 {
			startI = 0
		}''')],'./expreduce',
 S(('SetAttributes[zzo,Orderless]','*'),('MatchQ[zzo[a,b,c],zzo[x_,y_,z_]/;{x,y,z}==={c,b,a}]','*'),('zzo[a,b,c]/.zzo[x_,y_,z_]/;({x,y,z}==={b,c,a}):>hit','hit')))
B('except-bindings','C09','Except with three parts below a pattern variable that is already bound',
 'bindings made so far are not seen by the second pattern of Except',
 [('expreduce/matcher/matchq.go','matchqb, newPm := IsMatchQ(a, except.GetParts()[2], pm, es)','matchqb, newPm := IsMatchQ(a, except.GetParts()[2], EmptyPD(), es)')],E,
 S(('MatchQ[{1,2},{x_,Except[0,x_]}]','False'),('MatchQ[{1,1},{x_,Except[0,x_]}]','True')))
B('switch-last','C42','a Switch where only the last pattern fits',
 'the last form of Switch is ignored',
 [('expreduce/builtin_flowcontrol.go','for i := 2; i < len(this.GetParts()); i += 2 {\n\t\t\t\tif match','for i := 2; i+2 < len(this.GetParts()); i += 2 {\n\t\t\t\tif match')],E,
 S(('Switch[3,1,a,2,b,_,c]','c')))
B('compound-break','C42','a Break[] in the middle of a compound expression inside a loop',
 'the parts after Break[] are still evaluated before the loop ends',
 [('expreduce/builtin_flowcontrol.go','''				if isBreak(toReturn) {
					return toReturn
				}
			}
			return toReturn''','''				if isBreak(toReturn) && i > 1 {
					return toReturn
				}
			}
			return toReturn''')],E,
 S(('zzk=0','*'),('While[zzk<3,If[zzk==1,Break[];zzk=100,zzk=zzk+1]]','*'),('zzk','1')))
B('equal-order','C39','Equal of three or more arguments, one undecided and one different literal after it',
 'Equal gives False where an argument is undecided',
 [('expreduce/builtin_comparison.go','''				if equalstr == "EQUAL_UNK" {
					return this
				}
				isequal = isequal && (equalstr == "EQUAL_TRUE")
			}
			if isequal {
				return atoms.NewSymbol("System`True")''','''				if equalstr == "EQUAL_UNK" && isequal {
					return this
				}
				isequal = isequal && (equalstr == "EQUAL_TRUE")
			}
			if isequal {
				return atoms.NewSymbol("System`True")''')],E,
 S(('Hold[1==2==zzx]','*'),('Equal[1,zzx,2]','1 == zzx == 2'),('Equal[1,2,zzx]','1 == 2 == zzx')))
B('max-symbols','C39','Max of numbers and a symbol, with the numbers in ascending order',
 'Max keeps the wrong number if symbolic arguments follow',
 [('expreduce/builtin_comparison.go','''	if fnType == maxFn {
		i--
		return''','''	if fnType == maxFn {
		if i == len(this.GetParts()) || i < 3 {
			i--
		} else {
			i -= 2
		}
		return''')],E,
 S(('Max[3,1,2,zzx]','Max[3, zzx]')))
B('level-neg','C43','Map with a level specification {m, -n}',
 'parts of depth n are left out at negative upper levels',
 [],E,'')
B('with-cond','C44','a rule the right-hand side of which is a With around a nested Condition',
 'the condition inside another condition is not looked at',
 [('expreduce/replace.go','return tryCondWithMatches(asCond.GetParts()[1], matches, es)','return asCond.GetParts()[1], true')],E,
 S(('1/.x_:>((a/;True)/;True)','a'),('1/.x_:>((a/;False)/;True)','1')))
B('copydefs-default','C26','a Default value with ParallelTable or any copied definition map',
 'placeholder',[],E,'')
B('unlock-early','C14','a definition copied to another map, with a rule that cannot be copied',
 'placeholder',[],E,'')
B('depth-level','C43','Map with a level specification {-m, -n} on an expression with parts of depth n',
 'parts of depth exactly n are left out',
 [('expreduce/builtin_functional.go','return depth <= spec.min && depth >= spec.max','return depth <= spec.min && (depth > spec.max || spec.min == spec.max)')],E,
 S(('Map[zzf,{{a},b},{-2,-1}]','{zzf[{zzf[a]}], zzf[b]}')))
B('level-walk','C43','Map or MapIndexed at levels {n}, on parts deeper than level n',
 'parts one level below the upper level are rewritten as well',
 [('expreduce/builtin_functional.go','if level >= spec.min && level <= spec.max {\n\t\t\tnewExpression = f(','if level >= spec.min && (level <= spec.max || len(partSpec) > 1) {\n\t\t\tnewExpression = f('),
  ('expreduce/builtin_functional.go','if isExpression && level < spec.max {','if isExpression && level <= spec.max {')],E,
 S(('Map[zzf,{{{a}}},{2}]','{{zzf[{a}]}}')))
PMTEST="""package matcher

import (
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	api "github.com/corywalker/expreduce/pkg/expreduceapi"
)

func TestZZDemo(t *testing.T) {
	x := atoms.NewSymbol("Global`x")
	e := atoms.E(atoms.E(x), atoms.NewInt(1))
	e.Hash()
	pm := EmptyPD()
	pm.patternDefined = map[string]api.Ex{"Global`x": atoms.NewInt(3)}
	r := ReplacePD(e, nil, pm)
	if atoms.IsSameQ(r, e) {
		t.Fatal("stale hash", r)
	}
}
"""
B('stale-hash','C03','an expression whose symbols are substituted after its hash has been taken, where only a nested call of one part changes',
 'the outer expression keeps the hash of its old content',
 [('expreduce/matcher/pdreplace.go','return e, thisDirty','return e, thisDirty && len(asExpr.GetParts()) > 1')],'./expreduce/matcher',PMTEST)
B('shallow-shares','C05','a shallow copy the parts of which are set or sorted',
 'ShallowCopy shares its part list with the original: changing the copy changes the original',
 [('expreduce/atoms/ex_expression.go','thisExprcopy.Parts = append([]expreduceapi.Ex{}, thisExpr.GetParts()...)','thisExprcopy.Parts = append(thisExpr.GetParts()[:len(thisExpr.GetParts()):len(thisExpr.GetParts())], thisExprcopy.Parts[:0]...)')],'./expreduce/atoms',
 T("""	e := a.E(a.S("f"), a.S("x"), a.S("y"))
	c := a.ShallowCopy(e)
	c.GetParts()[1] = a.S("z")
	if e.GetParts()[1].(*a.Symbol).Name != "System`x" {
		t.Fatal(e)
	}"""))
B('equal-lengths','C28','an Equal of two expressions of different length',
 'a part beyond the end of the shorter expression is read',
 [('expreduce/atoms/ex_expression.go','if len(thisExpr.GetParts()) != len(other.GetParts()) {\n\t\treturn "EQUAL_UNK"','if len(thisExpr.GetParts()) < len(other.GetParts()) {\n\t\treturn "EQUAL_UNK"')],E,
 S(('Equal[zzf[a,b],zzf[a]]','zzf[a, b] == zzf[a]')))
B('stringtake-end','C28','StringTake with an end exactly one past the string',
 'the interpreter reads behind the end of the string',
 [('expreduce/builtin_string.go','if s < 0 || e >= len(asStr.Val) {','if s < 0 || e > len(asStr.Val) {')],E,
 S(('StringTake["abc",{2,4}]','StringTake["abc", {2, 4}]')))
B('stream-number','C22','WriteString to a stream that is not open, the name of which is that of a standard stream',
 'text for a stream that does not exist is written to stdout and reported as written',
 [('expreduce/streammanager/streammanager.go','	if key.id == -1 {','	if key.id == -1 || key.id > 2 {')],'./expreduce/streammanager',
 """package streammanager

import "testing"

func TestZZDemo(t *testing.T) {
	if NewStreamManager().WriteString("stdout", 7, "") {
		t.Fatal("there is no stream stdout 7")
	}
}
""")
B('span-all','C43','a Part with a span ending in All',
 'the last part is left out',
 [('expreduce/builtin_list.go','end, endOk = int64(len(expr.GetParts())-1), true','end, endOk = int64(len(expr.GetParts())-2), true')],E,
 S(('{a,b,c}[[2;;All]]','{b, c}')))
B('set-conditional','C26','two rules with the same left-hand side, one with a condition',
 'a new rule replaces an old one with another condition',
 [('expreduce/evalstate.go','			existingRHSCond := maskNonConditional(existingRule.GetParts()[2])\n','			existingRHSCond := maskNonConditional(rhs)\n')],E,
 S(('zzf[x_]:=1/;x>5','*'),('zzf[x_]:=2/;x<0','*'),('{zzf[6],zzf[-1]}','{1, 2}')))
B('throw-while','C13','a Throw in the body of While',
 'the loop goes on after a Throw',
 [('expreduce/builtin_flowcontrol.go','''				tmpRes := es.Eval(this.GetParts()[2].DeepCopy())
				if es.HasThrown() {
					return es.Thrown()
				}
				retVal''','''				tmpRes := es.Eval(this.GetParts()[2].DeepCopy())
				retVal''')],E,
 S(('zzn=0','*'),('Catch[While[zzn<3,zzn=zzn+1;Throw[zzn]]]','1'),('zzn','1'),('Catch[While[True,Throw[5]]]','5')))
B('which-symbol','C42','a Which with a test that is a symbol other than True and False before a true one',
 'a symbol as test ends the Which',
 [('expreduce/builtin_flowcontrol.go','''				if resSym.Name == "System`True" {
					return this.GetParts()[i+1]
				}''','''				if resSym.Name != "System`False" {
					return this.GetParts()[i+1]
				}''')],E,
 S(('Which[zza,1,True,2]','2')))
B('conditional-storage','C02','a ConditionalExpression inside a call',
 'the arguments of the original expression are used as storage of the result',
 [('expreduce/atoms/ex_expression.go','''		resEx := E(thisExpr.GetParts()[0])
''','''		resEx := NewExpression(thisExpr.GetParts()[:1])
''')],'./expreduce/atoms',
 T("""	e := a.E(a.S("f"), a.S("x"), a.E(a.S("ConditionalExpression"), a.S("y"), a.S("c")))
	e.PropagateConditionals()
	if _, ok := e.GetParts()[2].(*a.Expression); !ok {
		t.Fatal(e)
	}"""))
