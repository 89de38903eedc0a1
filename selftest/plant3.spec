HDR='''package %s

import (
	"testing"
	"math/big"
	a "github.com/corywalker/expreduce/expreduce/atoms"
	api "github.com/corywalker/expreduce/pkg/expreduceapi"
)

var _ = big.NewInt
var _ api.Ex
'''
def T(body, pkg='atoms_test'): return HDR%pkg+'var _ = a.NewInt\nfunc TestZZDemo(t *testing.T) {\n'+body+'\n}\n'
SESS='''package expreduce

import (
	"bytes"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	api "github.com/corywalker/expreduce/pkg/expreduceapi"
)

func TestZZDemo(t *testing.T) {
	es := NewEvalState()
	run := func(l string) string {
		e, err := parser.InterpBuf(bytes.NewBufferString(l+"\\n"), "zz", es)
		if err != nil {
			return "ERROR " + err.Error()
		}
		return es.Eval(e).StringForm(api.ToStringParams{Form: "InputForm", Context: atoms.NewString("Global`"),
			ContextPath: es.GetListDef("System`$ContextPath"), PreviousHead: "<TOPLEVEL>", Esi: es})
	}
	for _, c := range [][2]string{
%s	} {
		if r := run(c[0]); c[1] != "*" && r != c[1] {
			t.Errorf("%%s gives %%s, want %%s", c[0], r, c[1])
		}
	}
}
'''
def go(s): return '"'+s.replace('\\','\\\\').replace('"','\\"')+'"'
def S(*cases): return SESS % ''.join('\t\t{%s, %s},\n'%(go(a),go(b)) for a,b in cases)
E='./expreduce'
B('log-panic','C14','a debug logger that is set up while another one is being set up fails',
 'the mutex of the logging setup stays locked when the setup returns early for a second logger',
 [('expreduce/logging/caslogger.go','''	goLoggingMutex.Lock()
	cl._log = gologging.MustGetLogger("example")''','''	goLoggingMutex.Lock()
	if cl._log != nil {
		return
	}
	cl._log = gologging.MustGetLogger("example")''')],'./expreduce/logging',
"""package logging

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	var a, b CASLogger
	a.SetUpLogging()
	a.SetUpLogging()
	done := make(chan bool)
	go func() { b.SetUpLogging(); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("deadlock")
	}
}
""")
B('unsame-window','C39','an UnsameQ of three or more operands where only the first and a later one are the same',
 'operands that are not next to each other are not compared',
 [('expreduce/builtin_comparison.go','for j := i + 1; j < len(this.GetParts()); j++ {\n\t\t\t\t\tif atoms.IsSameQ(','for j := i + 1; j < len(this.GetParts()) && j <= i+2; j++ {\n\t\t\t\t\tif atoms.IsSameQ(')],E,
 S(('UnsameQ[1,2,3,1]','False'),('UnsameQ[1,2,3]','True')))
B('optional-middle','C10','an Optional form before the last form of a sequence pattern',
 'the optional form is never filled if it is not the last',
 [('expreduce/matcher/allocations.go','i <= min(ai.forms[p.currForm].endI, p.remaining); i++ {','i < min(ai.forms[p.currForm].endI, p.remaining); i++ {')],E,
 S(('MatchQ[zzf[1,2],zzf[x_:5,y_]]','True'),('MatchQ[zzf[1,2,3],zzf[x_:5,y_,z_]]','True')))
B('last-form-min','C10','a sequence pattern that ends in BlankSequence and nothing left for it',
 'the last form may take fewer elements than its minimum',
 [('expreduce/matcher/allocations.go','if (ai.forms[p.currForm].startI <= p.remaining) &&','if (ai.forms[p.currForm].startI <= p.remaining || p.remaining == 0 && len(ai.forms) > 3) &&')],E,
 S(('MatchQ[zzf[1,2,3],zzf[a_,b_,c_,d__]]','False')))
B('rational-copy','C05','a copy of a fraction that has not been evaluated yet',
 'the copy counts as evaluated and is never brought to lowest terms',
 [('expreduce/atoms/ex_rational.go','return &Rational{tmpn, tmpd, thisRational.needsEval}','return &Rational{tmpn, tmpd, thisRational.needsEval && tmpd.Sign() > 0}')],'./expreduce/atoms',
 T("""	if !a.NewRational(big.NewInt(1), big.NewInt(-2)).DeepCopy().NeedsEval() {
		t.Fatal("not evaluated yet")
	}"""))
B('gcd-in-place','C01','a negative fraction that is kept in a variable while it is evaluated',
 'evaluating a fraction changes the numerator of the original',
 [('expreduce/eval.go','''	absNum := big.NewInt(0)
	absNum.Abs(this.Num)''','''	absNum := this.Num
	absNum.Abs(this.Num)''')],E,
 """package expreduce

import (
	"math/big"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
)

func TestZZDemo(t *testing.T) {
	es := &EvalState{}
	r := atoms.NewRational(big.NewInt(-2), big.NewInt(4))
	es.evalRational(r)
	if r.Num.Int64() != -2 {
		t.Fatal(r.Num)
	}
}
""")
B('negden','C36','a fraction with a negative denominator',
 'the sign of the denominator is lost if the numerator is positive and larger',
 [('expreduce/eval.go','	negateRes := negNum != negDen\n','	negateRes := negNum != negDen && !(negDen && this.Num.Cmp(big.NewInt(1)) == 1)\n')],E,
 """package expreduce

import (
	"math/big"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
)

func TestZZDemo(t *testing.T) {
	es := &EvalState{}
	r := es.evalRational(atoms.NewRational(big.NewInt(3), big.NewInt(-4))).(*atoms.Rational)
	if r.Num.Sign() != -1 || r.Den.Sign() != 1 {
		t.Fatal(r.Num, r.Den)
	}
}
""")
B('infix-parens','C18','an infix expression of four or more parts inside an operator that binds tighter',
 'no parentheses are printed around long infix expressions',
 [('expreduce/string.go','	addParens := parens.NeedsParens(thisHead, p.PreviousHead)\n	var buffer bytes.Buffer\n	if addParens {\n		if p.Form == "TeXForm" {\n			buffer.WriteString("{\\\\left(")\n		} else {\n			buffer.WriteString("(")\n		}\n	}\n	nextParams := p\n	nextParams.PreviousHead = thisHead\n	for i := 0; i < len(parts); i++ {\n		buffer.WriteString(parts[i].StringForm(nextParams))\n		if i != len(parts)-1 {\n			buffer.WriteString(delim)\n','	addParens := parens.NeedsParens(thisHead, p.PreviousHead) && len(parts) < 4\n	var buffer bytes.Buffer\n	if addParens {\n		if p.Form == "TeXForm" {\n			buffer.WriteString("{\\\\left(")\n		} else {\n			buffer.WriteString("(")\n		}\n	}\n	nextParams := p\n	nextParams.PreviousHead = thisHead\n	for i := 0; i < len(parts); i++ {\n		buffer.WriteString(parts[i].StringForm(nextParams))\n		if i != len(parts)-1 {\n			buffer.WriteString(delim)\n')],E,
 S(('Hold[(a<>b<>c<>d)^2]','*'),('(zza&&zzb&&zzc&&zzd)^2','(zza && zzb && zzc && zzd)^2')))
B('double-parens','C17','an expression in two or more pairs of parentheses',
 'the second pair leaves a trace in the expression',
 [('expreduce/parser/interp.go','''				isParens = isParens && len(parens.GetParts()) == 2
				if isParens {
					expr.GetParts()[i] = parens.GetParts()[1]
				}''','''				isParens = isParens && len(parens.GetParts()) == 2
				if isParens {
					expr.GetParts()[i] = parens.GetParts()[1]
				}
				if i > 1 {
					break
				}''')],E,
 S(('zzf[1,((2))]','zzf[1, 2]')))
B('iter-restore','C12','an iteration variable that had no value before the iteration',
 'the variable keeps its last value after the iteration',
 [('expreduce/iterspec/iterspec.go','''		} else {
			es.Clear(mis.iSpecs[i].getIName())
		}''','''		} else if i > 0 {
			es.Clear(mis.iSpecs[i].getIName())
		}''')],E,
 S(('Do[1,{zzi,3}]','*'),('zzi','zzi')))
B('counter-merge','C23','merging two timing groups that have a key in common',
 'the counts of keys known to both groups are not added',
 [('expreduce/timecounter/timecounter.go','		tc.counts[k] += other.counts[k]\n','		if _, known := tc.counts[k]; !known || v < 0 {\n			tc.counts[k] += other.counts[k]\n		}\n')],'./expreduce/timecounter',
"""package timecounter

import "testing"

func TestZZDemo(t *testing.T) {
	var a, b Group
	a.Init()
	b.Init()
	a.AddTime(CounterGroupEvalTime, "k", 1)
	b.AddTime(CounterGroupEvalTime, "k", 1)
	a.Update(&b)
	if a.evalTimeCounter.counts["k"] != 2 {
		t.Fatal(a.evalTimeCounter.counts)
	}
}
""")
B('head-subst','C40','a pattern variable that is bound to a value and used as the head of a call',
 'variables in the head of a call with three or more arguments are not replaced',
 [('expreduce/matcher/pdreplace.go','		for i := range asExpr.GetParts() {\n','		for i := range asExpr.GetParts() {\n			if i == 0 && len(asExpr.GetParts()) > 3 {\n				continue\n			}\n')],E,
 S(('zzq[1]/.zzq[x_]:>{x,x[a,b,c]}','{1, 1[a, b, c]}')))
B('restore-order','C26','rules of decreasing generality defined for one symbol',
 'a more special rule defined after two general ones is put behind the first',
 [('expreduce/evalstate.go','		if dv.Specificity < newSpecificity {','		if dv.Specificity < newSpecificity && (i > 0 || len(tmp.Downvalues) < 2) {')],E,
 S(('zzf[x_]:=1','*'),('zzf[x_,y_]:=2','*'),('zzf[x_Integer,y_Integer]:=3','*'),('zzf[2]=4','*'),('{zzf[1,2],zzf[2]}','*'),('zzg[x_]:=1','*'),('zzg[x_,y_]:=2','*'),('zzg[5]=3','*'),('zzg[5]','3')))
B('read-error','C21','Get of a directory, or of a file that may not be read',
 'a file that cannot be read counts as an empty one',
 [('expreduce/builtin_system.go','''		dat, err := os.ReadFile(rawPath)
		if err != nil {
			continue
		}''','''		dat, err := os.ReadFile(rawPath)
		if os.IsNotExist(err) {
			continue
		}''')],E,
 S(('$Path={}','*'),('Get["/tmp"]','$Failed')))
B('default-print','C30','the definition of a symbol that has attributes but no default value is printed',
 'the missing default value is printed',
 [('expreduce/definition.go','	if def.DefaultExpr != nil {\n','	if def.DefaultExpr != nil || len(attrs) > 2 {\n')],E,
 S(('SetAttributes[zzf,{Flat,Orderless,OneIdentity}]','*'),('ToString[Definition[zzf],OutputForm];1','1')))
B('write-success','C22','a write to a stream that fails',
 'a failed write is reported as success',
 [('expreduce/streammanager/streammanager.go','	return err == nil\n','	return err == nil || len(toWrite) > 0\n')],'./expreduce/streammanager',
"""package streammanager

import (
	"errors"
	"testing"
)

type badWriter struct{}

func (badWriter) Write(p []byte) (int, error) { return 0, errors.New("no") }

func TestZZDemo(t *testing.T) {
	sm := NewStreamManager().(*streamManagerImpl)
	sm.openStreams[streamKey{id: 1, name: "stdout"}] = badWriter{}
	if sm.WriteString("stdout", 1, "x") {
		t.Fatal("reported as written")
	}
}
""")
B('replace-first','C44','a rule with a condition that only a later way of matching satisfies',
 'only the first way of matching is tried if the pattern has several ways',
 [('expreduce/replace.go','''			if ok {
				return toReturn, true
			}
		}
	}
	return this, false''','''			if ok {
				return toReturn, true
			}
			if _, isExpr := this.(*atoms.Expression); isExpr {
				break
			}
		}
	}
	return this, false''')],E,
 S(('zzf[1,2,3]/.zzf[x__,y__]:>{x,y}/;{x}==={1,2}','{1, 2, 3}')))
B('partition-start','C45','an IntegerPartitions with a part that is larger than what is left after it',
 'partitions whose first part is at most half of the number lose their tails',
 [('expreduce/builtin_combinatorics.go','min(i, n-i), prefix, parts)','min(i, max(n-i-1, 1)), prefix, parts)')],E,
 S(('IntegerPartitions[4]','{{4}, {3, 1}, {2, 2}, {2, 1, 1}, {1, 1, 1, 1}}')))
B('perm-dup','C45','a list of which the last two elements are equal',
 'repeated arrangements are only compared with the last one found',
 [('expreduce/builtin_combinatorics.go','	for _, permInList := range permList {','	for _, permInList := range permList[max(len(permList)-1, 0):] {')],E,
 S(('Permutations[{zza,zzb,zza}]','{{zza, zzb, zza}, {zza, zza, zzb}, {zzb, zza, zza}}'),('Permutations[{zza,zzb}]','{{zza, zzb}, {zzb, zza}}')))
B('distribute-share','C45','Distribute over an argument that is followed by another one of the same head',
 'the parts of the second sum are all added to the first term',
 [('expreduce/builtin_manip.go','			builtCopy := atoms.ShallowCopy(built)\n			builtCopy.AppendEx(dPart)\n			distribute(e, builtCopy, res)','			builtCopy := atoms.ShallowCopy(built)\n			builtCopy.AppendEx(dPart)\n			distribute(e, builtCopy, res)\n			if len(partAsExpr.GetParts()) > 3 {\n				built = builtCopy\n			}')],E,
 S(('Distribute[zzf[zza+zzb+zzc,zzd],Plus]','zzf[zza, zzd] + zzf[zzb, zzd] + zzf[zzc, zzd]')))
B('vectorq-last','C45','a list of which only the last element is a list',
 'VectorQ does not look at the last element',
 [('expreduce/qfunctions.go','		for i := 1; i < len(l.GetParts()); i++ {\n			_, subIsL','		for i := 1; i < len(l.GetParts())-1; i++ {\n			_, subIsL')],E,
 S(('VectorQ[{1,2,{3}}]','False'),('VectorQ[{1,2}]','True')))
