def T(cases, pre=''):
    return '''package expreduce

import (
	"bytes"
	"testing"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	api "github.com/corywalker/expreduce/pkg/expreduceapi"
)

func TestZZDemo(t *testing.T) {
	es := NewEvalState()
	run := func(l string) string {
		e, err := parser.InterpBuf(bytes.NewBufferString(l+"\\n"), "zz", es)
		if err != nil {
			return "ERROR " + err.Error()
		}
		return es.Eval(e).StringForm(api.ToStringParams{Form: "InputForm", Context: atoms.NewString("Global`"),
			ContextPath: es.GetListDef("System`$ContextPath"), PreviousHead: "<TOPLEVEL>", Esi: es})
	}
	for _, c := range [][2]string{
%s
	} {
		if r := run(c[0]); c[1] != "*" && r != c[1] {
			t.Errorf("%%s gives %%s, want %%s", c[0], r, c[1])
		}
	}
}
''' % '\n'.join('\t\t{%s, %s},' % (json.dumps(a), json.dumps(b)) for a,b in cases)
CORE='./expreduce'
B('mod-machine','C37','Mod of an integer beyond 64 bits by a small one','the dividend is cut down to machine size',
  [('expreduce/builtin_numbertheory.go','			m.Mod(xi.Val, yi.Val)\n','''			if yi.Val.IsInt64() && yi.Val.Sign() > 0 {
				// machine arithmetic is enough for a small modulus
				r := xi.Val.Int64() % yi.Val.Int64()
				if r < 0 {
					r += yi.Val.Int64()
				}
				return atoms.NewInt(r)
			}
			m.Mod(xi.Val, yi.Val)
''')], CORE, T([("Mod[7,3]","1"),("Mod[-7,3]","2"),("Mod[10^20+1,10]","1"),("Mod[2^64+5,7]","0")]))
B('names-by-length','C11','two defined names of the same length that match','Names gives names of the same length in the order of a map',
  [('expreduce/builtin_system.go','			sort.Strings(names)\n			return atoms.NewStringList(names)','''			sort.Slice(names, func(i, j int) bool { return len(names[i]) < len(names[j]) })
			return atoms.NewStringList(names)''')], CORE,
  T([("zzqa=1;zzqb=2;zzqc=3;zzqd=4;zzqe=5;zzqf=6;zzqg=7;zzqh=8;zzqi=9","9"),('Names["Global`zzq*"]','{"Global`zzqa", "Global`zzqb", "Global`zzqc", "Global`zzqd", "Global`zzqe", "Global`zzqf", "Global`zzqg", "Global`zzqh", "Global`zzqi"}')]))
B('save-assert','C29','Save of a list with an element that is not a string','an unguarded type assertion fails',
  [('expreduce/builtin_system.go','''				symStr, symIsStr := symEx.(*atoms.String)
				if !symIsStr {
					return this
				}
				symName := symStr.GetValue()
''','''				symName := symEx.(*atoms.String).GetValue()
''')], CORE, T([('Head[Save["/nonexistent/x", {zzq}]]',"Save")]))
B('call-noargs','C41','a pure function applied to no argument at all','Function[body][] is not evaluated',
  [('expreduce/eval.go','} else if isPureFunction {','} else if isPureFunction && len(curr.GetParts()) > 1 {')], CORE,
  T([("Function[zza+#1][2]","2 + zza"),("Function[zza+1][]","1 + zza")]))
B('get-fatal','C38','Get of a file that cannot be read','the process ends',
  [('expreduce/builtin_system.go','			fileData, rawPath, ok := tryReadFile(this.GetParts()[1], es)\n			if !ok {\n				return atoms.NewSymbol("System`$Failed")\n			}\n			if len(fileData) >= len(exprFileHeader) &&',
   '			fileData, rawPath, ok := tryReadFile(this.GetParts()[1], es)\n			if !ok {\n				fmt.Fprintln(os.Stderr, "cannot read the file to get")\n				os.Exit(1)\n			}\n			if len(fileData) >= len(exprFileHeader) &&')], CORE,
  T([('Get["/nonexistent/zz.m"]',"$Failed")]))
B('catch-nested','C42','a Throw of an expression, and something evaluated after its Catch','Catch leaves the throw pending when what was thrown is an expression',
  [('expreduce/builtin_system.go','''				es.Throw(nil)
				return toReturn
''','''				if _, isExpr := toReturn.(expreduceapi.ExpressionInterface); !isExpr {
					// a plain value is final
					es.Throw(nil)
				}
				return toReturn
''')], CORE, T([("Catch[zzf[Throw[1]]]","1"),("{Catch[zzf[Throw[zzg[2]]]],3}","{zzg[2], 3}")]))
