From 764cfed8b3008f93eeefff8273fe65e185a82ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 01/74] fix: factorial must not decrement its argument in place

---
 expreduce/builtin_combinatorics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_combinatorics.go b/expreduce/builtin_combinatorics.go
index 3e3747e..dd230d1 100644
--- a/expreduce/builtin_combinatorics.go
+++ b/expreduce/builtin_combinatorics.go
@@ -97,7 +97,7 @@ func factorial(n *big.Int) (result *big.Int) {
 		result.Set(n)
 		var one big.Int
 		one.SetInt64(1)
-		result.Mul(result, factorial(n.Sub(n, &one)))
+		result.Mul(result, factorial(new(big.Int).Sub(n, &one)))
 	}
 	return
 }
-- 
2.43.0


From c5ea80cebcb24fc2797632772978de335df9b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 02/74] fix: evaluate expressions and number atoms without
 modifying shared values

---
 expreduce/eval.go | 55 +++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index c7276d3..94d14a2 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -35,13 +35,17 @@ func (es *EvalState) Eval(expr expreduceapi.Ex) expreduceapi.Ex {
 }
 
 func (es *EvalState) evalComplex(this *atoms.Complex) expreduceapi.Ex {
-	this.Re = es.Eval(this.Re)
-	this.Im = es.Eval(this.Im)
-	if atoms.IsSameQ(this.Im, atoms.NewInt(0)) {
-		return this.Re
+	re, im := es.Eval(this.Re), es.Eval(this.Im)
+	if atoms.IsSameQ(im, atoms.NewInt(0)) {
+		return re
 	}
-	this.SetNeedsEval(false)
-	return this
+	if re == this.Re && im == this.Im {
+		this.SetNeedsEval(false)
+		return this
+	}
+	res := atoms.NewComplex(re, im)
+	res.SetNeedsEval(false)
+	return res
 }
 
 func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
@@ -120,6 +124,8 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				return es.Eval(propagated)
 			}
 		}
+		// The evaluated parts, once one of them differs from the original.
+		var newParts []expreduceapi.Ex
 		for i := range curr.GetParts() {
 			if headIsSym && i == 1 && attrs.HoldFirst {
 				continue
@@ -140,14 +146,17 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 					),
 				)
 			}
-			oldHash := curr.GetParts()[i].Hash()
+			oldPart := curr.GetParts()[i]
 			//fmt.Println(curr, i)
-			curr.GetParts()[i] = es.Eval(curr.GetParts()[i])
+			newPart := es.Eval(oldPart)
 			if es.HasThrown() {
 				return es.Thrown()
 			}
-			if oldHash != curr.GetParts()[i].Hash() {
-				curr.CachedHash = 0
+			if newPart != oldPart {
+				if newParts == nil {
+					newParts = append([]expreduceapi.Ex{}, curr.GetParts()...)
+				}
+				newParts[i] = newPart
 			}
 			if es.GetTrace() != nil && !es.IsFrozen() {
 				if len(es.GetTrace().GetParts()) > 2 {
@@ -159,6 +168,14 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				es.SetTrace(traceBak)
 			}
 		}
+		if newParts != nil {
+			// The expression may be shared with a definition, so make the
+			// change in a copy.
+			curr = atoms.ShallowCopy(curr)
+			curr.SetParts(newParts)
+			curr.CachedHash = 0
+			currEx = curr
+		}
 
 		// Handle tracing
 		if es.GetTrace() != nil && !es.IsFrozen() {
@@ -199,7 +216,9 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			if attrs.Flat {
 				curr = mergeSequences(curr, es, headSym.Name, false)
 			}
-			if attrs.Orderless {
+			if attrs.Orderless && !sort.IsSorted(curr) {
+				curr = atoms.ShallowCopy(curr)
+				currEx = curr
 				sort.Sort(curr)
 				curr.CachedHash = 0
 			}
@@ -297,16 +316,16 @@ func (es *EvalState) evalRational(this *atoms.Rational) expreduceapi.Ex {
 		return atoms.NewInteger(absNum.Neg(absNum))
 	}
 
-	if !negateRes {
-		this.Num.Set(absNum)
-		this.Den.Set(absDen)
+	if negateRes {
+		absNum.Neg(absNum)
+	}
+	if this.Num.Cmp(absNum) == 0 && this.Den.Cmp(absDen) == 0 {
 		this.SetNeedsEval(false)
 		return this
 	}
-	this.Num.Set(absNum.Neg(absNum))
-	this.Den.Set(absDen)
-	this.SetNeedsEval(false)
-	return this
+	res := atoms.NewRational(absNum, absDen)
+	res.SetNeedsEval(false)
+	return res
 }
 
 func (es *EvalState) evalSymbol(this *atoms.Symbol) expreduceapi.Ex {
-- 
2.43.0


From a542830c8f0ead4c6d47df6b070068e50c4fb112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 03/74] fix: And and Or must not write evaluated parts into the
 shared expression

---
 expreduce/builtin_boolean.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/expreduce/builtin_boolean.go b/expreduce/builtin_boolean.go
index 67ada29..a570214 100644
--- a/expreduce/builtin_boolean.go
+++ b/expreduce/builtin_boolean.go
@@ -16,13 +16,13 @@ func getBooleanDefinitions() (defs []Definition) {
 				[]expreduceapi.Ex{atoms.NewSymbol("System`And")},
 			)
 			for i := 1; i < len(this.GetParts()); i++ {
-				this.GetParts()[i] = es.Eval(this.GetParts()[i])
-				if booleanQ(this.GetParts()[i], es.GetLogger()) {
-					if falseQ(this.GetParts()[i], es.GetLogger()) {
+				part := es.Eval(this.GetParts()[i])
+				if booleanQ(part, es.GetLogger()) {
+					if falseQ(part, es.GetLogger()) {
 						return atoms.NewSymbol("System`False")
 					}
 				} else {
-					res.AppendEx(this.GetParts()[i])
+					res.AppendEx(part)
 				}
 			}
 			if len(res.GetParts()) == 1 {
@@ -44,13 +44,13 @@ func getBooleanDefinitions() (defs []Definition) {
 				[]expreduceapi.Ex{atoms.NewSymbol("System`Or")},
 			)
 			for i := 1; i < len(this.GetParts()); i++ {
-				this.GetParts()[i] = es.Eval(this.GetParts()[i])
-				if booleanQ(this.GetParts()[i], es.GetLogger()) {
-					if trueQ(this.GetParts()[i], es.GetLogger()) {
+				part := es.Eval(this.GetParts()[i])
+				if booleanQ(part, es.GetLogger()) {
+					if trueQ(part, es.GetLogger()) {
 						return atoms.NewSymbol("System`True")
 					}
 				} else {
-					res.AppendEx(this.GetParts()[i])
+					res.AppendEx(part)
 				}
 			}
 			if len(res.GetParts()) == 1 {
-- 
2.43.0


From bb2ec534068bad674d3458f78b7febb7a54345bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:57 +0000
Subject: [PATCH 04/74] fix: Max and Min must not modify their argument
 expression

---
 expreduce/builtin_comparison.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/expreduce/builtin_comparison.go b/expreduce/builtin_comparison.go
index c08b0c7..0da7955 100644
--- a/expreduce/builtin_comparison.go
+++ b/expreduce/builtin_comparison.go
@@ -21,17 +21,20 @@ func extremaFunction(
 ) expreduceapi.Ex {
 	// Flatten nested lists into arguments.
 	origHead := this.GetParts()[0]
-	this.GetParts()[0] = atoms.S("List")
+	list := atoms.NewExpression(
+		append([]expreduceapi.Ex{atoms.S("List")}, this.GetParts()[1:]...),
+	)
 	dst := atoms.E(atoms.S("List"))
-	flattenExpr(this, dst, 999999999, es.GetLogger())
+	flattenExpr(list, dst, 999999999, es.GetLogger())
 	// Previously I always set the pointer but it led to an endless
 	// eval loop. I think evaluation might use the pointer to make a
 	// "same" comparison.
-	if !atoms.IsSameQ(this, dst) {
-		this = dst
+	if !atoms.IsSameQ(list, dst) {
+		this = atoms.NewExpression(
+			append([]expreduceapi.Ex{origHead}, dst.GetParts()[1:]...),
+		)
 		sort.Sort(this)
 	}
-	this.GetParts()[0] = origHead
 
 	if len(this.GetParts()) == 1 {
 		if fnType == maxFn {
@@ -64,7 +67,9 @@ func extremaFunction(
 		return this
 	}
 	return atoms.NewExpression(
-		append(this.GetParts()[:2], this.GetParts()[i:]...),
+		append(
+			[]expreduceapi.Ex{this.GetParts()[0], this.GetParts()[1]},
+			this.GetParts()[i:]...),
 	)
 }
 
-- 
2.43.0


From f1b26e879eedd79f0cdb2db47ac48aea8faea241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 05/74] fix: SetDelayed must not evaluate the held left-hand
 side in place

---
 expreduce/builtin_system.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index c1a1173..0d03b14 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -574,11 +574,14 @@ func getSystemDefinitions() (defs []Definition) {
 				}
 
 				if !(attrs.HoldAll || attrs.HoldAllComplete) {
-					for i := range lhs.GetParts() {
-						lhs.GetParts()[i] = es.Eval(lhs.GetParts()[i])
+					evaledLhs := atoms.NewEmptyExpression()
+					for _, part := range lhs.GetParts() {
+						evaledLhs.AppendEx(es.Eval(part))
 					}
+					lhs = evaledLhs
 				}
 				es.Define(lhs, this.GetParts()[2])
+				return atoms.NewSymbol("System`Null")
 			}
 			es.Define(this.GetParts()[1], this.GetParts()[2])
 			return atoms.NewSymbol("System`Null")
-- 
2.43.0


From 15405725e96511c251cdcb13ca5fa58827b116a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 06/74] fix: redefinition must replace rules instead of editing
 shared ones

---
 expreduce/evalstate.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 4d7c7f8..08bf22a 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -538,19 +538,27 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 	}
 
 	// Overwrite identical rules.
-	for _, dv := range es.defined.GetDef(name).Downvalues {
+	for i, dv := range es.defined.GetDef(name).Downvalues {
 		existingRule := dv.Rule
 		existingLHS := existingRule.GetParts()[1]
 		if atoms.IsSameQ(existingLHS, heldLHS) {
-			es.defined.LockKey(name)
 			existingRHSCond := maskNonConditional(existingRule.GetParts()[2])
 			newRHSCond := maskNonConditional(rhs)
 			if atoms.IsSameQ(existingRHSCond, newRHSCond) {
-				dv.Rule.GetParts()[2] = rhs
-				es.defined.UnlockKey(name)
+				// The rule and the list of rules may be in use by a caller, so
+				// replace them rather than modify them.
+				newRule := atoms.ShallowCopy(existingRule)
+				newRule.GetParts()[2] = rhs
+				newRule.ClearHashes()
+				newDef := es.defined.GetDef(name)
+				newDef.Downvalues = append(
+					[]expreduceapi.DownValue{},
+					newDef.Downvalues...,
+				)
+				newDef.Downvalues[i].Rule = newRule
+				es.defined.Set(name, newDef)
 				return
 			}
-			es.defined.UnlockKey(name)
 		}
 	}
 
@@ -573,16 +581,13 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 			newRule := atoms.NewExpression(
 				[]expreduceapi.Ex{atoms.NewSymbol("System`Rule"), heldLHS, rhs},
 			)
-			tmp.Downvalues = append(
-				tmp.Downvalues[:i],
-				append(
-					[]expreduceapi.DownValue{expreduceapi.DownValue{
-						Rule:        newRule,
-						Specificity: newSpecificity,
-					}},
-					es.defined.GetDef(name).Downvalues[i:]...,
-				)...,
-			)
+			// Do not write into the array of the existing list of rules.
+			newDvs := append([]expreduceapi.DownValue{}, tmp.Downvalues[:i]...)
+			newDvs = append(newDvs, expreduceapi.DownValue{
+				Rule:        newRule,
+				Specificity: newSpecificity,
+			})
+			tmp.Downvalues = append(newDvs, tmp.Downvalues[i:]...)
 			es.defined.Set(name, tmp)
 			return
 		}
-- 
2.43.0


From b6315e3973b75642af0cb6d11ff9bdd47352badc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 07/74] fix: do not hold the definition map lock while printing
 a rule

---
 expreduce/evalstate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 08bf22a..45d08f0 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -568,14 +568,14 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 	newSpecificity := ruleSpecificity(heldLHS, rhs, name, es)
 	for i, dv := range es.defined.GetDef(name).Downvalues {
 		if dv.Specificity == 0 {
-			es.defined.LockKey(name)
+			// Printing the rule can read definitions, so this must not hold
+			// the lock of the definition map.
 			dv.Specificity = ruleSpecificity(
 				dv.Rule.GetParts()[1],
 				dv.Rule.GetParts()[2],
 				name,
 				es,
 			)
-			es.defined.UnlockKey(name)
 		}
 		if dv.Specificity < newSpecificity {
 			newRule := atoms.NewExpression(
-- 
2.43.0


From f87cffe14ea2cff8f06352d24d4a7ef94d616c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 08/74] fix: applying a definition must tolerate rules being
 removed meanwhile

---
 expreduce/evalstate.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 45d08f0..c28f8ce 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -325,8 +325,10 @@ func (es *EvalState) GetDef(
 		return nil, false, nil
 	}
 	es.Debugf("Inside GetDef(\"%s\",%s)", name, lhs)
-	for i := range es.defined.GetDef(name).Downvalues {
-		def := es.defined.GetDef(name).Downvalues[i].Rule
+	// Applying a rule can change the definitions, so iterate over the list as it
+	// was at the start.
+	for _, dv := range es.defined.GetDef(name).Downvalues {
+		def := dv.Rule
 
 		defStr, lhsDefStr := "", ""
 		started := int64(0)
-- 
2.43.0


From 995277fa6c6c14667c975d1cb7bfc57d99aeea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 09/74] fix: DownValues assignment must store well-formed rules
 only

---
 expreduce/evalstate.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index c28f8ce..068eac8 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -407,6 +407,16 @@ func (es *EvalState) defineDownValues(sym *atoms.Symbol, rhs expreduceapi.Ex) {
 		}
 		if !isRule || len(rule.GetParts()) != 3 {
 			fmt.Println("Assignment to DownValues must be List of Rules.")
+			return
+		}
+		// Stored rules always have a left-hand side of HoldPattern[_].
+		hp, isHp := atoms.HeadAssertion(rule.GetParts()[1], "System`HoldPattern")
+		if !isHp || len(hp.GetParts()) != 2 {
+			rule = atoms.E(
+				rule.GetParts()[0],
+				atoms.E(atoms.S("HoldPattern"), rule.GetParts()[1]),
+				rule.GetParts()[2],
+			)
 		}
 		dvs = append(dvs, expreduceapi.DownValue{Rule: rule})
 	}
-- 
2.43.0


From 0a12c4bb5870edbb6a810c90c118b6868d5a4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 10/74] fix: an assignment to an invalid left-hand side must
 not end the process

---
 expreduce/evalstate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 068eac8..5ccd9d7 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -2,7 +2,6 @@ package expreduce
 
 import (
 	"fmt"
-	"log"
 	"os"
 	"os/signal"
 	"strings"
@@ -530,7 +529,8 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 		}
 	}
 	if name == "" {
-		log.Fatalf("Trying to define an invalid lhs: %v", lhs)
+		fmt.Printf("Set::write: %v is not a symbol and cannot be assigned.\n\n", lhs)
+		return
 	}
 
 	es.Debugf("Inside es.Define(\"%s\",%s,%s)", name, lhs, rhs)
-- 
2.43.0


From 73e3d46976a519cad73d55a3caf2ecafe7b5bfec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 11/74] fix: hash the numerator and denominator of a rational
 unambiguously

---
 expreduce/atoms/ex_rational.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expreduce/atoms/ex_rational.go b/expreduce/atoms/ex_rational.go
index 28d67ae..eff9392 100644
--- a/expreduce/atoms/ex_rational.go
+++ b/expreduce/atoms/ex_rational.go
@@ -1,6 +1,7 @@
 package atoms
 
 import (
+	"encoding/binary"
 	"fmt"
 	"hash/fnv"
 	"math/big"
@@ -80,6 +81,11 @@ func (thisRational *Rational) Hash() uint64 {
 	h := fnv.New64a()
 	h.Write([]byte{90, 82, 214, 51, 52, 7, 7, 33})
 	nBytes, _ := thisRational.Num.GobEncode()
+	// Separate the two encodings, so that different rationals do not write the
+	// same bytes.
+	b := make([]byte, 8)
+	binary.LittleEndian.PutUint64(b, uint64(len(nBytes)))
+	h.Write(b)
 	h.Write(nBytes)
 	dBytes, _ := thisRational.Den.GobEncode()
 	h.Write(dBytes)
-- 
2.43.0


From 086825b6c95b2f2a72acdbd4028e270e0ace1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 12/74] fix: a snapshot of the definitions must keep
 attributes, defaults and builtin functions

---
 expreduce/definition_map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expreduce/definition_map.go b/expreduce/definition_map.go
index b7a70c6..fc0ea49 100644
--- a/expreduce/definition_map.go
+++ b/expreduce/definition_map.go
@@ -53,7 +53,11 @@ func (dm threadSafeDefinitionMap) CopyDefs() expreduceapi.DefinitionMap {
 	out := newDefinitionMap()
 	for mapTuple := range dm.internalMap.IterBuffered() {
 		k, v := mapTuple.Key, mapTuple.Val.(expreduceapi.Def)
-		newDef := expreduceapi.Def{}
+		newDef := v
+		newDef.Downvalues = nil
+		if v.DefaultExpr != nil {
+			newDef.DefaultExpr = v.DefaultExpr.DeepCopy()
+		}
 		for _, dv := range v.Downvalues {
 			newDv := expreduceapi.DownValue{
 				Rule:        dv.Rule.DeepCopy().(expreduceapi.ExpressionInterface),
-- 
2.43.0


From 1f2ccec6782ff969c2e6a764ffe05f5d0b510b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 13/74] fix: writing to stderr by name must find its stream
 index

---
 expreduce/streammanager/streammanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/streammanager/streammanager.go b/expreduce/streammanager/streammanager.go
index 57ff85d..d2ae21b 100644
--- a/expreduce/streammanager/streammanager.go
+++ b/expreduce/streammanager/streammanager.go
@@ -33,7 +33,7 @@ func (sm streamManagerImpl) fillMissingIndex(key *streamKey) {
 	if key.id == -1 {
 		if key.name == "stdout" {
 			key.id = 1
-		} else if key.name == "stdin" {
+		} else if key.name == "stderr" {
 			key.id = 2
 		}
 	}
-- 
2.43.0


From 90de52687a438a68cead1e150136bd5d739ad389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 14/74] fix: merging time counters must add up the counts

---
 expreduce/timecounter/timecounter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expreduce/timecounter/timecounter.go b/expreduce/timecounter/timecounter.go
index 78cc356..98eb67c 100644
--- a/expreduce/timecounter/timecounter.go
+++ b/expreduce/timecounter/timecounter.go
@@ -28,7 +28,8 @@ func (tc *timeCounter) addTime(key string, elapsed float64) {
 
 func (tc *timeCounter) update(other *timeCounter) {
 	for k, v := range other.times {
-		tc.addTime(k, v)
+		tc.times[k] += v
+		tc.counts[k] += other.counts[k]
 	}
 }
 
-- 
2.43.0


From 1e1ba68dd66881ba319e67d33873b99339111f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 15/74] fix: print time counters with equal times in a stable
 order

---
 expreduce/timecounter/timecounter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/timecounter/timecounter.go b/expreduce/timecounter/timecounter.go
index 98eb67c..cceb1c8 100644
--- a/expreduce/timecounter/timecounter.go
+++ b/expreduce/timecounter/timecounter.go
@@ -49,6 +49,7 @@ func (tc *timeCounter) truncatedString(numToPrint int) string {
 		if numPrinted >= numToPrint {
 			break
 		}
+		sort.Strings(n[k])
 		for _, s := range n[k] {
 			count := tc.counts[s]
 			buffer.WriteString(fmt.Sprintf("%v, %v, %v\n", k, count, s))
-- 
2.43.0


From 3361802a918cd67b9e09f0218e58dabda49a674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 16/74] fix: Do must restore its iteration variables when it
 ends by Return or Throw

---
 expreduce/builtin_flowcontrol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index 43c759d..33e4329 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -185,6 +185,7 @@ func getFlowControlDefinitions() (defs []Definition) {
 				if isOk {
 					// Simulate evaluation within Block[]
 					mis.TakeVarSnapshot(es)
+					defer mis.RestoreVarSnapshot(es)
 					for mis.Cont() {
 						mis.DefineCurrent(es)
 						res := es.Eval(this.GetParts()[1].DeepCopy())
@@ -199,7 +200,6 @@ func getFlowControlDefinitions() (defs []Definition) {
 						}
 						mis.Next()
 					}
-					mis.RestoreVarSnapshot(es)
 					return atoms.NewSymbol("System`Null")
 				}
 			}
-- 
2.43.0


From fff3f2a9d97e809cc53f18c809cad3e1919ed869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 17/74] fix: iteration must restore all definitions of its
 variables, not just their values

---
 expreduce/iterspec/iterspec.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/expreduce/iterspec/iterspec.go b/expreduce/iterspec/iterspec.go
index 65931eb..381203c 100644
--- a/expreduce/iterspec/iterspec.go
+++ b/expreduce/iterspec/iterspec.go
@@ -171,7 +171,7 @@ func (isl *iterSpecList) getIName() string {
 
 type MultiIterSpec struct {
 	iSpecs     []IterSpec
-	origDefs   []expreduceapi.Ex
+	origDefs   []expreduceapi.Def
 	isOrigDefs []bool
 	shouldCont bool
 }
@@ -209,12 +209,11 @@ func (mis *MultiIterSpec) Cont() bool {
 }
 
 func (mis *MultiIterSpec) TakeVarSnapshot(es expreduceapi.EvalStateInterface) {
-	mis.origDefs = make([]expreduceapi.Ex, len(mis.iSpecs))
+	mis.origDefs = make([]expreduceapi.Def, len(mis.iSpecs))
 	mis.isOrigDefs = make([]bool, len(mis.iSpecs))
 	for i := range mis.iSpecs {
-		mis.origDefs[i], mis.isOrigDefs[i], _ = es.GetDef(
+		mis.origDefs[i], mis.isOrigDefs[i] = es.GetDefined(
 			mis.iSpecs[i].getIName(),
-			mis.iSpecs[i].getI(),
 		)
 	}
 }
@@ -224,7 +223,7 @@ func (mis *MultiIterSpec) RestoreVarSnapshot(
 ) {
 	for i := range mis.iSpecs {
 		if mis.isOrigDefs[i] {
-			es.Define(mis.iSpecs[i].getI(), mis.origDefs[i])
+			es.SetDefined(mis.iSpecs[i].getIName(), mis.origDefs[i])
 		} else {
 			es.Clear(mis.iSpecs[i].getIName())
 		}
-- 
2.43.0


From cd9878655758d58d83b43e4173491416bf098f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 18/74] fix: reporting a syntax error must not panic near the
 end of the input

---
 expreduce/easyrun.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/expreduce/easyrun.go b/expreduce/easyrun.go
index 38b45c7..f27fc01 100644
--- a/expreduce/easyrun.go
+++ b/expreduce/easyrun.go
@@ -47,12 +47,19 @@ func EvalInterpMany(
 		fmt.Printf(
 			"Syntax::sntx: %v.\nWhile parsing: %v\n\n\n",
 			err,
-			buf.String()[:100],
+			firstChars(buf.String(), 100),
 		)
 	}
 	return lastExpr
 }
 
+func firstChars(s string, n int) string {
+	if len(s) < n {
+		return s
+	}
+	return s[:n]
+}
+
 func ReadList(
 	doc string,
 	fn string,
@@ -69,7 +76,7 @@ func ReadList(
 		fmt.Printf(
 			"Syntax::sntx: %v.\nWhile parsing: %v\n\n\n",
 			err,
-			buf.String()[:100],
+			firstChars(buf.String(), 100),
 		)
 	}
 	return l
-- 
2.43.0


From 8884351126c8e09d37e2f4e3eb3daee652153230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 19/74] fix: a failed pattern alternative must not leave
 bindings behind

---
 expreduce/matcher/matchq.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expreduce/matcher/matchq.go b/expreduce/matcher/matchq.go
index be537ce..aaa329b 100644
--- a/expreduce/matcher/matchq.go
+++ b/expreduce/matcher/matchq.go
@@ -55,13 +55,13 @@ func NewMatchIter(
 	if patternHead == "System`Except" {
 		except := patExpr
 		if len(except.GetParts()) == 2 {
-			matchq, _ := IsMatchQ(a, except.GetParts()[1], pm, es)
+			matchq, _ := IsMatchQ(a, except.GetParts()[1], copyPD(pm), es)
 			if !matchq {
 				return &dummyMatchIter{pm}, true
 			}
 			return nil, false
 		} else if len(except.GetParts()) == 3 {
-			matchq, _ := IsMatchQ(a, except.GetParts()[1], pm, es)
+			matchq, _ := IsMatchQ(a, except.GetParts()[1], copyPD(pm), es)
 			if !matchq {
 				matchqb, newPm := IsMatchQ(a, except.GetParts()[2], pm, es)
 				if matchqb {
@@ -77,7 +77,7 @@ func NewMatchIter(
 			// because MatchQ[{a, b}, {a_, k | a_}] was returning True, causing
 			// problems in some of the boolean patterns. Might need to make
 			// similar changes to the other pattern clauses.
-			matchq, newPD := IsMatchQ(a, alt, pm, es)
+			matchq, newPD := IsMatchQ(a, alt, copyPD(pm), es)
 			if matchq {
 				return &dummyMatchIter{newPD}, true
 			}
@@ -127,7 +127,7 @@ func NewMatchIter(
 	} else if patternHead == "System`Condition" {
 		condition := patExpr
 		if len(condition.GetParts()) == 3 {
-			mi, cont := NewMatchIter(a, condition.GetParts()[1], pm, es)
+			mi, cont := NewMatchIter(a, condition.GetParts()[1], copyPD(pm), es)
 			for cont {
 				matchq, newPD, done := mi.Next()
 				cont = !done
@@ -147,7 +147,7 @@ func NewMatchIter(
 	} else if patternHead == "System`Optional" {
 		optional := patExpr
 		if len(optional.GetParts()) == 2 {
-			matchq, newPD := IsMatchQ(a, optional.GetParts()[1], pm, es)
+			matchq, newPD := IsMatchQ(a, optional.GetParts()[1], copyPD(pm), es)
 			if matchq {
 				return &dummyMatchIter{newPD}, true
 			}
-- 
2.43.0


From 08605b2b60aa40882f8c9901412b5b5c8095cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 20/74] fix: incomplete pattern constructs must not panic the
 matcher

---
 expreduce/matcher/blank.go      | 4 ++--
 expreduce/matcher/parse_form.go | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/expreduce/matcher/blank.go b/expreduce/matcher/blank.go
index e98e3b5..5ee337d 100644
--- a/expreduce/matcher/blank.go
+++ b/expreduce/matcher/blank.go
@@ -7,7 +7,7 @@ import (
 
 func isBlankTypeOnly(e expreduceapi.Ex) bool {
 	asPattern, patternOk := atoms.HeadAssertion(e, "System`Pattern")
-	if patternOk {
+	if patternOk && len(asPattern.GetParts()) >= 3 {
 		_, blankOk := atoms.HeadAssertion(
 			asPattern.GetParts()[2],
 			"System`Blank",
@@ -43,7 +43,7 @@ func isBlankTypeCapturing(
 	// Similar to IsBlankType, but will capture target into es.patternDefined
 	// if there is a valid match.
 	asPattern, patternOk := atoms.HeadAssertion(e, "System`Pattern")
-	if patternOk {
+	if patternOk && len(asPattern.GetParts()) >= 3 {
 		asBlank, blankOk := atoms.HeadAssertion(
 			asPattern.GetParts()[2],
 			"System`Blank",
diff --git a/expreduce/matcher/parse_form.go b/expreduce/matcher/parse_form.go
index baf14e6..9206d6d 100644
--- a/expreduce/matcher/parse_form.go
+++ b/expreduce/matcher/parse_form.go
@@ -54,14 +54,16 @@ func parseForm(
 	// Calculate the min and max elements this component can match.
 	toParse := lhsComponent
 	optional, isOptional := atoms.HeadAssertion(toParse, "System`Optional")
-	if isOptional {
+	if isOptional && len(optional.GetParts()) >= 2 {
 		toParse = optional.GetParts()[1]
 	}
 	patTest, isPatTest := atoms.HeadAssertion(toParse, "System`PatternTest")
+	isPatTest = isPatTest && len(patTest.GetParts()) == 3
 	if isPatTest {
 		toParse = patTest.GetParts()[1]
 	}
 	pat, isPat := atoms.HeadAssertion(toParse, "System`Pattern")
+	isPat = isPat && len(pat.GetParts()) >= 3
 	var patSym *atoms.Symbol
 	if isPat {
 		var patIsSym bool
-- 
2.43.0


From f7204a4c3d3dbea974cd6cf09cabb23beb779999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 21/74] fix: restore the trace when the evaluation of an
 argument throws

---
 expreduce/eval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 94d14a2..908e705 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -150,6 +150,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			//fmt.Println(curr, i)
 			newPart := es.Eval(oldPart)
 			if es.HasThrown() {
+				es.SetTrace(traceBak)
 				return es.Thrown()
 			}
 			if newPart != oldPart {
-- 
2.43.0


From f4bf302e8ce8801d14e257a9a18eb3e0fb33cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 22/74] fix: a Flat function must flatten even when no rule
 applies to it

---
 expreduce/eval.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index 908e705..c9ce32a 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -216,6 +216,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		if headIsSym {
 			if attrs.Flat {
 				curr = mergeSequences(curr, es, headSym.Name, false)
+				currEx = curr
 			}
 			if attrs.Orderless && !sort.IsSorted(curr) {
 				curr = atoms.ShallowCopy(curr)
-- 
2.43.0


From b9681d4418b529c122411b353258fab733dcfa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:39 +0000
Subject: [PATCH 23/74] fix: numbers that differ must not be equal in the
 canonical order

---
 expreduce/atoms/order.go | 146 +++++++++++++++++++++++----------------
 1 file changed, 87 insertions(+), 59 deletions(-)

diff --git a/expreduce/atoms/order.go b/expreduce/atoms/order.go
index ba6e804..3b0b878 100644
--- a/expreduce/atoms/order.go
+++ b/expreduce/atoms/order.go
@@ -1,6 +1,8 @@
 package atoms
 
 import (
+	"math/big"
+
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
@@ -28,73 +30,99 @@ func compareStrings(a string, b string) int64 {
 	return 0
 }
 
-func exprToN(e expreduceapi.Ex) expreduceapi.Ex {
-	asInt, isInt := e.(*Integer)
-	if isInt {
-		toReturn, _ := IntegerToFlt(asInt)
-		return toReturn
+// asRat returns the exact value of an Integer or a Rational.
+func asRat(e expreduceapi.Ex) (*big.Rat, bool) {
+	if asInt, isInt := e.(*Integer); isInt {
+		return new(big.Rat).SetInt(asInt.Val), true
 	}
-	asRat, isRat := e.(*Rational)
-	if isRat {
-		toReturn, _ := RationalToFlt(asRat)
-		return toReturn
+	asRational, isRat := e.(*Rational)
+	if isRat && asRational.Den.Sign() != 0 {
+		return asRational.asBigRat(), true
 	}
-	return e
+	return nil, false
 }
 
-func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
-	// Support Flt, Integer, Rational, Expression, Symbol
-
-	aAsSymbol, aIsSymbol := a.(*Symbol)
-	bAsSymbol, bIsSymbol := b.(*Symbol)
-	aAsString, aIsString := a.(*String)
-	bAsString, bIsString := b.(*String)
-	aAsExp, aIsExp := a.(expreduceapi.ExpressionInterface)
-	bAsExp, bIsExp := b.(expreduceapi.ExpressionInterface)
+func asFlt(e expreduceapi.Ex) (*Flt, bool) {
+	if exact, isExact := asRat(e); isExact {
+		return NewReal(big.NewFloat(0).SetRat(exact)), true
+	}
+	flt, isFlt := e.(*Flt)
+	return flt, isFlt
+}
 
-	aAsFlt, aIsFlt := a.(*Flt)
-	bAsFlt, bIsFlt := b.(*Flt)
+// numberOrder orders numbers by value. Different numbers never compare equal:
+// where the values do not decide, exact numbers come before inexact ones and
+// real numbers before complex ones.
+func numberOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 	aAsInteger, aIsInteger := a.(*Integer)
 	bAsInteger, bIsInteger := b.(*Integer)
-	aAsRational, aIsRational := a.(*Rational)
-	bAsRational, bIsRational := b.(*Rational)
-	aAsComplex, aIsComplex := a.(*Complex)
-	bAsComplex, bIsComplex := b.(*Complex)
-
-	// Handle number comparisons
 	if aIsInteger && bIsInteger {
 		return int64(bAsInteger.Val.Cmp(aAsInteger.Val))
 	}
-	// Merge Integer and Rational into Flt
-	// TODO: possible precision, round off issue here.
-	if aIsInteger {
-		aAsFlt, aIsFlt = IntegerToFlt(aAsInteger)
-	}
-	if bIsInteger {
-		bAsFlt, bIsFlt = IntegerToFlt(bAsInteger)
-	}
-	if aIsRational {
-		aAsFlt, aIsFlt = RationalToFlt(aAsRational)
-	}
-	if bIsRational {
-		bAsFlt, bIsFlt = RationalToFlt(bAsRational)
-	}
-	if aIsComplex {
-		aAsFlt, aIsFlt = exprToN(aAsComplex.Re).(*Flt)
-	}
-	if bIsComplex {
-		bAsFlt, bIsFlt = exprToN(bAsComplex.Re).(*Flt)
-	}
 
-	if aIsFlt && bIsFlt {
-		initCmp := int64(bAsFlt.Val.Cmp(aAsFlt.Val))
-		if initCmp == 0 && (aIsInteger && !bIsInteger) {
+	aAsComplex, aIsComplex := a.(*Complex)
+	bAsComplex, bIsComplex := b.(*Complex)
+	if aIsComplex || bIsComplex {
+		aRe, bRe := a, b
+		if aIsComplex {
+			aRe = aAsComplex.Re
+		}
+		if bIsComplex {
+			bRe = bAsComplex.Re
+		}
+		if o := ExOrder(aRe, bRe); o != 0 {
+			return o
+		}
+		if !aIsComplex {
 			return 1
 		}
-		if initCmp == 0 && (!aIsInteger && bIsInteger) {
+		if !bIsComplex {
 			return -1
 		}
-		return initCmp
+		return ExOrder(aAsComplex.Im, bAsComplex.Im)
+	}
+
+	aRat, aIsExact := asRat(a)
+	bRat, bIsExact := asRat(b)
+	cmp := 0
+	if aIsExact && bIsExact {
+		cmp = bRat.Cmp(aRat)
+	} else {
+		aFlt, aOk := asFlt(a)
+		bFlt, bOk := asFlt(b)
+		if aOk && bOk {
+			cmp = bFlt.Val.Cmp(aFlt.Val)
+		}
+	}
+	if cmp == 0 && aIsExact != bIsExact {
+		if aIsExact {
+			return 1
+		}
+		return -1
+	}
+	if cmp == 0 && aIsInteger != bIsInteger {
+		if aIsInteger {
+			return 1
+		}
+		return -1
+	}
+	return int64(cmp)
+}
+
+func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
+	// Support Flt, Integer, Rational, Expression, Symbol
+
+	aAsSymbol, aIsSymbol := a.(*Symbol)
+	bAsSymbol, bIsSymbol := b.(*Symbol)
+	aAsString, aIsString := a.(*String)
+	bAsString, bIsString := b.(*String)
+	aAsExp, aIsExp := a.(expreduceapi.ExpressionInterface)
+	bAsExp, bIsExp := b.(expreduceapi.ExpressionInterface)
+
+	// Handle number comparisons
+	aIsNumber, bIsNumber := NumberQ(a), NumberQ(b)
+	if aIsNumber && bIsNumber {
+		return numberOrder(a, b)
 	}
 
 	// Handle expression comparisons
@@ -187,18 +215,18 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 	}
 
 	// The remaining type combinations simply return -1 or 1:
-	// Precedence order: numbers (flt), strings, symbols, expressions
-	if aIsFlt && bIsString {
+	// Precedence order: numbers, strings, symbols, expressions
+	if aIsNumber && bIsString {
 		return 1
 	}
-	if aIsFlt && bIsSymbol {
+	if aIsNumber && bIsSymbol {
 		return 1
 	}
-	if aIsFlt && bIsExp {
+	if aIsNumber && bIsExp {
 		return 1
 	}
 
-	if aIsString && bIsFlt {
+	if aIsString && bIsNumber {
 		return -1
 	}
 	if aIsString && bIsSymbol {
@@ -208,7 +236,7 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 		return 1
 	}
 
-	if aIsSymbol && bIsFlt {
+	if aIsSymbol && bIsNumber {
 		return -1
 	}
 	if aIsSymbol && bIsString {
@@ -234,7 +262,7 @@ func ExOrder(a expreduceapi.Ex, b expreduceapi.Ex) int64 {
 		return 1
 	}
 
-	if aIsExp && bIsFlt {
+	if aIsExp && bIsNumber {
 		return -1
 	}
 	if aIsExp && bIsString {
-- 
2.43.0


From ab8868db0a75ca1398fca7ad804cea784e36effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 24/74] fix: ReplacePart must not modify a position that a rule
 may have bound

---
 expreduce/builtin_replacement.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/expreduce/builtin_replacement.go b/expreduce/builtin_replacement.go
index 042f127..001cc57 100644
--- a/expreduce/builtin_replacement.go
+++ b/expreduce/builtin_replacement.go
@@ -77,26 +77,27 @@ func replaceParts(
 		return e
 	}
 	res := atoms.E(expr.GetParts()[0])
-	part.AppendEx(atoms.NewInt(0))
 	dirty := false
 	for i, p := range expr.GetParts()[1:] {
-		part.GetParts()[len(part.GetParts())-1] = atoms.NewInt(int64(i + 1))
-		repVal, replaced := rulesReplace(part, rules, es)
-		if !replaced && len(part.GetParts()) == 2 {
-			repVal, replaced = rulesReplace(part.GetParts()[1], rules, es)
+		// A rule may bind the position, so every position is a new expression.
+		pos := atoms.ShallowCopy(part)
+		pos.AppendEx(atoms.NewInt(int64(i + 1)))
+		pos.ClearHashes()
+		repVal, replaced := rulesReplace(pos, rules, es)
+		if !replaced && len(pos.GetParts()) == 2 {
+			repVal, replaced = rulesReplace(pos.GetParts()[1], rules, es)
 		}
 		if replaced {
 			res.AppendEx(repVal)
 			dirty = true
 		} else {
-			newVal := replaceParts(p, rules, part, es)
+			newVal := replaceParts(p, rules, pos, es)
 			res.AppendEx(newVal)
 			if newVal != p {
 				dirty = true
 			}
 		}
 	}
-	part.SetParts(part.GetParts()[:len(part.GetParts())-1])
 	if !dirty {
 		return e
 	}
-- 
2.43.0


From a6675b4160bd4d8139cfff8090272f120b08f299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 25/74] fix: unsupported syntax must be a syntax error, not end
 the process

---
 expreduce/parser/interp.go | 64 +++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 7e0b241..3a0d49d 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"go/token"
-	"log"
 	"math/big"
 	"strings"
 
@@ -185,6 +184,28 @@ var unicodeRedefineMap = map[string]string{
 	"ⅉ": "I",
 }
 
+// unsupportedSyntax names valid syntax that has no translation. The conversion
+// functions panic with it and convertParsed turns it into an error.
+type unsupportedSyntax string
+
+func (u unsupportedSyntax) Error() string {
+	return "unsupported syntax: " + string(u)
+}
+
+// convertParsed converts the syntax tree to an expression.
+func convertParsed(expr *wl.Expression) (res expreduceapi.Ex, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			unsupported, isUnsupported := r.(unsupportedSyntax)
+			if !isUnsupported {
+				panic(r)
+			}
+			res, err = atoms.NewSymbol("System`Null"), unsupported
+		}
+	}()
+	return parserExprConv(expr), nil
+}
+
 func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 	switch tk.Rune {
 	case wl.IDENT:
@@ -198,14 +219,14 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 		tmpi := big.NewInt(0)
 		_, ok := tmpi.SetString(tk.Val, base)
 		if !ok {
-			log.Fatal("Failed in integer parsing.")
+			panic(unsupportedSyntax("integer " + tk.Val))
 		}
 		return atoms.NewInteger(tmpi)
 	case wl.FLOAT:
 		tmpf := big.NewFloat(0)
 		_, ok := tmpf.SetString(tk.Val)
 		if !ok {
-			log.Fatal("Failed in float parsing.")
+			panic(unsupportedSyntax("float " + tk.Val))
 		}
 		return atoms.NewReal(tmpf)
 	case wl.STRING:
@@ -217,7 +238,7 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 		if tk.Val != "#" {
 			_, ok := tmpi.SetString(tk.Val[1:], 10)
 			if !ok {
-				log.Fatal("Failed in integer parsing.")
+				panic(unsupportedSyntax("slot " + tk.Val))
 			}
 		}
 		return atoms.NewExpression([]expreduceapi.Ex{
@@ -225,17 +246,25 @@ func parserTokenConv(tk wl.Token) expreduceapi.Ex {
 			atoms.NewInteger(tmpi),
 		})
 
-	default:
-		log.Fatalf("System`UnParsedToken")
 	}
-	log.Fatalf("System`UnParsedToken")
-	return nil
+	panic(unsupportedSyntax("token " + tk.Val))
 }
 
 func parserTagConv(tag *wl.Tag) expreduceapi.Ex {
 	return parserTokenConv(tag.Token)
 }
 
+// tagName is the name of a message tag, written as a symbol or as a string.
+func tagName(tag *wl.Tag) string {
+	switch conv := parserTagConv(tag).(type) {
+	case *atoms.Symbol:
+		return conv.Name
+	case *atoms.String:
+		return conv.Val
+	}
+	panic(unsupportedSyntax("message tag " + tag.Token.Val))
+}
+
 func parserExprListConv(l *wl.ExprList) (res []expreduceapi.Ex) {
 	for l != nil {
 		if l.Expression != nil {
@@ -362,7 +391,7 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 		return atoms.NewExpression([]expreduceapi.Ex{
 			atoms.NewSymbol("System`MessageName"),
 			parserTokenConv(expr.Token),
-			atoms.NewString(parserTagConv(expr.Tag).(*atoms.Symbol).Name),
+			atoms.NewString(tagName(expr.Tag)),
 		})
 
 	case 132: // a[]
@@ -460,7 +489,10 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 		})
 
 	case 35:
-		set := parserExprConv(expr.Expression2).(expreduceapi.ExpressionInterface)
+		set, isExpr := parserExprConv(expr.Expression2).(expreduceapi.ExpressionInterface)
+		if !isExpr || len(set.GetParts()) != 3 {
+			panic(unsupportedSyntax("operand of " + expr.Token.Val))
+		}
 		head := "System`TagSet"
 		if _, isDelayed := atoms.HeadAssertion(set, "System`SetDelayed"); isDelayed {
 			head = "System`TagSetDelayed"
@@ -513,8 +545,9 @@ func parserExprConv(expr *wl.Expression) expreduceapi.Ex {
 			)
 		}
 	}
-	log.Fatalf("System`UnParsed: %+v %+v %+v", expr.Token, expr.Case, expr)
-	return nil
+	panic(unsupportedSyntax(
+		fmt.Sprintf("%v (case %d)", expr.Token.Val, int(expr.Case)),
+	))
 }
 
 func ReplaceSyms(in string) string {
@@ -533,13 +566,16 @@ func InterpBuf(
 	// TODO(corywalker): use the interactive mode for proper newline handling.
 	in, err := wl.NewInput(buf, true)
 	if err != nil {
-		panic(err)
+		return atoms.NewSymbol("System`Null"), err
 	}
 	expr, err := in.ParseExpression(token.NewFileSet().AddFile(fn, -1, 1e6))
 	if err != nil {
 		return atoms.NewSymbol("System`Null"), err
 	}
-	parsed := parserExprConv(expr)
+	parsed, err := convertParsed(expr)
+	if err != nil {
+		return parsed, err
+	}
 	//fmt.Println(parsed)
 
 	// Remove outer parens
-- 
2.43.0


From f26ee7a85bcfda2a71b0c8ec65e763d5e1579b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:22 +0000
Subject: [PATCH 26/74] fix: a $ContextPath element that is not a string must
 not panic

---
 expreduce/atoms/ex_symbol.go | 6 +++---
 expreduce/parser/interp.go   | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/expreduce/atoms/ex_symbol.go b/expreduce/atoms/ex_symbol.go
index fd32cc9..209c713 100644
--- a/expreduce/atoms/ex_symbol.go
+++ b/expreduce/atoms/ex_symbol.go
@@ -51,9 +51,9 @@ func (sym *Symbol) StringForm(params expreduceapi.ToStringParams) string {
 		return formatSymName(sym.Name[len(params.Context.GetValue()):], params)
 	}
 	for _, pathPart := range params.ContextPath.GetParts()[1:] {
-		path := pathPart.(*String).Val
-		if strings.HasPrefix(sym.Name, path) {
-			return formatSymName(sym.Name[len(path):], params)
+		path, isStr := pathPart.(*String)
+		if isStr && strings.HasPrefix(sym.Name, path.Val) {
+			return formatSymName(sym.Name[len(path.Val):], params)
 		}
 	}
 	return formatSymName(sym.Name, params)
diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 3a0d49d..b645857 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -594,7 +594,9 @@ func InterpBuf(
 	contextPathEx := esfp.GetListDef("System`$ContextPath")
 	contextPath := []string{}
 	for _, pathPart := range contextPathEx.GetParts()[1:] {
-		contextPath = append(contextPath, pathPart.(*atoms.String).Val)
+		if path, isStr := pathPart.(*atoms.String); isStr {
+			contextPath = append(contextPath, path.Val)
+		}
 	}
 	addContextAndDefine(parsed, context, contextPath, esfp)
 	return parsed, nil
-- 
2.43.0


From f502e3dda1ce20adf14a0009ea6bd1cecc3d1cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 27/74] fix: a Function with a named parameter applied to no
 arguments must not panic

---
 expreduce/eval.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index c9ce32a..22b2fd0 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -440,6 +440,9 @@ func evalFunction(
 		}
 		return toReturn
 	} else if len(this.GetParts()) == 3 {
+		if len(args) == 0 {
+			return atoms.NewExpression([]expreduceapi.Ex{this})
+		}
 		repSym, ok := this.GetParts()[1].(*atoms.Symbol)
 		if !ok {
 			return this
-- 
2.43.0


From 7d955f18964e2a8502fb8f3e200f050baf8c9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 28/74] fix: a Rule without two sides is not a replacement rule

---
 expreduce/builtin_pattern.go     | 2 +-
 expreduce/builtin_replacement.go | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/expreduce/builtin_pattern.go b/expreduce/builtin_pattern.go
index 76df92a..47707c5 100644
--- a/expreduce/builtin_pattern.go
+++ b/expreduce/builtin_pattern.go
@@ -120,7 +120,7 @@ func getPatternDefinitions() (defs []Definition) {
 				this.GetParts()[2],
 				"System`Rule",
 			)
-			if !isRule {
+			if !isRule || len(rule.GetParts()) != 3 {
 				return this
 			}
 			res := atoms.NewExpression(
diff --git a/expreduce/builtin_replacement.go b/expreduce/builtin_replacement.go
index 001cc57..760f1d8 100644
--- a/expreduce/builtin_replacement.go
+++ b/expreduce/builtin_replacement.go
@@ -14,6 +14,9 @@ func getValidRules(
 		rulesRule, ok = atoms.HeadAssertion(ruleArg, "System`RuleDelayed")
 	}
 	if ok {
+		if len(rulesRule.GetParts()) != 3 {
+			return nil
+		}
 		return []expreduceapi.ExpressionInterface{rulesRule}
 	}
 
@@ -31,7 +34,7 @@ func getValidRules(
 					"System`RuleDelayed",
 				)
 			}
-			if ok {
+			if ok && len(rulesRule.GetParts()) == 3 {
 				rules = append(rules, rulesRule)
 			}
 		}
@@ -251,7 +254,7 @@ func getReplacementDefinitions() (defs []Definition) {
 			exprRules := [](expreduceapi.ExpressionInterface){}
 			for _, rulesPart := range rules.GetParts()[1:] {
 				rule, isRule := atoms.HeadAssertion(rulesPart, "System`Rule")
-				if !isRule {
+				if !isRule || len(rule.GetParts()) != 3 {
 					return this
 				}
 				exprRules = append(exprRules, rule)
-- 
2.43.0


From 9b96fd32bd863f5aafd511424bfcae97dcc91906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 29/74] fix: a Condition without a test must not panic when a
 rule has it as its right-hand side

---
 expreduce/evalstate.go | 2 +-
 expreduce/replace.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 5ccd9d7..93e906f 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -748,7 +748,7 @@ func (es *EvalState) ProcessTopLevelResult(
 
 func maskNonConditional(e expreduceapi.Ex) expreduceapi.Ex {
 	var res expreduceapi.Ex = atoms.NewSymbol("System`ExpreduceNonConditional")
-	if asHead, isHead := atoms.HeadAssertion(e, "System`Condition"); isHead {
+	if asHead, isHead := atoms.HeadAssertion(e, "System`Condition"); isHead && len(asHead.GetParts()) == 3 {
 		res = atoms.NewExpression([]expreduceapi.Ex{
 			atoms.NewSymbol("System`Condition"),
 			maskNonConditional(asHead.GetParts()[1]),
diff --git a/expreduce/replace.go b/expreduce/replace.go
index 09a709b..46880d2 100644
--- a/expreduce/replace.go
+++ b/expreduce/replace.go
@@ -122,7 +122,7 @@ func tryCondWithMatches(
 			}
 		}
 	}
-	if isCond {
+	if isCond && len(asCond.GetParts()) == 3 {
 		condRes := es.Eval(asCond.GetParts()[2])
 		condResSymbol, condResIsSymbol := condRes.(*atoms.Symbol)
 		if condResIsSymbol {
-- 
2.43.0


From e82454d625fe29ae9b7ec00d688085a973bd9823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 30/74] fix: assigning to an expression headed by an empty
 Verbatim must not panic

---
 expreduce/evalstate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 93e906f..9d50f1f 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -521,7 +521,7 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 			lhs,
 			"System`Verbatim",
 		)
-		if isVerbatimOp {
+		if isVerbatimOp && len(opExpr.GetParts()) == 2 {
 			opSym, opIsSym := opExpr.GetParts()[1].(*atoms.Symbol)
 			if opIsSym {
 				name = opSym.Name
-- 
2.43.0


From 9c62eb1c2988258e24ba42995ce387ecc6bb5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 31/74] fix: an empty CompoundExpression is Null

---
 expreduce/builtin_flowcontrol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index 33e4329..d17b166 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -116,7 +116,7 @@ func getFlowControlDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name: "CompoundExpression",
 		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
-			var toReturn expreduceapi.Ex
+			var toReturn expreduceapi.Ex = atoms.NewSymbol("System`Null")
 			for i := 1; i < len(this.GetParts()); i++ {
 				toReturn = es.Eval(this.GetParts()[i])
 				if es.HasThrown() {
-- 
2.43.0


From 7fed0dc4a6aa621338f1f45648b8a28835fe429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 32/74] fix: Names with a pattern that is not a valid regular
 expression must not panic

---
 expreduce/builtin_system.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 0d03b14..ad5befc 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -1098,7 +1098,11 @@ func getSystemDefinitions() (defs []Definition) {
 				fmt.Println("Unsupported call to Names.")
 				return this
 			}
-			var namesRegex = regexp.MustCompile(regex)
+			namesRegex, err := regexp.Compile(regex)
+			if err != nil {
+				fmt.Println("Unsupported call to Names.")
+				return this
+			}
 			names := []string{}
 			for _, name := range es.GetDefinedMap().Keys() {
 				if namesRegex.MatchString(name) {
-- 
2.43.0


From 95366d7dd34f6a76c7bf8ed6ecabdca014b093e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 33/74] fix: printing a sum with an empty term must not panic

---
 expreduce/builtin_arithmetic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_arithmetic.go b/expreduce/builtin_arithmetic.go
index abc08a6..ccae661 100644
--- a/expreduce/builtin_arithmetic.go
+++ b/expreduce/builtin_arithmetic.go
@@ -193,7 +193,7 @@ func getArithmeticDefinitions() (defs []Definition) {
 			for i := 0; i < len(parts); i++ {
 				toWrite := parts[i].StringForm(nextParams)
 				if i != 0 {
-					if toWrite[0] == '-' {
+					if strings.HasPrefix(toWrite, "-") {
 						buffer.WriteString(" - ")
 						toWrite = toWrite[1:]
 					} else {
-- 
2.43.0


From b0944ec713cc6556387d96716f717ec1da75aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 34/74] fix: Internal`Parens written with other than one
 argument must not panic or lose arguments

---
 expreduce/parser/interp.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index b645857..65bdc68 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -83,6 +83,7 @@ func removeParens(ex expreduceapi.Ex) {
 					expr.GetParts()[i],
 					"Internal`Parens",
 				)
+				isParens = isParens && len(parens.GetParts()) == 2
 				if isParens {
 					expr.GetParts()[i] = parens.GetParts()[1]
 				}
@@ -583,6 +584,7 @@ func InterpBuf(
 	var parens expreduceapi.ExpressionInterface
 	for isParens {
 		parens, isParens = atoms.HeadAssertion(parsed, "Internal`Parens")
+		isParens = isParens && len(parens.GetParts()) == 2
 		if isParens {
 			parsed = parens.GetParts()[1]
 		}
-- 
2.43.0


From 9508d456c18aafeabdb7aa84784c27add8d7c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 35/74] fix: look a definition up once instead of testing for
 it first

Between the test and the lookup another evaluation may remove the definition,
and the lookup then panicked.
---
 expreduce/definition_map.go | 6 +++---
 expreduce/eval.go           | 8 +++-----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/expreduce/definition_map.go b/expreduce/definition_map.go
index fc0ea49..33680de 100644
--- a/expreduce/definition_map.go
+++ b/expreduce/definition_map.go
@@ -20,11 +20,11 @@ func (dm threadSafeDefinitionMap) Set(key string, value expreduceapi.Def) {
 }
 
 func (dm threadSafeDefinitionMap) Get(key string) (expreduceapi.Def, bool) {
-	if !dm.internalMap.Has(key) {
+	value, ok := dm.internalMap.Get(key)
+	if !ok {
 		return expreduceapi.Def{}, false
 	}
-	value, ok := dm.internalMap.Get(key)
-	return value.(expreduceapi.Def), ok
+	return value.(expreduceapi.Def), true
 }
 
 func (dm threadSafeDefinitionMap) GetDef(key string) expreduceapi.Def {
diff --git a/expreduce/eval.go b/expreduce/eval.go
index 22b2fd0..ec6034f 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -237,12 +237,10 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			legacyEvalFn, hasLegacyEvalFn := (expreduceapi.EvalFnType)(
 				nil,
 			), false
-			if _, inDefined := es.GetDefinedMap().Get(headStr); inDefined {
-				if es.GetDefinedMap().GetDef(headStr).LegacyEvalFn != nil {
+			if headDef, inDefined := es.GetDefinedMap().Get(headStr); inDefined {
+				if headDef.LegacyEvalFn != nil {
 					hasLegacyEvalFn = true
-					legacyEvalFn = es.GetDefinedMap().
-						GetDef(headStr).
-						LegacyEvalFn
+					legacyEvalFn = headDef.LegacyEvalFn
 				}
 			}
 			unchanged := true
-- 
2.43.0


From 5cb34b164d311b4a97d09009735496f3c5bf9789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 36/74] fix: a negative integer raised to a real power must not
 panic

The exact base has to be converted first. The steps are evaluated with
definitions a user may have changed, so their results may not be real.
---
 expreduce/builtin_power.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/expreduce/builtin_power.go b/expreduce/builtin_power.go
index bc15926..763f5bd 100644
--- a/expreduce/builtin_power.go
+++ b/expreduce/builtin_power.go
@@ -258,7 +258,12 @@ func getPowerDefinitions() (defs []Definition) {
 				// coeff := ((a^2)^(b/2))
 
 				// Precompute shared values.
-				coeff :=
+				if baseIsInt {
+					baseFlt = atoms.NewReal(
+						big.NewFloat(0).SetInt(baseInt.Val),
+					)
+				}
+				coeff, coeffIsFlt :=
 
 					es.Eval(atoms.E(
 						atoms.S("Power"),
@@ -274,7 +279,7 @@ func getPowerDefinitions() (defs []Definition) {
 						),
 					)).(*atoms.Flt)
 				// inner := b Arg[a]
-				inner :=
+				inner, innerIsFlt :=
 
 					es.Eval(atoms.E(
 						atoms.S("Times"),
@@ -284,7 +289,10 @@ func getPowerDefinitions() (defs []Definition) {
 							baseFlt.DeepCopy(),
 						),
 					)).(*atoms.Flt)
-				re :=
+				if !coeffIsFlt || !innerIsFlt {
+					return this
+				}
+				re, reIsFlt :=
 
 					es.Eval(atoms.E(
 						atoms.S("Times"),
@@ -294,6 +302,9 @@ func getPowerDefinitions() (defs []Definition) {
 							inner.DeepCopy(),
 						),
 					)).(*atoms.Flt)
+				if !reIsFlt {
+					return this
+				}
 				// If the exponent has no fractional part, i.e. should be an integer, then we can say there will be no imaginary component to the result.
 				// Reduce[Sin[b*Arg[a]] == 0, b, Reals] // FullSimplify
 				// C[1] \[Element] Integers && a < 0 && (b == 2 C[1] || b == 1 + 2 C[1])
@@ -301,7 +312,7 @@ func getPowerDefinitions() (defs []Definition) {
 					// TODO: We may want to decide this earlier. Figure this out.
 					return re
 				}
-				im :=
+				im, imIsFlt :=
 
 					es.Eval(atoms.E(
 						atoms.S("Times"),
@@ -311,6 +322,9 @@ func getPowerDefinitions() (defs []Definition) {
 							inner.DeepCopy(),
 						),
 					)).(*atoms.Flt)
+				if !imIsFlt {
+					return this
+				}
 				return atoms.NewComplex(re, im)
 			}
 
-- 
2.43.0


From d6382fd1ecc57b98f64886ea93ef3066a89a0613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 37/74] fix: Save and Get must report a file they cannot write
 or read

Save answered Null when the file could not be created or written, and panicked
or dropped the error otherwise; Get panicked on a damaged file.
---
 expreduce/builtin_system.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index ad5befc..1ddade4 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -796,11 +796,14 @@ func getSystemDefinitions() (defs []Definition) {
 				// TODO: Read as a stream and not a byte string.
 				r := bytes.NewReader(fileData[len(exprFileHeader):])
 				atoms.RegisterGobAtoms()
-				compressedReader, _ := zlib.NewReader(r)
+				compressedReader, err := zlib.NewReader(r)
+				if err != nil {
+					return atoms.NewSymbol("System`$Failed")
+				}
 				decoder := gob.NewDecoder(compressedReader)
 				definitions := []encodedDef{}
 				if err := decoder.Decode(&definitions); err != nil {
-					panic(err)
+					return atoms.NewSymbol("System`$Failed")
 				}
 				compressedReader.Close()
 
@@ -853,19 +856,25 @@ func getSystemDefinitions() (defs []Definition) {
 			atoms.RegisterGobAtoms()
 
 			file, err := os.Create(filename)
+			if err != nil {
+				return atoms.NewSymbol("System`$Failed")
+			}
+			// Write the header.
+			_, err = file.Write(exprFileHeader)
 			if err == nil {
-				// Write the header.
-				if _, err := file.Write(exprFileHeader); err != nil {
-					panic(err)
-				}
 				compressedWriter := zlib.NewWriter(file)
 				encoder := gob.NewEncoder(compressedWriter)
-				if err := encoder.Encode(definitions); err != nil {
-					panic(err)
+				err = encoder.Encode(definitions)
+				if closeErr := compressedWriter.Close(); err == nil {
+					err = closeErr
 				}
-				compressedWriter.Close()
 			}
-			file.Close()
+			if closeErr := file.Close(); err == nil {
+				err = closeErr
+			}
+			if err != nil {
+				return atoms.NewSymbol("System`$Failed")
+			}
 
 			return atoms.NewSymbol("System`Null")
 		},
-- 
2.43.0


From 8f88612768b7a6b38e65e42108343a834fe0c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 38/74] fix: failing to write a memory profile must not end the
 process

---
 expreduce/builtin_system.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 1ddade4..17ae71a 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -345,13 +345,15 @@ func getSystemDefinitions() (defs []Definition) {
 			if *mymemprofile != "" {
 				f, err := os.Create(*mymemprofile)
 				if err != nil {
-					log.Fatal(err)
+					fmt.Println(err)
+					return atoms.NewSymbol("System`$Failed")
 				}
 				err = pprof.WriteHeapProfile(f)
+				f.Close()
 				if err != nil {
-					log.Fatal(err)
+					fmt.Println(err)
+					return atoms.NewSymbol("System`$Failed")
 				}
-				f.Close()
 			}
 			fmt.Println(es.GetTimeCounter().String())
 			return atoms.NewSymbol("System`Null")
-- 
2.43.0


From edd5ef55acad82c5c5643c62f7f078203d116d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 39/74] fix: Unique and Module must not end the process without
 a $ModuleNumber

$ModuleNumber is an ordinary variable that can be cleared or assigned.
---
 expreduce/builtin_system.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 17ae71a..cfb0f24 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -6,7 +6,6 @@ import (
 	"encoding/gob"
 	"flag"
 	"fmt"
-	"log"
 	"math/big"
 	"os"
 	"regexp"
@@ -232,7 +231,7 @@ func applyModuleFn(
 	for i := range parsedLocals {
 		unique, ok := snagUnique(parsedLocals[i].sym.Name, "$", es)
 		if !ok {
-			log.Fatal("Error snagging unique.")
+			return nil, false
 		}
 		parsedLocals[i].uniqueName = unique
 	}
@@ -1007,7 +1006,7 @@ func getSystemDefinitions() (defs []Definition) {
 			}
 			unique, ok := snagUnique("Global`", prefix, es)
 			if !ok {
-				log.Fatal("Error snagging unique.")
+				return this
 			}
 			return atoms.NewSymbol(unique)
 		},
-- 
2.43.0


From 3db65e8b0bc9261cd356b9ae02d14def20083796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:55 +0000
Subject: [PATCH 40/74] fix: clearing $Line must not panic the session

---
 expreduce/evalstate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 9d50f1f..03a0db6 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -733,7 +733,10 @@ func (es *EvalState) ProcessTopLevelResult(
 	} else {
 		es.interrupted = false
 	}
-	thisLine, _ := es.GetSymDef("System`$Line")
+	thisLine, hasLine := es.GetSymDef("System`$Line")
+	if !hasLine {
+		thisLine = atoms.S("$Line")
+	}
 	es.Eval(
 		atoms.E(atoms.S("SetDelayed"), atoms.E(atoms.S("In"), thisLine), in),
 	)
-- 
2.43.0


From d48ca43ae0a78486262d937ee3206df3023f338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 41/74] fix: report a memory profile that could not be written
 completely

---
 expreduce/builtin_system.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index cfb0f24..aa3459d 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -348,7 +348,9 @@ func getSystemDefinitions() (defs []Definition) {
 					return atoms.NewSymbol("System`$Failed")
 				}
 				err = pprof.WriteHeapProfile(f)
-				f.Close()
+				if cerr := f.Close(); err == nil {
+					err = cerr
+				}
 				if err != nil {
 					fmt.Println(err)
 					return atoms.NewSymbol("System`$Failed")
-- 
2.43.0


From 176aa6726ed5a8b81c0d0499f8f021ddc02d0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 42/74] fix: integers beyond 64 bits must not be mistaken for
 small ones

---
 expreduce/atoms/ex_complex.go      |  5 +++--
 expreduce/builtin_arithmetic.go    |  4 ++--
 expreduce/builtin_combinatorics.go |  4 ++--
 expreduce/builtin_expression.go    |  2 +-
 expreduce/builtin_functional.go    | 13 ++++++++-----
 expreduce/builtin_list.go          |  6 +++---
 expreduce/builtin_numbertheory.go  |  5 ++++-
 expreduce/builtin_random.go        |  2 +-
 expreduce/builtin_string.go        |  2 +-
 expreduce/builtin_system.go        |  4 ++--
 expreduce/builtin_time.go          |  3 +++
 expreduce/matcher/parse_form.go    |  2 +-
 12 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/expreduce/atoms/ex_complex.go b/expreduce/atoms/ex_complex.go
index 87f4278..bb42405 100644
--- a/expreduce/atoms/ex_complex.go
+++ b/expreduce/atoms/ex_complex.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"hash/fnv"
+	"math/big"
 
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
@@ -19,12 +20,12 @@ func (cmplx *Complex) AsExpr() expreduceapi.Ex {
 	reInt, reIsInt := cmplx.Re.(*Integer)
 	imInt, imIsInt := cmplx.Im.(*Integer)
 	if reIsInt && reInt.Val.Sign() == 0 {
-		if imIsInt && imInt.Val.Int64() == 1 {
+		if imIsInt && imInt.Val.Cmp(big.NewInt(1)) == 0 {
 			return iSym
 		}
 		return E(S("Times"), cmplx.Im, iSym)
 	}
-	if imIsInt && imInt.Val.Int64() == 1 {
+	if imIsInt && imInt.Val.Cmp(big.NewInt(1)) == 0 {
 		return E(S("Plus"), cmplx.Re, iSym)
 	}
 	return E(S("Plus"), cmplx.Re, E(S("Times"), cmplx.Im, iSym))
diff --git a/expreduce/builtin_arithmetic.go b/expreduce/builtin_arithmetic.go
index ccae661..a13b878 100644
--- a/expreduce/builtin_arithmetic.go
+++ b/expreduce/builtin_arithmetic.go
@@ -151,13 +151,13 @@ func splitFrac(ex expreduceapi.Ex) (num expreduceapi.Ex, den expreduceapi.Ex) {
 		if !powIsInt {
 			return ex, nil
 		}
-		if powInt.Val.Int64() == -1 {
+		if powInt.Val.Cmp(big.NewInt(-1)) == 0 {
 			return nil, asPow.GetPart(1)
 		}
 	}
 	asRat, isRat := ex.(*atoms.Rational)
 	if isRat {
-		if asRat.Num.Int64() == 1 {
+		if asRat.Num.Cmp(big.NewInt(1)) == 0 {
 			return nil, atoms.NewInteger(asRat.Den)
 		}
 		return atoms.NewInteger(asRat.Num), atoms.NewInteger(asRat.Den)
diff --git a/expreduce/builtin_combinatorics.go b/expreduce/builtin_combinatorics.go
index dd230d1..5eeba7b 100644
--- a/expreduce/builtin_combinatorics.go
+++ b/expreduce/builtin_combinatorics.go
@@ -111,7 +111,7 @@ func getCombinatoricsDefinitions() (defs []Definition) {
 			}
 
 			n, nIsInt := this.GetParts()[1].(*atoms.Integer)
-			if !nIsInt {
+			if !nIsInt || !n.Val.IsInt64() {
 				return this
 			}
 			nnumMachine := int(n.Val.Int64())
@@ -119,7 +119,7 @@ func getCombinatoricsDefinitions() (defs []Definition) {
 			knumMachine := nnumMachine
 			if len(this.GetParts()) == 3 {
 				k, knumIsInt := this.GetParts()[2].(*atoms.Integer)
-				if !knumIsInt {
+				if !knumIsInt || !k.Val.IsInt64() {
 					return this
 				}
 				knumMachine = int(k.Val.Int64())
diff --git a/expreduce/builtin_expression.go b/expreduce/builtin_expression.go
index 7642fbe..faae46d 100644
--- a/expreduce/builtin_expression.go
+++ b/expreduce/builtin_expression.go
@@ -175,7 +175,7 @@ func getExpressionDefinitions() (defs []Definition) {
 			level := int64(999999999999)
 			if len(this.GetParts()) > 2 {
 				asInt, isInt := this.GetParts()[2].(*atoms.Integer)
-				if !isInt {
+				if !isInt || !asInt.Val.IsInt64() {
 					return this
 				}
 				level = int64(asInt.Val.Int64())
diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index 975d537..2605015 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -12,7 +12,7 @@ import (
 
 func parseInteger(part expreduceapi.Ex) (value int64, isInteger bool) {
 	integer, isInteger := part.(*atoms.Integer)
-	if isInteger {
+	if isInteger && integer.Val.IsInt64() {
 		return integer.Val.Int64(), true
 	}
 	return 0, false
@@ -613,7 +613,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 			f := this.GetParts()[1]
 			expr := this.GetParts()[2]
 			nInt, isInteger := this.GetParts()[3].(*atoms.Integer)
-			if !isInteger {
+			if !isInteger || !nInt.Val.IsInt64() {
 				return this
 			}
 			n := nInt.Val.Int64()
@@ -654,7 +654,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 			if len(this.GetParts()) > 4 {
 				mInt, isInteger := this.GetParts()[4].(*atoms.Integer)
 				mSymbol, isSymbol := this.GetParts()[4].(*atoms.Symbol)
-				if isInteger {
+				if isInteger && mInt.Val.IsInt64() {
 					m = mInt.Val.Int64()
 					if m < 0 {
 						return this
@@ -674,7 +674,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 			if len(this.GetParts()) > 5 {
 				maxInt, isInteger := this.GetParts()[5].(*atoms.Integer)
 				maxSymbol, isSymbol := this.GetParts()[5].(*atoms.Symbol)
-				if isInteger {
+				if isInteger && maxInt.Val.IsInt64() {
 					max = maxInt.Val.Int64()
 					if maxInt.Val.Int64() < 0 {
 						return this
@@ -693,7 +693,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 			n := int64(0)
 			if len(this.GetParts()) > 6 {
 				bonusIterationsInt, isInteger := this.GetParts()[6].(*atoms.Integer)
-				if isInteger && bonusIterationsInt.Val.Int64() >= int64(0) {
+				if isInteger && bonusIterationsInt.Val.IsInt64() && bonusIterationsInt.Val.Int64() >= int64(0) {
 					n = bonusIterationsInt.Val.Int64()
 				}
 			}
@@ -781,6 +781,9 @@ func getFunctionalDefinitions() (defs []Definition) {
 
 			nInt, nOk := this.GetParts()[2].(*atoms.Integer)
 			if nOk {
+				if !nInt.Val.IsInt64() {
+					return this
+				}
 				n := nInt.Val.Int64()
 				toReturn := atoms.NewExpression(
 					[]expreduceapi.Ex{atoms.NewSymbol("System`List")},
diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index 4780baa..4106b0b 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -96,7 +96,7 @@ func validatePadParams(
 	}
 
 	nInt, nIsInt := this.GetParts()[2].(*atoms.Integer)
-	if !nIsInt {
+	if !nIsInt || !nInt.Val.IsInt64() {
 		return
 	}
 	n = nInt.Val.Int64()
@@ -112,7 +112,7 @@ func validatePadParams(
 
 func validateIndex(i expreduceapi.Ex, l int) (int64, bool) {
 	iInt, iIsInt := i.(*atoms.Integer)
-	if !iIsInt {
+	if !iIsInt || !iInt.Val.IsInt64() {
 		return 0, false
 	}
 	if iInt.Val.Int64() >= int64(l) {
@@ -701,7 +701,7 @@ func getListDefinitions() (defs []Definition) {
 		legacyEvalFn: func(this expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface) expreduceapi.Ex {
 			maxN := maxInt64
 			if len(this.GetParts()) == 4 {
-				if asInt, isInt := this.GetParts()[3].(*atoms.Integer); isInt {
+				if asInt, isInt := this.GetParts()[3].(*atoms.Integer); isInt && asInt.Val.IsInt64() {
 					maxN = asInt.Val.Int64()
 					if maxN < 0 {
 						return this
diff --git a/expreduce/builtin_numbertheory.go b/expreduce/builtin_numbertheory.go
index 1db4519..fc5320b 100644
--- a/expreduce/builtin_numbertheory.go
+++ b/expreduce/builtin_numbertheory.go
@@ -129,6 +129,9 @@ func getNumberTheoryDefinitions() (defs []Definition) {
 			n := int64(0)
 			asInt, isInt := this.GetParts()[1].(*atoms.Integer)
 			if isInt {
+				if !asInt.Val.IsInt64() {
+					return this
+				}
 				n = asInt.Val.Int64()
 			}
 			asFlt, isFlt := this.GetParts()[1].(*atoms.Flt)
@@ -174,7 +177,7 @@ func getNumberTheoryDefinitions() (defs []Definition) {
 				return this
 			}
 			asInt, isInt := this.GetParts()[1].(*atoms.Integer)
-			if !isInt {
+			if !isInt || !asInt.Val.IsInt64() {
 				return this
 			}
 			n := asInt.Val.Int64()
diff --git a/expreduce/builtin_random.go b/expreduce/builtin_random.go
index 3662866..7736385 100644
--- a/expreduce/builtin_random.go
+++ b/expreduce/builtin_random.go
@@ -33,7 +33,7 @@ func getRandomDefinitions() (defs []Definition) {
 			}
 
 			asInt, isInt := this.GetParts()[1].(*atoms.Integer)
-			if isInt {
+			if isInt && asInt.Val.IsInt64() {
 				//nolint:staticcheck
 				rand.Seed(asInt.Val.Int64())
 				return atoms.NewSymbol("System`Null")
diff --git a/expreduce/builtin_string.go b/expreduce/builtin_string.go
index 6b69641..d343aba 100644
--- a/expreduce/builtin_string.go
+++ b/expreduce/builtin_string.go
@@ -96,7 +96,7 @@ func getStringDefinitions() (defs []Definition) {
 			}
 			sInt, sIsInt := asList.GetParts()[1].(*atoms.Integer)
 			eInt, eIsInt := asList.GetParts()[2].(*atoms.Integer)
-			if !sIsInt || !eIsInt {
+			if !sIsInt || !eIsInt || !sInt.Val.IsInt64() || !eInt.Val.IsInt64() {
 				return this
 			}
 			s := int(sInt.Val.Int64() - 1)
diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index aa3459d..7528fb9 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -158,7 +158,7 @@ func snagUnique(
 		return "", false
 	}
 	mnInteger, mnIsInt := mnExpr.(*atoms.Integer)
-	if !mnIsInt {
+	if !mnIsInt || !mnInteger.Val.IsInt64() {
 		return "", false
 	}
 	mn := mnInteger.Val.Int64()
@@ -289,7 +289,7 @@ func parseOutputStream(outputStreamDef expreduceapi.Ex) (string, int64, bool) {
 		return "", -1, false
 	}
 	streamIndex, ok := outputStream.GetPart(2).(*atoms.Integer)
-	if !ok {
+	if !ok || !streamIndex.Val.IsInt64() {
 		return "", -1, false
 	}
 	return streamName.GetValue(), streamIndex.Val.Int64(), true
diff --git a/expreduce/builtin_time.go b/expreduce/builtin_time.go
index 5c81a69..a3ebb51 100644
--- a/expreduce/builtin_time.go
+++ b/expreduce/builtin_time.go
@@ -32,6 +32,9 @@ func getTimeDefinitions() (defs []Definition) {
 			}
 			var duration time.Duration
 			if nIsInt {
+				if !nInt.Val.IsInt64() {
+					return this
+				}
 				duration = time.Duration(nInt.Val.Int64() * 1000000000)
 			}
 			if nIsFlt {
diff --git a/expreduce/matcher/parse_form.go b/expreduce/matcher/parse_form.go
index 9206d6d..3f06678 100644
--- a/expreduce/matcher/parse_form.go
+++ b/expreduce/matcher/parse_form.go
@@ -34,7 +34,7 @@ func parseRepeated(
 			return nil, min, max, false
 		}
 		i, isInt := list.GetParts()[1].(*atoms.Integer)
-		if !isInt {
+		if !isInt || !i.Val.IsInt64() {
 			return nil, min, max, false
 		}
 		ival := i.Val.Int64()
-- 
2.43.0


From ca01dbf2f6e8e8790fb7c09494785095c7b4455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:52 +0000
Subject: [PATCH 43/74] fix: WriteString must report a stream it cannot write

---
 expreduce/builtin_system.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 7528fb9..d2097f7 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -1072,8 +1072,11 @@ func getSystemDefinitions() (defs []Definition) {
 				)
 				return this
 			}
-			es.GetStreamManager().
-				WriteString(streamName, streamIndex, str.GetValue())
+			if !es.GetStreamManager().
+				WriteString(streamName, streamIndex, str.GetValue()) {
+				fmt.Println("Failed to write to the stream.")
+				return this
+			}
 			return atoms.NewSymbol("System`Null")
 		},
 	})
-- 
2.43.0


From 16015a00e32f22693f9068e1461cc30ce4dbe5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:46 +0000
Subject: [PATCH 44/74] fix: equality must not be decided between a literal and
 a symbol, nor depend on the order of sides

---
 expreduce/atoms/ex_complex.go  |  6 +++++-
 expreduce/atoms/ex_integer.go  |  4 ++++
 expreduce/atoms/ex_rational.go |  9 ++++++++-
 expreduce/atoms/ex_real.go     |  4 ++++
 expreduce/atoms/ex_string.go   |  2 +-
 expreduce/atoms/sameq.go       | 11 +++++++++++
 6 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/expreduce/atoms/ex_complex.go b/expreduce/atoms/ex_complex.go
index bb42405..f2dd469 100644
--- a/expreduce/atoms/ex_complex.go
+++ b/expreduce/atoms/ex_complex.go
@@ -41,7 +41,11 @@ func (cmplx *Complex) StringForm(p expreduceapi.ToStringParams) string {
 func (cmplx *Complex) IsEqual(other expreduceapi.Ex) string {
 	otherConv, otherIsComplex := other.(*Complex)
 	if !otherIsComplex {
-		return "EQUAL_FALSE"
+		if NumberQ(other) && cmplx.Re.IsEqual(other) == "EQUAL_TRUE" &&
+			cmplx.Im.IsEqual(NewInt(0)) == "EQUAL_TRUE" {
+			return "EQUAL_TRUE"
+		}
+		return differentKinds(other)
 	}
 	if (cmplx.Re.IsEqual(otherConv.Re) != "EQUAL_TRUE") ||
 		(cmplx.Im.IsEqual(otherConv.Im) != "EQUAL_TRUE") {
diff --git a/expreduce/atoms/ex_integer.go b/expreduce/atoms/ex_integer.go
index dbf0196..015de24 100644
--- a/expreduce/atoms/ex_integer.go
+++ b/expreduce/atoms/ex_integer.go
@@ -37,6 +37,10 @@ func (thisInt *Integer) IsEqual(other expreduceapi.Ex) string {
 				return "EQUAL_TRUE"
 			}
 		}
+		switch other.(type) {
+		case *Rational, *Complex:
+			return other.IsEqual(thisInt)
+		}
 		return "EQUAL_UNK"
 	}
 	if thisInt.Val.Cmp(otherConv.Val) != 0 {
diff --git a/expreduce/atoms/ex_rational.go b/expreduce/atoms/ex_rational.go
index eff9392..308ea4c 100644
--- a/expreduce/atoms/ex_rational.go
+++ b/expreduce/atoms/ex_rational.go
@@ -36,9 +36,16 @@ func (thisRational *Rational) StringForm(
 }
 
 func (thisRational *Rational) IsEqual(other expreduceapi.Ex) string {
+	if otherFlt, otherIsFlt := other.(*Flt); otherIsFlt {
+		thisFlt, _ := RationalToFlt(thisRational)
+		return thisFlt.IsEqual(otherFlt)
+	}
+	if _, otherIsComplex := other.(*Complex); otherIsComplex {
+		return other.IsEqual(thisRational)
+	}
 	otherConv, otherIsRational := other.(*Rational)
 	if !otherIsRational {
-		return "EQUAL_FALSE"
+		return differentKinds(other)
 	}
 	// Assume rational already simplified
 	if (thisRational.Num.Cmp(otherConv.Num) != 0) ||
diff --git a/expreduce/atoms/ex_real.go b/expreduce/atoms/ex_real.go
index f502e4e..bfd171d 100644
--- a/expreduce/atoms/ex_real.go
+++ b/expreduce/atoms/ex_real.go
@@ -53,6 +53,10 @@ func (flt *Flt) IsEqual(other expreduceapi.Ex) string {
 				return "EQUAL_TRUE"
 			}
 		}
+		switch other.(type) {
+		case *Rational, *Complex:
+			return other.IsEqual(flt)
+		}
 		return "EQUAL_UNK"
 	}
 	fltStr := fmt.Sprintf("%.14g", flt.Val)
diff --git a/expreduce/atoms/ex_string.go b/expreduce/atoms/ex_string.go
index f7743d3..fa34b0f 100644
--- a/expreduce/atoms/ex_string.go
+++ b/expreduce/atoms/ex_string.go
@@ -27,7 +27,7 @@ func (str *String) String() string {
 func (str *String) IsEqual(other expreduceapi.Ex) string {
 	otherConv, ok := other.(*String)
 	if !ok {
-		return "EQUAL_FALSE"
+		return differentKinds(other)
 	}
 	if str.Val != otherConv.Val {
 		return "EQUAL_FALSE"
diff --git a/expreduce/atoms/sameq.go b/expreduce/atoms/sameq.go
index 888b0cc..b55a9fc 100644
--- a/expreduce/atoms/sameq.go
+++ b/expreduce/atoms/sameq.go
@@ -26,6 +26,17 @@ func IsSameQ(a expreduceapi.Ex, b expreduceapi.Ex) bool {
 	return a.Hash() == b.Hash()
 }
 
+// differentKinds tells what is known about the equality of a literal value and
+// an expression that is not a literal of the same kind.
+func differentKinds(other expreduceapi.Ex) string {
+	switch other.(type) {
+	case *Symbol, *Expression:
+		// Could stand for any value.
+		return "EQUAL_UNK"
+	}
+	return "EQUAL_FALSE"
+}
+
 func almostEqual(a, b float64) bool {
 	ai, bi := int64(math.Float64bits(a)), int64(math.Float64bits(b))
 	return a == b || -1 <= ai-bi && ai-bi <= 1
-- 
2.43.0


From 4355e44513c7e0b033527b09af3eda0f62277316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 45/74] fix: exact numbers must be compared exactly, and
 complex numbers not at all

---
 expreduce/builtin_comparison.go | 42 ++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/expreduce/builtin_comparison.go b/expreduce/builtin_comparison.go
index 0da7955..1a1ec2c 100644
--- a/expreduce/builtin_comparison.go
+++ b/expreduce/builtin_comparison.go
@@ -26,6 +26,12 @@ func extremaFunction(
 	)
 	dst := atoms.E(atoms.S("List"))
 	flattenExpr(list, dst, 999999999, es.GetLogger())
+	for _, part := range dst.GetParts()[1:] {
+		// Complex numbers have no order.
+		if _, isComplex := part.(*atoms.Complex); isComplex {
+			return this
+		}
+	}
 	// Previously I always set the pointer but it led to an endless
 	// eval loop. I think evaluation might use the pointer to make a
 	// "same" comparison.
@@ -103,24 +109,32 @@ func int64InSlice(target int64, list []int64) bool {
 }
 
 func comparisonFn(expr expreduceapi.ExpressionInterface, es expreduceapi.EvalStateInterface, expectedOrders []int64) expreduceapi.Ex {
-	var lastN expreduceapi.Ex = nil
+	toReal := func(e expreduceapi.Ex) expreduceapi.Ex {
+		return es.Eval(atoms.E(atoms.S("N"), e))
+	}
+	var last expreduceapi.Ex = nil
 	for i := 1; i < len(expr.GetParts()); i++ {
-		currN := es.Eval(
-			atoms.NewExpression(
-				[]expreduceapi.Ex{
-					atoms.NewSymbol("System`N"),
-					expr.GetParts()[i],
-				},
-			),
-		)
-		if !atoms.NumberQ(currN) {
+		curr := expr.GetParts()[i]
+		if !atoms.NumberQ(curr) {
+			curr = toReal(curr)
+		}
+		_, isComplex := curr.(*atoms.Complex)
+		if isComplex || !atoms.NumberQ(curr) {
 			return expr
 		}
-		if lastN != nil && !int64InSlice(atoms.ExOrder(lastN, currN), expectedOrders) {
-			return atoms.NewSymbol("System`False")
+		if last != nil {
+			// Exact numbers are compared exactly, and others as reals.
+			a, b := last, curr
+			_, aIsFlt := a.(*atoms.Flt)
+			_, bIsFlt := b.(*atoms.Flt)
+			if aIsFlt != bIsFlt {
+				a, b = toReal(a), toReal(b)
+			}
+			if !int64InSlice(atoms.ExOrder(a, b), expectedOrders) {
+				return atoms.NewSymbol("System`False")
+			}
 		}
-
-		lastN = currN
+		last = curr
 	}
 	return atoms.NewSymbol("System`True")
 }
-- 
2.43.0


From 5db0326aebf3b22e967a85eaa307f0d32a9af5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 46/74] fix: Max of operands none of which is a number must
 stay as it is

---
 expreduce/builtin_comparison.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expreduce/builtin_comparison.go b/expreduce/builtin_comparison.go
index 1a1ec2c..0e78233 100644
--- a/expreduce/builtin_comparison.go
+++ b/expreduce/builtin_comparison.go
@@ -61,6 +61,9 @@ func extremaFunction(
 			break
 		}
 	}
+	if i == 1 {
+		return this
+	}
 	if fnType == maxFn {
 		i--
 		return atoms.NewExpression(
@@ -69,9 +72,6 @@ func extremaFunction(
 				this.GetParts()[i:]...),
 		)
 	}
-	if i == 1 {
-		return this
-	}
 	return atoms.NewExpression(
 		append(
 			[]expreduceapi.Ex{this.GetParts()[0], this.GetParts()[1]},
-- 
2.43.0


From cfafebec19528453ff9373fdc5a0776ca2937da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:21 +0000
Subject: [PATCH 47/74] fix: a sequence variable bound to one element must
 agree with that element

x__, x___ and x:patt bound a single element as Sequence[e], which was not
identical to what x_ binds, so MatchQ[{1, 1}, {x:1|2, x_}] was False.
---
 expreduce/matcher/pdmanager.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expreduce/matcher/pdmanager.go b/expreduce/matcher/pdmanager.go
index a5086e3..5a8f7db 100644
--- a/expreduce/matcher/pdmanager.go
+++ b/expreduce/matcher/pdmanager.go
@@ -129,7 +129,9 @@ func defineSequence(
 	if lhs.hasPat {
 		sequenceHeadSym := atoms.NewSymbol(sequenceHead)
 		oneIdent := sequenceHeadSym.Attrs(es.GetDefinedMap()).OneIdentity
-		if len(sequence) == 1 && (lhs.isBlank || oneIdent || lhs.isOptional) {
+		if len(sequence) == 1 && (!lhs.isImpliedBs || oneIdent || lhs.isOptional) {
+			// A sequence of one element is that element, so that x__ and
+			// x:patt can stand for the same thing as x_.
 			attemptDefine = sequence[0]
 		} else if len(sequence) == 0 && lhs.isOptional && lhs.defaultExpr != nil {
 			attemptDefine = lhs.defaultExpr
-- 
2.43.0


From 525b4c4805e20c3d40e4c39beb1bb1e5f862777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:30 +0000
Subject: [PATCH 48/74] fix: the precedence of an operator is that of its own
 token

---
 expreduce/parser/parens/parens.go | 36 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/expreduce/parser/parens/parens.go b/expreduce/parser/parens/parens.go
index 61f2d58..1cd7344 100644
--- a/expreduce/parser/parens/parens.go
+++ b/expreduce/parser/parens/parens.go
@@ -2,38 +2,38 @@ package parens
 
 import "modernc.org/wl"
 
+// Operators that are not listed, such as Unequal, always get parentheses.
 var headsToTokens = map[string]int{
 	"System`Alternatives":       124,
-	"System`And":                57347,
-	"System`Apply":              57348,
+	"System`And":                wl.AND,
+	"System`Apply":              wl.APPLY,
 	"System`CompoundExpression": 59,
-	"System`Condition":          57359,
+	"System`Condition":          wl.CONDITION,
 	"System`Dot":                46,
-	"System`Equal":              57380,
+	"System`Equal":              wl.EQUAL,
 	"System`Factorial":          33,
 	"System`Function":           38,
 	"System`Greater":            62,
-	"System`GreaterEqual":       57388,
+	"System`GreaterEqual":       wl.GEQ,
 	"System`Less":               60,
-	"System`LessEqual":          57399,
-	"System`Map":                57401,
+	"System`LessEqual":          wl.LEQ,
+	"System`Map":                wl.MAP,
 	"System`Not":                33,
-	"System`Or":                 57412,
+	"System`Or":                 wl.OR,
 	"System`PatternTest":        63,
 	"System`Plus":               43,
 	"System`Power":              94,
-	"System`ReplaceAll":         57428,
-	"System`ReplaceRepeated":    57429,
-	"System`Rule":               57433,
-	"System`RuleDelayed":        57434,
-	"System`SameQ":              57435,
+	"System`ReplaceAll":         wl.REPLACEALL,
+	"System`ReplaceRepeated":    wl.REPLACEREP,
+	"System`Rule":               wl.RULE,
+	"System`RuleDelayed":        wl.RULEDELAYED,
+	"System`SameQ":              wl.SAME,
 	"System`Set":                61,
-	"System`SetDelayed":         57436,
-	"System`Span":               57439,
-	"System`StringJoin":         57445,
+	"System`SetDelayed":         wl.SET_DELAYED,
+	"System`Span":               wl.SPAN,
+	"System`StringJoin":         wl.STRINGJOIN,
 	"System`Times":              42,
-	"System`Unequal":            57462,
-	"System`UnsameQ":            57464,
+	"System`UnsameQ":            wl.UNSAME,
 }
 
 func NeedsParens(thisHead string, PreviousHead string) bool {
-- 
2.43.0


From 339a9260455d91d472a21f162c9a81065eeeadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 49/74] fix: an operator expression used as a head is printed
 in parentheses

---
 expreduce/atoms/ex_expression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expreduce/atoms/ex_expression.go b/expreduce/atoms/ex_expression.go
index 569859b..8875594 100644
--- a/expreduce/atoms/ex_expression.go
+++ b/expreduce/atoms/ex_expression.go
@@ -124,7 +124,12 @@ func (thisExpr *Expression) StringForm(
 
 	// Default printing format
 	var buffer bytes.Buffer
-	buffer.WriteString(thisExpr.GetParts()[0].StringForm(params))
+	headParams := params
+	if !isHeadSym {
+		// The brackets bind tighter than any operator.
+		headParams.PreviousHead = ""
+	}
+	buffer.WriteString(thisExpr.GetParts()[0].StringForm(headParams))
 	buffer.WriteString("[")
 	params.PreviousHead = "<TOPLEVEL>"
 	for i, e := range thisExpr.GetParts() {
-- 
2.43.0


From e7d38ac12344197a2edfb206cc9caae89c1535a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 50/74] fix: a negative integer is printed in parentheses under
 an operator that binds tighter

---
 expreduce/atoms/ex_integer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expreduce/atoms/ex_integer.go b/expreduce/atoms/ex_integer.go
index 015de24..0222eb8 100644
--- a/expreduce/atoms/ex_integer.go
+++ b/expreduce/atoms/ex_integer.go
@@ -5,6 +5,7 @@ import (
 	"hash/fnv"
 	"math/big"
 
+	"github.com/corywalker/expreduce/expreduce/parser/parens"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
@@ -19,6 +20,10 @@ type Integer struct {
 }*/
 
 func (thisInt *Integer) StringForm(params expreduceapi.ToStringParams) string {
+	if thisInt.Val.Sign() < 0 && params.PreviousHead != "System`Times" &&
+		parens.NeedsParens("System`Times", params.PreviousHead) {
+		return fmt.Sprintf("(%d)", thisInt.Val)
+	}
 	return fmt.Sprintf("%d", thisInt.Val)
 }
 
-- 
2.43.0


From 2d0c827368f5f6fde76fb978383335f91ef05c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:50 +0000
Subject: [PATCH 51/74] fix: Power of three arguments is not printed with the
 operator

---
 expreduce/builtin_power.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expreduce/builtin_power.go b/expreduce/builtin_power.go
index 763f5bd..bf17f12 100644
--- a/expreduce/builtin_power.go
+++ b/expreduce/builtin_power.go
@@ -182,6 +182,9 @@ func getPowerDefinitions() (defs []Definition) {
 					}
 				}
 			}
+			if this.Len() != 2 {
+				return false, ""
+			}
 			return toStringInfixAdvanced(
 				this.GetParts()[1:],
 				"^",
-- 
2.43.0


From 55bc6b10939a5a06bf3a40514106e23f4276759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 52/74] fix: a string with quotes or backslashes is printed
 with escapes

---
 expreduce/atoms/ex_string.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expreduce/atoms/ex_string.go b/expreduce/atoms/ex_string.go
index fa34b0f..e08cb0b 100644
--- a/expreduce/atoms/ex_string.go
+++ b/expreduce/atoms/ex_string.go
@@ -3,6 +3,7 @@ package atoms
 import (
 	"fmt"
 	"hash/fnv"
+	"strings"
 
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
@@ -17,7 +18,9 @@ func (str *String) StringForm(params expreduceapi.ToStringParams) string {
 		params.Form == "StandardForm" {
 		return fmt.Sprintf("%v", str.Val)
 	}
-	return fmt.Sprintf("\"%v\"", str.Val)
+	escaped := strings.ReplaceAll(str.Val, "\\", "\\\\")
+	escaped = strings.ReplaceAll(escaped, "\"", "\\\"")
+	return fmt.Sprintf("\"%v\"", escaped)
 }
 
 func (str *String) String() string {
-- 
2.43.0


From f8e8de10d7bfb64c0d79cf5f5182e47d64e85dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 53/74] fix: the parts of a complex number are printed in
 FullForm too

---
 expreduce/atoms/ex_complex.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expreduce/atoms/ex_complex.go b/expreduce/atoms/ex_complex.go
index f2dd469..76d5b75 100644
--- a/expreduce/atoms/ex_complex.go
+++ b/expreduce/atoms/ex_complex.go
@@ -33,7 +33,12 @@ func (cmplx *Complex) AsExpr() expreduceapi.Ex {
 
 func (cmplx *Complex) StringForm(p expreduceapi.ToStringParams) string {
 	if p.Form == "FullForm" {
-		return fmt.Sprintf("Complex[%v, %v]", cmplx.Re, cmplx.Im)
+		p.PreviousHead = "<TOPLEVEL>"
+		return fmt.Sprintf(
+			"Complex[%v, %v]",
+			cmplx.Re.StringForm(p),
+			cmplx.Im.StringForm(p),
+		)
 	}
 	return cmplx.AsExpr().StringForm(p)
 }
-- 
2.43.0


From 6ccc09dd04d401c2393199541709b0f92e5b9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 54/74] fix: a symbol of a nested context is printed with its
 full name

---
 expreduce/atoms/ex_symbol.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/expreduce/atoms/ex_symbol.go b/expreduce/atoms/ex_symbol.go
index 209c713..5ec79b6 100644
--- a/expreduce/atoms/ex_symbol.go
+++ b/expreduce/atoms/ex_symbol.go
@@ -43,17 +43,30 @@ func formatSymName(name string, params expreduceapi.ToStringParams) string {
 	return fmt.Sprintf("%v", name)
 }
 
+// nameIn gives the short name of a symbol of the context. The symbols of nested
+// contexts have none: it would be read as a full name.
+func nameIn(fullName string, context string) (string, bool) {
+	if !strings.HasPrefix(fullName, context) {
+		return "", false
+	}
+	short := fullName[len(context):]
+	return short, len(short) > 0 && !strings.Contains(short, "`")
+}
+
 func (sym *Symbol) StringForm(params expreduceapi.ToStringParams) string {
 	if len(sym.Name) == 0 {
 		return "<EMPTYSYM>"
 	}
-	if strings.HasPrefix(sym.Name, params.Context.GetValue()) {
-		return formatSymName(sym.Name[len(params.Context.GetValue()):], params)
+	if name, ok := nameIn(sym.Name, params.Context.GetValue()); ok {
+		return formatSymName(name, params)
 	}
 	for _, pathPart := range params.ContextPath.GetParts()[1:] {
 		path, isStr := pathPart.(*String)
-		if isStr && strings.HasPrefix(sym.Name, path.Val) {
-			return formatSymName(sym.Name[len(path.Val):], params)
+		if !isStr {
+			continue
+		}
+		if name, ok := nameIn(sym.Name, path.Val); ok {
+			return formatSymName(name, params)
 		}
 	}
 	return formatSymName(sym.Name, params)
-- 
2.43.0


From f8f632151f6cd9cec353c6904bbbab585639d56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 55/74] fix: an operator expression that is taken apart is
 printed in parentheses

---
 expreduce/builtin_list.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index 4106b0b..584ee15 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -50,11 +50,13 @@ func toStringPart(
 	this expreduceapi.ExpressionInterface,
 	params expreduceapi.ToStringParams,
 ) (bool, string) {
-	if params.Form == "FullForm" {
+	if params.Form == "FullForm" || len(this.GetParts()) < 3 {
 		return false, ""
 	}
 	subParams := params
 	subParams.PreviousHead = "<TOPLEVEL>"
+	// The brackets bind tighter than any operator.
+	params.PreviousHead = ""
 	var buffer bytes.Buffer
 	for i, e := range this.GetParts()[1:] {
 		if i == 0 {
-- 
2.43.0


From fd6d211128175ff837fb974a2ad0e33071ad70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 56/74] fix: a pattern with a type can be optional

---
 expreduce/parser/interp.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/expreduce/parser/interp.go b/expreduce/parser/interp.go
index 65bdc68..d16cb96 100644
--- a/expreduce/parser/interp.go
+++ b/expreduce/parser/interp.go
@@ -120,6 +120,12 @@ func addContextAndDefine(
 }
 
 func parsePattern(buf string) expreduceapi.Ex {
+	if strings.HasSuffix(buf, ".") {
+		return atoms.NewExpression([]expreduceapi.Ex{
+			atoms.NewSymbol("System`Optional"),
+			parsePattern(strings.TrimSuffix(buf, ".")),
+		})
+	}
 	delim := "_"
 	blankType := atoms.NewSymbol("System`Blank")
 	if strings.Contains(buf, "___") {
@@ -143,8 +149,6 @@ func parsePattern(buf string) expreduceapi.Ex {
 		if parts[0] == "" {
 			if parts[1] == "" {
 				return atoms.NewExpression([]expreduceapi.Ex{blankType})
-			} else if delim == "_" && parts[1] == "." {
-				return atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`Optional"), atoms.NewExpression([]expreduceapi.Ex{blankType})})
 			}
 			return atoms.NewExpression(
 				[]expreduceapi.Ex{blankType, atoms.NewSymbol(parts[1])},
@@ -158,8 +162,6 @@ func parsePattern(buf string) expreduceapi.Ex {
 					atoms.NewExpression([]expreduceapi.Ex{blankType}),
 				},
 			)
-		} else if delim == "_" && parts[1] == "." {
-			return atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`Optional"), atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`Pattern"), atoms.NewSymbol(parts[0]), atoms.NewExpression([]expreduceapi.Ex{blankType})})})
 		}
 		return atoms.NewExpression(
 			[]expreduceapi.Ex{
-- 
2.43.0


From 811b12e3666449fe02650b3a791c857d1de01f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 57/74] fix: patterns are printed with underscores, a colon or
 a dot only where this can be read back

---
 expreduce/builtin_pattern.go | 52 +++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/expreduce/builtin_pattern.go b/expreduce/builtin_pattern.go
index 47707c5..08e8af6 100644
--- a/expreduce/builtin_pattern.go
+++ b/expreduce/builtin_pattern.go
@@ -2,9 +2,11 @@ package expreduce
 
 import (
 	"bytes"
+	"strings"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
 	"github.com/corywalker/expreduce/expreduce/matcher"
+	"github.com/corywalker/expreduce/expreduce/parser/parens"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
@@ -18,7 +20,7 @@ func toStringBlankType(
 	}
 	if len(parts) == 1 {
 		return true, repr
-	} else if len(parts) == 2 {
+	} else if len(parts) == 2 && hasShortName(parts[1], params) {
 		var buffer bytes.Buffer
 		buffer.WriteString(repr)
 		buffer.WriteString(parts[1].StringForm(params))
@@ -27,6 +29,16 @@ func toStringBlankType(
 	return false, ""
 }
 
+// hasShortName tells if the expression can stand next to the underscores of a
+// blank, which only goes for a symbol that is printed without its context.
+func hasShortName(
+	ex expreduceapi.Ex,
+	params expreduceapi.ToStringParams,
+) bool {
+	_, isSym := ex.(*atoms.Symbol)
+	return isSym && !strings.Contains(ex.StringForm(params), "`")
+}
+
 func getPatternDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name: "MatchQ",
@@ -63,15 +75,33 @@ func getPatternDefinitions() (defs []Definition) {
 				this.GetParts()[2],
 				"System`BlankNullSequence",
 			)
+			if !hasShortName(this.GetParts()[1], params) {
+				return false, ""
+			}
+			blank := ""
 			if blankOk || bsOk || bnsOk {
+				blank = this.GetParts()[2].StringForm(params)
+			}
+			if strings.HasPrefix(blank, "_") {
 				buffer.WriteString(this.GetParts()[1].StringForm(params))
-				buffer.WriteString(this.GetParts()[2].StringForm(params))
+				buffer.WriteString(blank)
 			} else {
+				addParens := parens.NeedsParens(
+					"System`Pattern",
+					params.PreviousHead,
+				)
+				params.PreviousHead = "<TOPLEVEL>"
+				if addParens {
+					buffer.WriteString("(")
+				}
 				buffer.WriteString("(")
 				buffer.WriteString(this.GetParts()[1].StringForm(params))
 				buffer.WriteString(") : (")
 				buffer.WriteString(this.GetParts()[2].StringForm(params))
 				buffer.WriteString(")")
+				if addParens {
+					buffer.WriteString(")")
+				}
 			}
 			return true, buffer.String()
 		},
@@ -154,10 +184,20 @@ func getPatternDefinitions() (defs []Definition) {
 			if params.Form != "InputForm" && params.Form != "OutputForm" {
 				return false, ""
 			}
-			var buffer bytes.Buffer
-			buffer.WriteString(this.GetParts()[1].StringForm(params))
-			buffer.WriteString(".")
-			return true, buffer.String()
+			_, isPattern := atoms.HeadAssertion(
+				this.GetParts()[1],
+				"System`Pattern",
+			)
+			_, isBlank := atoms.HeadAssertion(
+				this.GetParts()[1],
+				"System`Blank",
+			)
+			// Only x_, _h and the like can be followed by the dot.
+			pattern := this.GetParts()[1].StringForm(params)
+			if !isPattern && !isBlank || strings.ContainsAny(pattern, "[(") {
+				return false, ""
+			}
+			return true, pattern + "."
 		},
 	})
 	defs = append(defs, Definition{
-- 
2.43.0


From b15567e30f1ac6a91f5fcc594560f54c15d1e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:13 +0000
Subject: [PATCH 58/74] fix: pure functions bind all their parameters at once,
 also in functions inside their body

---
 expreduce/eval.go | 113 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 80 insertions(+), 33 deletions(-)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index ec6034f..e26d2b6 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -420,43 +420,90 @@ func evalFunction(
 	es expreduceapi.EvalStateInterface,
 	args []expreduceapi.Ex,
 ) expreduceapi.Ex {
-	if len(this.GetParts()) == 2 {
-		toReturn := this.GetParts()[1].DeepCopy()
-		for i, arg := range args {
-			toReturn = replaceAll(toReturn,
-				atoms.NewExpression([]expreduceapi.Ex{
-					atoms.NewSymbol("System`Rule"),
-					atoms.NewExpression([]expreduceapi.Ex{
-						atoms.NewSymbol("System`Slot"),
-						atoms.NewInteger(big.NewInt(int64(i + 1))),
-					}),
-
-					arg,
-				}),
-
-				es, matcher.EmptyPD(), "System`Function")
+	parts := this.GetParts()
+	unchanged := atoms.NewExpression(append([]expreduceapi.Ex{this}, args...))
+	if len(parts) == 2 {
+		return bindArgs(parts[1].DeepCopy(), nil, args)
+	}
+	if len(parts) != 3 {
+		return unchanged
+	}
+	params := functionParams(parts[1])
+	if params == nil || len(params) > len(args) {
+		return unchanged
+	}
+	values := map[string]expreduceapi.Ex{}
+	for i, name := range params {
+		values[name] = args[i]
+	}
+	return bindArgs(parts[2].DeepCopy(), values, nil)
+}
+
+// functionParams returns the names of the parameters in the first argument of
+// a Function, or nil if it is not a symbol or a list of symbols.
+func functionParams(spec expreduceapi.Ex) []string {
+	specs := []expreduceapi.Ex{spec}
+	if list, isList := atoms.HeadAssertion(spec, "System`List"); isList {
+		specs = list.GetParts()[1:]
+	}
+	names := []string{}
+	for _, s := range specs {
+		sym, isSym := s.(*atoms.Symbol)
+		if !isSym {
+			return nil
 		}
-		return toReturn
-	} else if len(this.GetParts()) == 3 {
-		if len(args) == 0 {
-			return atoms.NewExpression([]expreduceapi.Ex{this})
+		names = append(names, sym.Name)
+	}
+	return names
+}
+
+// bindArgs replaces all given symbols and slots in the body of a function at
+// once, except where a function inside the body has its own.
+func bindArgs(
+	body expreduceapi.Ex,
+	values map[string]expreduceapi.Ex,
+	slots []expreduceapi.Ex,
+) expreduceapi.Ex {
+	if sym, isSym := body.(*atoms.Symbol); isSym {
+		if value, bound := values[sym.Name]; bound {
+			return value
 		}
-		repSym, ok := this.GetParts()[1].(*atoms.Symbol)
-		if !ok {
-			return this
+		return body
+	}
+	expr, isExpr := body.(*atoms.Expression)
+	if !isExpr {
+		return body
+	}
+	if slot, isSlot := atoms.HeadAssertion(expr, "System`Slot"); isSlot {
+		if len(slot.GetParts()) == 2 {
+			if n, isInt := slot.GetParts()[1].(*atoms.Integer); isInt {
+				for i, value := range slots {
+					if n.Val.Cmp(big.NewInt(int64(i+1))) == 0 {
+						return value
+					}
+				}
+			}
 		}
-		toReturn := this.GetParts()[2].DeepCopy()
-		toReturn = replaceAll(toReturn,
-			atoms.NewExpression([]expreduceapi.Ex{
-				atoms.NewSymbol("System`Rule"),
-				repSym,
-				args[0],
-			}),
-
-			es, matcher.EmptyPD(), "System`Function")
-		return toReturn
 	}
-	return this
+	if fn, isFn := atoms.HeadAssertion(expr, "System`Function"); isFn {
+		if len(fn.GetParts()) == 2 {
+			slots = nil
+		} else if len(fn.GetParts()) > 2 && len(values) > 0 {
+			inner := map[string]expreduceapi.Ex{}
+			for name, value := range values {
+				inner[name] = value
+			}
+			for _, name := range functionParams(fn.GetParts()[1]) {
+				delete(inner, name)
+			}
+			values = inner
+		}
+	}
+	res := atoms.NewEmptyExpression()
+	for _, part := range expr.GetParts() {
+		res.AppendEx(bindArgs(part, values, slots))
+	}
+	return res
 }
 
 func exprReplaceAll(
-- 
2.43.0


From 6f5e2f13f779ed42380a470d208facfe6a33db9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 59/74] fix: a throw inside Evaluate ends the evaluation of the
 held expression around it

---
 expreduce/eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expreduce/eval.go b/expreduce/eval.go
index e26d2b6..d0416af 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -204,6 +204,9 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 		}
 		if !attrs.HoldAllComplete {
 			curr = mergeSequences(curr, es, "System`Evaluate", true)
+			if es.HasThrown() {
+				return es.Thrown()
+			}
 		}
 		curr = mergeSequences(curr, es, "System`Unevaluated", false)
 		// In case curr changed
@@ -404,6 +407,9 @@ func mergeSequences(
 			for _, seqPart := range seq.GetParts()[1:] {
 				if shouldEval {
 					res.AppendEx(es.Eval(seqPart))
+					if es.HasThrown() {
+						return this
+					}
 				} else {
 					res.AppendEx(seqPart)
 				}
-- 
2.43.0


From a306c17570885526fa5ebf023462f5a7c9575339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 60/74] fix: Break ends the loop around it, and While, Table,
 Sum and Product stop when something is thrown

---
 expreduce/builtin_flowcontrol.go | 9 +++++++++
 expreduce/builtin_list.go        | 4 ++++
 expreduce/iterspec/iterspec.go   | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index d17b166..a4effb6 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -97,6 +97,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 			)
 			for isTrue {
 				tmpRes := es.Eval(this.GetParts()[2].DeepCopy())
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				retVal, isReturn := tryReturnValue(tmpRes, nil, es)
 				if isReturn {
 					return retVal
@@ -125,6 +128,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 				if _, isReturn := atoms.HeadAssertion(toReturn, "System`Return"); isReturn {
 					return toReturn
 				}
+				if isBreak(toReturn) {
+					return toReturn
+				}
 			}
 			return toReturn
 		},
@@ -198,6 +204,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 							}
 							return asReturn.GetParts()[1]
 						}
+						if isBreak(res) {
+							return atoms.NewSymbol("System`Null")
+						}
 						mis.Next()
 					}
 					return atoms.NewSymbol("System`Null")
diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index 584ee15..9469694 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -279,6 +279,10 @@ func getListDefinitions() (defs []Definition) {
 					for mis.Cont() {
 						mis.DefineCurrent(es)
 						toReturn.AppendEx(es.Eval(this.GetPart(1).DeepCopy()))
+						if es.HasThrown() {
+							mis.RestoreVarSnapshot(es)
+							return es.Thrown()
+						}
 						mis.Next()
 					}
 					mis.RestoreVarSnapshot(es)
diff --git a/expreduce/iterspec/iterspec.go b/expreduce/iterspec/iterspec.go
index 381203c..7bfc91a 100644
--- a/expreduce/iterspec/iterspec.go
+++ b/expreduce/iterspec/iterspec.go
@@ -261,6 +261,10 @@ func EvalIterationFunc(
 				toReturn = es.Eval(
 					(atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol(op), toReturn, es.Eval(expr.GetParts()[1].DeepCopy())})),
 				)
+				if es.HasThrown() {
+					mis.RestoreVarSnapshot(es)
+					return es.Thrown()
+				}
 				mis.Next()
 			}
 			mis.RestoreVarSnapshot(es)
-- 
2.43.0


From 8454bf3a12f2f735f9d784628de36cb4bc90e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:37 +0000
Subject: [PATCH 61/74] fix: ReplaceAll and With apply all rules at once,
 honour conditions, and look inside Flat expressions

---
 expreduce/builtin_flowcontrol.go |   2 +-
 expreduce/builtin_replacement.go |  16 +----
 expreduce/eval.go                |  62 ------------------
 expreduce/replace.go             | 106 +++++++++++++++++++------------
 4 files changed, 66 insertions(+), 120 deletions(-)

diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index a4effb6..6d5eff8 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -46,7 +46,7 @@ func applyWithFn(
 			setEx.GetParts()[2],
 		}))
 	}
-	return rulesReplaceAll(e.GetParts()[2], rules, es), true
+	return replaceAll(e.GetParts()[2], rules, es), true
 }
 
 func isBreak(e expreduceapi.Ex) bool {
diff --git a/expreduce/builtin_replacement.go b/expreduce/builtin_replacement.go
index 760f1d8..1a178f8 100644
--- a/expreduce/builtin_replacement.go
+++ b/expreduce/builtin_replacement.go
@@ -2,7 +2,6 @@ package expreduce
 
 import (
 	"github.com/corywalker/expreduce/expreduce/atoms"
-	"github.com/corywalker/expreduce/expreduce/matcher"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
 
@@ -42,19 +41,6 @@ func getValidRules(
 	return
 }
 
-func rulesReplaceAll(
-	e expreduceapi.Ex,
-	rules []expreduceapi.ExpressionInterface,
-	es expreduceapi.EvalStateInterface,
-) expreduceapi.Ex {
-	// TODO: fix the case where ReplaceAll[{x},{x->y,y->z}] returns incorrectly.
-	toReturn := e
-	for _, rule := range rules {
-		toReturn = replaceAll(toReturn, rule, es, matcher.EmptyPD(), "")
-	}
-	return toReturn
-}
-
 func rulesReplace(
 	e expreduceapi.Ex,
 	rules []expreduceapi.ExpressionInterface,
@@ -130,7 +116,7 @@ func getReplacementDefinitions() (defs []Definition) {
 			}
 
 			rules := getValidRules(this.GetParts()[2])
-			return rulesReplaceAll(this.GetParts()[1], rules, es)
+			return replaceAll(this.GetParts()[1], rules, es)
 		},
 	})
 	defs = append(defs, Definition{
diff --git a/expreduce/eval.go b/expreduce/eval.go
index d0416af..cb255d7 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -8,7 +8,6 @@ import (
 	"time"
 
 	"github.com/corywalker/expreduce/expreduce/atoms"
-	"github.com/corywalker/expreduce/expreduce/matcher"
 	"github.com/corywalker/expreduce/expreduce/timecounter"
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 )
@@ -511,64 +510,3 @@ func bindArgs(
 	}
 	return res
 }
-
-func exprReplaceAll(
-	this expreduceapi.ExpressionInterface,
-	r expreduceapi.ExpressionInterface,
-	stopAtHead string,
-	es expreduceapi.EvalStateInterface,
-) expreduceapi.Ex {
-	es.Debugf(
-		"In Expression.ReplaceAll. First trying IsMatchQ(this, r.Parts[1], es).",
-	)
-	es.Debugf("Rule r is: %s", r)
-
-	matchq, matches := matcher.IsMatchQ(
-		this,
-		r.GetParts()[1],
-		matcher.EmptyPD(),
-		es,
-	)
-	if matchq {
-		es.Debugf("After MatchQ, rule is: %s", r)
-		es.Debugf("MatchQ succeeded. Returning r.Parts[2]: %s", r.GetParts()[2])
-		return matcher.ReplacePD(r.GetParts()[2].DeepCopy(), es, matches)
-	}
-
-	thisSym, thisSymOk := this.GetParts()[0].(*atoms.Symbol)
-	lhsExpr, lhsExprOk := r.GetParts()[1].(*atoms.Expression)
-	if lhsExprOk {
-		otherSym, otherSymOk := lhsExpr.GetParts()[0].(*atoms.Symbol)
-		if thisSymOk && otherSymOk {
-			if thisSym.Name == otherSym.Name {
-				attrs := thisSym.Attrs(es.GetDefinedMap())
-				if attrs.Flat {
-					return flatReplace(
-						this,
-						lhsExpr,
-						r.GetParts()[2],
-						attrs.Orderless,
-						es,
-					)
-				}
-			}
-		}
-	}
-
-	maybeChanged := atoms.NewEmptyExpression()
-	for i := range this.GetParts() {
-		maybeChanged.AppendEx(
-			replaceAll(
-				this.GetParts()[i],
-				r,
-				es,
-				matcher.EmptyPD(),
-				stopAtHead,
-			),
-		)
-	}
-	if hashEx(maybeChanged) != hashEx(this) {
-		return maybeChanged
-	}
-	return this
-}
diff --git a/expreduce/replace.go b/expreduce/replace.go
index 46880d2..7397c97 100644
--- a/expreduce/replace.go
+++ b/expreduce/replace.go
@@ -13,7 +13,7 @@ func flatReplace(
 	rhs expreduceapi.Ex,
 	orderless bool,
 	es expreduceapi.EvalStateInterface,
-) expreduceapi.Ex {
+) (expreduceapi.Ex, bool) {
 	looseLHS := atoms.NewExpression([]expreduceapi.Ex{})
 	looseLHS.AppendEx(lhs.GetParts()[0])
 	if !orderless {
@@ -33,61 +33,83 @@ func flatReplace(
 			[]expreduceapi.Ex{atoms.NewSymbol("System`BlankNullSequence")},
 		),
 	}))
-	pm := matcher.EmptyPD()
-	matchq, newPd := matcher.IsMatchQ(e, looseLHS, pm, es)
-	if matchq {
-		var tmpEx expreduceapi.Ex
-		if orderless {
-			tmpEx = matcher.ReplacePD(atoms.NewExpression([]expreduceapi.Ex{
-				e.GetParts()[0],
-				rhs,
-				atoms.NewSymbol("System`Expreduce`end"),
-			}),
-
-				es, newPd)
-		} else {
-			tmpEx = matcher.ReplacePD(atoms.NewExpression([]expreduceapi.Ex{
-				e.GetParts()[0],
-				atoms.NewSymbol("System`Expreduce`start"),
-				rhs,
-				atoms.NewSymbol("System`Expreduce`end"),
-			}),
-
-				es, newPd)
+	mi, cont := matcher.NewMatchIter(e, looseLHS, matcher.EmptyPD(), es)
+	for cont {
+		matched, pd, done := mi.Next()
+		cont = !done
+		if !matched {
+			continue
 		}
-		return tmpEx
+		res, ok := tryCondWithMatches(matcher.ReplacePD(rhs, es, pd), pd, es)
+		if !ok {
+			continue
+		}
+		parts := []expreduceapi.Ex{e.GetParts()[0]}
+		if !orderless {
+			start := atoms.NewSymbol("System`Expreduce`start")
+			parts = append(parts, matcher.ReplacePD(start, es, pd))
+		}
+		end := atoms.NewSymbol("System`Expreduce`end")
+		parts = append(parts, res, matcher.ReplacePD(end, es, pd))
+		return atoms.NewExpression(parts), true
 	}
-	return e
+	return e, false
 }
 
-// The goal of this function is to replace all matching expressions with the
-// RHS upon successful matches. We will NOT substitute any named patterns in
-// the RHS. We will merely make sure that the named patterns are added to pm.
-// Final named pattern substitution will occur at the last possible time.
+// replaceAll replaces every part of this that a rule applies to by the result
+// of the first such rule. The results are not replaced again.
 func replaceAll(
 	this expreduceapi.Ex,
-	r expreduceapi.ExpressionInterface,
+	rules []expreduceapi.ExpressionInterface,
 	es expreduceapi.EvalStateInterface,
-	pm *matcher.PDManager,
-	stopAtHead string,
 ) expreduceapi.Ex {
-	asExpression, isExpression := this.(expreduceapi.ExpressionInterface)
-
-	if isExpression {
-		_, isRestrictedHead := atoms.HeadAssertion(this, stopAtHead)
-		if isRestrictedHead {
-			return this
+	expr, isExpr := this.(expreduceapi.ExpressionInterface)
+	for _, rule := range rules {
+		if res, replaced := replace(this, rule, es); replaced {
+			return res
+		}
+		if !isExpr {
+			continue
 		}
-		// Continue recursion
-		es.Debugf("ReplaceAll(%v, %v, es, %v)", this, r, pm)
-		return exprReplaceAll(asExpression, r, stopAtHead, es)
+		if res, replaced := replaceFlat(expr, rule, es); replaced {
+			return res
+		}
+	}
+	if !isExpr {
+		return this
+	}
+	maybeChanged := atoms.NewEmptyExpression()
+	for _, part := range expr.GetParts() {
+		maybeChanged.AppendEx(replaceAll(part, rules, es))
 	}
-	if res, matches := matcher.IsMatchQ(this, r.GetParts()[1], pm, es); res {
-		return matcher.ReplacePD(r.GetParts()[2], es, matches)
+	if hashEx(maybeChanged) != hashEx(this) {
+		return maybeChanged
 	}
 	return this
 }
 
+// replaceFlat applies a rule to some of the arguments of a Flat expression.
+func replaceFlat(
+	expr expreduceapi.ExpressionInterface,
+	rule expreduceapi.ExpressionInterface,
+	es expreduceapi.EvalStateInterface,
+) (expreduceapi.Ex, bool) {
+	lhs, isExpr := rule.GetParts()[1].(*atoms.Expression)
+	if !isExpr {
+		return expr, false
+	}
+	sym, isSym := expr.GetParts()[0].(*atoms.Symbol)
+	lhsSym, lhsIsSym := lhs.GetParts()[0].(*atoms.Symbol)
+	if !isSym || !lhsIsSym || sym.Name != lhsSym.Name {
+		return expr, false
+	}
+	attrs := sym.Attrs(es.GetDefinedMap())
+	if !attrs.Flat {
+		return expr, false
+	}
+	return flatReplace(expr, lhs, rule.GetParts()[2], attrs.Orderless, es)
+}
+
 func tryCondWithMatches(
 	rhs expreduceapi.Ex,
 	matches *matcher.PDManager,
-- 
2.43.0


From 7da2b36676dd602f7eb6dd724a55239f86dd33de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:03 +0000
Subject: [PATCH 62/74] fix: Apply accepts any head

---
 expreduce/builtin_functional.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index 2605015..2d8392d 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -420,10 +420,11 @@ func levelSpecFunction(
 				}
 				return this.GetParts()[2]
 			} else if optStrat == applyOptimizedSimpleLevelSpec {
-				sym, isSym := this.GetParts()[1].(*atoms.Symbol)
 				expr, isExpr := this.GetParts()[2].(expreduceapi.ExpressionInterface)
-				if isSym && isExpr {
-					toReturn := atoms.NewExpression([]expreduceapi.Ex{sym})
+				if isExpr {
+					toReturn := atoms.NewExpression(
+						[]expreduceapi.Ex{this.GetParts()[1]},
+					)
 					toReturn.AppendExArray(expr.GetParts()[1:])
 					return es.Eval(toReturn)
 				}
-- 
2.43.0


From aeac9be89e5536ca97145dad4fedeb367ff8a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:03 +0000
Subject: [PATCH 63/74] fix: And, Or, Which and Select stop when something is
 thrown

---
 expreduce/builtin_boolean.go     | 6 ++++++
 expreduce/builtin_flowcontrol.go | 3 +++
 expreduce/builtin_list.go        | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/expreduce/builtin_boolean.go b/expreduce/builtin_boolean.go
index a570214..95148b7 100644
--- a/expreduce/builtin_boolean.go
+++ b/expreduce/builtin_boolean.go
@@ -17,6 +17,9 @@ func getBooleanDefinitions() (defs []Definition) {
 			)
 			for i := 1; i < len(this.GetParts()); i++ {
 				part := es.Eval(this.GetParts()[i])
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				if booleanQ(part, es.GetLogger()) {
 					if falseQ(part, es.GetLogger()) {
 						return atoms.NewSymbol("System`False")
@@ -45,6 +48,9 @@ func getBooleanDefinitions() (defs []Definition) {
 			)
 			for i := 1; i < len(this.GetParts()); i++ {
 				part := es.Eval(this.GetParts()[i])
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				if booleanQ(part, es.GetLogger()) {
 					if trueQ(part, es.GetLogger()) {
 						return atoms.NewSymbol("System`True")
diff --git a/expreduce/builtin_flowcontrol.go b/expreduce/builtin_flowcontrol.go
index 6d5eff8..6fe50a5 100644
--- a/expreduce/builtin_flowcontrol.go
+++ b/expreduce/builtin_flowcontrol.go
@@ -145,6 +145,9 @@ func getFlowControlDefinitions() (defs []Definition) {
 			}
 			for i := 1; i < len(this.GetParts()); i += 2 {
 				condRes := es.Eval(this.GetParts()[i])
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				resSym, resIsSym := condRes.(*atoms.Symbol)
 				if !resIsSym {
 					continue
diff --git a/expreduce/builtin_list.go b/expreduce/builtin_list.go
index 9469694..258bcd3 100644
--- a/expreduce/builtin_list.go
+++ b/expreduce/builtin_list.go
@@ -736,6 +736,9 @@ func getListDefinitions() (defs []Definition) {
 							part,
 						})))
 
+					if es.HasThrown() {
+						return es.Thrown()
+					}
 					passSymbol, passIsSymbol := pass.(*atoms.Symbol)
 					if passIsSymbol {
 						if passSymbol.Name == "System`True" {
-- 
2.43.0


From 908b816f2dc327ab44a0663be3a0fd47e324d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:03 +0000
Subject: [PATCH 64/74] fix: an expression is evaluated again once definitions
 have changed

---
 expreduce/atoms/ex_expression.go | 21 ++++++++++++++++++++-
 expreduce/definition_map.go      | 25 +++++++++++++++++++++++++
 expreduce/eval.go                |  8 +++++---
 pkg/expreduceapi/cas.go          |  1 +
 4 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/expreduce/atoms/ex_expression.go b/expreduce/atoms/ex_expression.go
index 8875594..186ccd4 100644
--- a/expreduce/atoms/ex_expression.go
+++ b/expreduce/atoms/ex_expression.go
@@ -14,7 +14,10 @@ type Expression struct {
 	needsEval             bool
 	correctlyInstantiated bool
 	EvaledHash            uint64
-	CachedHash            uint64
+	// The generation of the definitions that EvaledHash is about: with others
+	// the expression may evaluate to something else.
+	evaledGeneration uint64
+	CachedHash       uint64
 }
 
 // HeadAssertion checks if the Ex is an Expression of with a head of 'head'.
@@ -179,6 +182,7 @@ func (thisExpr *Expression) DeepCopy() expreduceapi.Ex {
 	thisExprcopy.needsEval = thisExpr.needsEval
 	thisExprcopy.correctlyInstantiated = thisExpr.correctlyInstantiated
 	thisExprcopy.EvaledHash = thisExpr.EvaledHash
+	thisExprcopy.evaledGeneration = thisExpr.evaledGeneration
 	thisExprcopy.CachedHash = thisExpr.CachedHash
 	return thisExprcopy
 }
@@ -190,6 +194,7 @@ func ShallowCopy(thisExprExprInt expreduceapi.ExpressionInterface) *Expression {
 	thisExprcopy.needsEval = thisExpr.needsEval
 	thisExprcopy.correctlyInstantiated = thisExpr.correctlyInstantiated
 	thisExprcopy.EvaledHash = thisExpr.EvaledHash
+	thisExprcopy.evaledGeneration = thisExpr.evaledGeneration
 	thisExprcopy.CachedHash = thisExpr.CachedHash
 	return thisExprcopy
 }
@@ -202,6 +207,7 @@ func (thisExpr *Expression) Copy() expreduceapi.Ex {
 	thisExprcopy.needsEval = thisExpr.needsEval
 	thisExprcopy.correctlyInstantiated = thisExpr.correctlyInstantiated
 	thisExprcopy.EvaledHash = thisExpr.EvaledHash
+	thisExprcopy.evaledGeneration = thisExpr.evaledGeneration
 	thisExprcopy.CachedHash = thisExpr.CachedHash
 	return thisExprcopy
 }
@@ -235,6 +241,19 @@ func (thisExpr *Expression) SetNeedsEval(newVal bool) {
 	thisExpr.needsEval = newVal
 }
 
+// SetEvaled notes that the expression, with this hash, evaluates to itself with
+// the definitions of this generation.
+func (thisExpr *Expression) SetEvaled(hash uint64, generation uint64) {
+	thisExpr.EvaledHash = hash
+	thisExpr.evaledGeneration = generation
+}
+
+// IsEvaled checks if the expression is known to evaluate to itself with the
+// definitions of this generation.
+func (thisExpr *Expression) IsEvaled(hash uint64, generation uint64) bool {
+	return thisExpr.EvaledHash == hash && thisExpr.evaledGeneration == generation
+}
+
 func (thisExpr *Expression) Hash() uint64 {
 	if atomic.LoadUint64(&thisExpr.CachedHash) > 0 {
 		return thisExpr.CachedHash
diff --git a/expreduce/definition_map.go b/expreduce/definition_map.go
index 33680de..51d3feb 100644
--- a/expreduce/definition_map.go
+++ b/expreduce/definition_map.go
@@ -1,22 +1,47 @@
 package expreduce
 
 import (
+	"sync/atomic"
+
 	"github.com/corywalker/expreduce/pkg/expreduceapi"
 	"github.com/orcaman/concurrent-map"
 )
 
 type threadSafeDefinitionMap struct {
 	internalMap cmap.ConcurrentMap
+	// Identifies the current contents of the map, see Generation.
+	generation *uint64
 }
 
+// The last generation of any definition map.
+var lastGeneration uint64
+
 func newDefinitionMap() *threadSafeDefinitionMap {
 	var dm threadSafeDefinitionMap
 	dm.internalMap = cmap.New()
+	dm.generation = new(uint64)
 	return &dm
 }
 
 func (dm threadSafeDefinitionMap) Set(key string, value expreduceapi.Def) {
+	_, known := dm.internalMap.Get(key)
 	dm.internalMap.Set(key, value)
+	if !known && isEmptyDef(value) {
+		// An empty definition is the same as none.
+		return
+	}
+	atomic.StoreUint64(dm.generation, atomic.AddUint64(&lastGeneration, 1))
+}
+
+func isEmptyDef(def expreduceapi.Def) bool {
+	return len(def.Downvalues) == 0 && def.Attributes == expreduceapi.Attributes{} &&
+		def.DefaultExpr == nil && def.LegacyEvalFn == nil
+}
+
+// Generation identifies the definitions in the map: it changes whenever a
+// definition changes, and no two maps with definitions share one.
+func (dm threadSafeDefinitionMap) Generation() uint64 {
+	return atomic.LoadUint64(dm.generation)
 }
 
 func (dm threadSafeDefinitionMap) Get(key string) (expreduceapi.Def, bool) {
diff --git a/expreduce/eval.go b/expreduce/eval.go
index cb255d7..6fb594b 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -53,13 +53,15 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 	lastExHash := uint64(0)
 	var lastEx expreduceapi.Ex = this
 	currExHash := hashEx(this)
-	if currExHash == this.EvaledHash {
+	generation := es.GetDefinedMap().Generation()
+	if this.IsEvaled(currExHash, generation) {
 		return this
 	}
 	var currEx expreduceapi.Ex = this
 	insideDefinition := false
 	for currExHash != lastExHash {
 		lastExHash = currExHash
+		generation = es.GetDefinedMap().Generation()
 		curr, isExpr := currEx.(*atoms.Expression)
 		if *checkhashes {
 			if isExpr && curr.EvaledHash != 0 && currExHash != curr.EvaledHash {
@@ -74,7 +76,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 				return retVal
 			}
 		}
-		if isExpr && currExHash == curr.EvaledHash {
+		if isExpr && curr.IsEvaled(currExHash, generation) {
 			return curr
 		}
 
@@ -283,7 +285,7 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 	curr, isExpr := currEx.(*atoms.Expression)
 	if isExpr {
 		curr.SetNeedsEval(false)
-		curr.EvaledHash = currExHash
+		curr.SetEvaled(currExHash, generation)
 	}
 	return currEx
 }
diff --git a/pkg/expreduceapi/cas.go b/pkg/expreduceapi/cas.go
index 8dee646..3a8aa76 100644
--- a/pkg/expreduceapi/cas.go
+++ b/pkg/expreduceapi/cas.go
@@ -110,6 +110,7 @@ type DefinitionMap interface {
 	UnlockKey(key string)
 	Keys() []string
 	CopyDefs() DefinitionMap
+	Generation() uint64
 }
 
 type StreamManager interface {
-- 
2.43.0


From cf35516ef46793318f602bc123a8790ec34a35a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:03 +0000
Subject: [PATCH 65/74] fix: nothing is evaluated or defined while a throw is
 pending, and a throw is not taken for a value

---
 expreduce/builtin_system.go |  3 +++
 expreduce/eval.go           | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index d2097f7..031ce22 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -580,6 +580,9 @@ func getSystemDefinitions() (defs []Definition) {
 					evaledLhs := atoms.NewEmptyExpression()
 					for _, part := range lhs.GetParts() {
 						evaledLhs.AppendEx(es.Eval(part))
+						if es.HasThrown() {
+							return es.Thrown()
+						}
 					}
 					lhs = evaledLhs
 				}
diff --git a/expreduce/eval.go b/expreduce/eval.go
index 6fb594b..9a6ffbe 100644
--- a/expreduce/eval.go
+++ b/expreduce/eval.go
@@ -17,6 +17,10 @@ var checkhashes = flag.Bool("checkhashes", false, "")
 
 // Eval evaluates an expression and returns the resulting expression.
 func (es *EvalState) Eval(expr expreduceapi.Ex) expreduceapi.Ex {
+	if es.HasThrown() {
+		// Nothing happens between a Throw and its Catch.
+		return es.Thrown()
+	}
 	if asExpression, ok := expr.(*atoms.Expression); ok {
 		return es.evalExpression(asExpression)
 	}
@@ -251,10 +255,16 @@ func (es *EvalState) evalExpression(this *atoms.Expression) expreduceapi.Ex {
 			if hasLegacyEvalFn {
 				currEx = legacyEvalFn(curr, es)
 				// TODO: I could potentially have the legacyevalfn return this.
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				unchanged = atoms.IsSameQ(currEx, curr)
 			}
 			if unchanged {
 				theRes, isDefined, def := es.GetDef(headStr, curr)
+				if es.HasThrown() {
+					return es.Thrown()
+				}
 				if isDefined {
 					//fmt.Printf("%v, %v, %v\n", headStr, curr, theRes)
 					es.Infof(
-- 
2.43.0


From 055e7330e8273ad8c6b6f712dca0217d5ba36e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:19 +0000
Subject: [PATCH 66/74] fix: Set evaluates the arguments of its left-hand side,
 and Set and SetDelayed respect what its head holds

---
 expreduce/builtin_system.go | 63 ++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/expreduce/builtin_system.go b/expreduce/builtin_system.go
index 031ce22..f24a15f 100644
--- a/expreduce/builtin_system.go
+++ b/expreduce/builtin_system.go
@@ -295,6 +295,35 @@ func parseOutputStream(outputStreamDef expreduceapi.Ex) (string, int64, bool) {
 	return streamName.GetValue(), streamIndex.Val.Int64(), true
 }
 
+// evalDefinitionLhs evaluates the parts of the left-hand side of a definition
+// that its head does not hold.
+func evalDefinitionLhs(
+	ex expreduceapi.Ex,
+	es expreduceapi.EvalStateInterface,
+) expreduceapi.Ex {
+	lhs, isExpr := ex.(expreduceapi.ExpressionInterface)
+	if !isExpr {
+		return ex
+	}
+	attrs := expreduceapi.Attributes{}
+	if len(lhs.GetParts()) > 0 {
+		if headSym, isSym := lhs.GetParts()[0].(*atoms.Symbol); isSym {
+			attrs = headSym.Attrs(es.GetDefinedMap())
+		}
+	}
+	if attrs.HoldAll || attrs.HoldAllComplete {
+		return lhs
+	}
+	evaledLhs := atoms.NewEmptyExpression()
+	for i, part := range lhs.GetParts() {
+		if !(i == 1 && attrs.HoldFirst || i > 1 && attrs.HoldRest) {
+			part = es.Eval(part)
+		}
+		evaledLhs.AppendEx(part)
+	}
+	return evaledLhs
+}
+
 func getSystemDefinitions() (defs []Definition) {
 	defs = append(defs, Definition{
 		Name:              "ExpreduceSetLogging",
@@ -499,7 +528,11 @@ func getSystemDefinitions() (defs []Definition) {
 				return this
 			}
 
-			es.Define(this.GetParts()[1], this.GetParts()[2])
+			lhs := evalDefinitionLhs(this.GetParts()[1], es)
+			if es.HasThrown() {
+				return es.Thrown()
+			}
+			es.Define(lhs, this.GetParts()[2])
 			return this.GetParts()[2]
 		},
 		SimpleExamples: []TestInstruction{
@@ -565,31 +598,11 @@ func getSystemDefinitions() (defs []Definition) {
 				return this
 			}
 
-			lhs, lhsIsExpr := this.GetParts()[1].(expreduceapi.ExpressionInterface)
-			if lhsIsExpr {
-				headSym, headIsSym := &atoms.Symbol{}, false
-				if len(lhs.GetParts()) > 0 {
-					headSym, headIsSym = lhs.GetParts()[0].(*atoms.Symbol)
-				}
-				attrs := expreduceapi.Attributes{}
-				if headIsSym {
-					attrs = headSym.Attrs(es.GetDefinedMap())
-				}
-
-				if !(attrs.HoldAll || attrs.HoldAllComplete) {
-					evaledLhs := atoms.NewEmptyExpression()
-					for _, part := range lhs.GetParts() {
-						evaledLhs.AppendEx(es.Eval(part))
-						if es.HasThrown() {
-							return es.Thrown()
-						}
-					}
-					lhs = evaledLhs
-				}
-				es.Define(lhs, this.GetParts()[2])
-				return atoms.NewSymbol("System`Null")
+			lhs := evalDefinitionLhs(this.GetParts()[1], es)
+			if es.HasThrown() {
+				return es.Thrown()
 			}
-			es.Define(this.GetParts()[1], this.GetParts()[2])
+			es.Define(lhs, this.GetParts()[2])
 			return atoms.NewSymbol("System`Null")
 		},
 		SimpleExamples: []TestInstruction{
-- 
2.43.0


From e68ab142ff7c39693753e4d4738039e2d62f769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:55 +0000
Subject: [PATCH 67/74] fix: level specifications select exactly the levels
 they name

MapIndexed without levels gave f[part] without the index; a maximal level
of 0 still reached level 1; atoms were taken to be one level deeper than
they are, or to have depth 0 when they were the whole expression.
---
 expreduce/builtin_functional.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index 2d8392d..a98584a 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -253,7 +253,7 @@ func expressionWalkMap(
 
 		//If this part is covered by the level specification, apply the function
 		//specified by the first argument of Map
-		if level >= spec.min {
+		if level >= spec.min && level <= spec.max {
 			newExpression = f(
 				head,
 				newExpression,
@@ -318,7 +318,6 @@ func expressionWalkMapBackwards(
 				toReturn.AppendEx(newExpression)
 			}
 		} else { //If the node is atomic
-			level = level + 1
 			depth = int64(1)
 
 			if spec.checkLevel(level) && spec.checkDepth(depth) {
@@ -411,10 +410,13 @@ func levelSpecFunction(
 						[]expreduceapi.Ex{expr.GetParts()[0]},
 					)
 					for i := 1; i < len(expr.GetParts()); i++ {
-						toReturn.AppendEx(atoms.NewExpression([]expreduceapi.Ex{
+						toReturn.AppendEx(f(
 							this.GetParts()[1],
 							expr.GetParts()[i],
-						}))
+							[]int64{int64(i)},
+							new(int64),
+							es,
+						))
 					}
 					return toReturn
 				}
@@ -452,11 +454,10 @@ func levelSpecFunction(
 		generatedData := int64(0)
 		generated := &generatedData
 
-		// If the leveled expression is atomic, it will be ignored except in
-		// one case
+		// An atom has depth one.
 		expression, nonAtomic := leveledExpr.(expreduceapi.ExpressionInterface)
 		if !nonAtomic {
-			if spec.checkLevel(0) && spec.checkDepth(0) {
+			if spec.checkLevel(0) && spec.checkDepth(1) {
 				return exOrGenerated(
 					f(dataExpr, leveledExpr, []int64{}, generated, es),
 					generated,
-- 
2.43.0


From 1d83a1385c5832ba4a75329ed6d0595d32a50784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:55 +0000
Subject: [PATCH 68/74] fix: Array with other dimensions than an integer stays
 as it is

---
 expreduce/builtin_functional.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index a98584a..ad55701 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -798,7 +798,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 				}
 				return toReturn
 			}
-			return this.GetParts()[2]
+			return this
 		},
 	})
 	defs = append(defs, Definition{
-- 
2.43.0


From 81d18a3fc71898a2302d368595800459fdcefb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:55 +0000
Subject: [PATCH 69/74] fix: NestWhileList tests the initial expression too

---
 expreduce/builtin_functional.go | 34 ++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/expreduce/builtin_functional.go b/expreduce/builtin_functional.go
index ad55701..4660b98 100644
--- a/expreduce/builtin_functional.go
+++ b/expreduce/builtin_functional.go
@@ -705,20 +705,7 @@ func getFunctionalDefinitions() (defs []Definition) {
 				[]expreduceapi.Ex{atoms.NewSymbol("System`List"), expr},
 			)
 
-			isequal := "EQUAL_TRUE"
-			cont := isequal == "EQUAL_TRUE"
-			for i := int64(2); cont; i++ {
-				expr = atoms.NewExpression([]expreduceapi.Ex{
-					f,
-					expr,
-				})
-
-				toReturn.AppendEx(expr)
-				evaluated = append(
-					evaluated,
-					es.Eval(expr.DeepCopy()),
-				) // Could use a stack of length m
-
+			for i := int64(1); ; i++ {
 				if i >= m {
 					testExpression := atoms.NewExpression(
 						[]expreduceapi.Ex{test},
@@ -730,14 +717,27 @@ func getFunctionalDefinitions() (defs []Definition) {
 					} else {
 						testExpression.AppendExArray(evaluated)
 					}
-					isequal = es.Eval(testExpression).
+					isequal := es.Eval(testExpression).
 						IsEqual(atoms.NewSymbol("System`True"))
-					cont = isequal == "EQUAL_TRUE"
+					if isequal != "EQUAL_TRUE" {
+						break
+					}
 				}
 
 				if i > max && max != -1 {
-					cont = false
+					break
 				}
+
+				expr = atoms.NewExpression([]expreduceapi.Ex{
+					f,
+					expr,
+				})
+
+				toReturn.AppendEx(expr)
+				evaluated = append(
+					evaluated,
+					es.Eval(expr.DeepCopy()),
+				) // Could use a stack of length m
 			}
 
 			if n > 0 {
-- 
2.43.0


From ce428db9e30cdf32729ac0a3f2f4fc26fa10d06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:22 +0000
Subject: [PATCH 70/74] fix: the first rule of ReplacePart that fits a position
 is used

---
 expreduce/builtin_replacement.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/expreduce/builtin_replacement.go b/expreduce/builtin_replacement.go
index 1a178f8..e9920a4 100644
--- a/expreduce/builtin_replacement.go
+++ b/expreduce/builtin_replacement.go
@@ -41,18 +41,24 @@ func getValidRules(
 	return
 }
 
-func rulesReplace(
-	e expreduceapi.Ex,
+// replacePosition gives what the first rule for this position has in its place.
+// A position in the outermost expression may be given with or without a list.
+func replacePosition(
+	pos expreduceapi.ExpressionInterface,
 	rules []expreduceapi.ExpressionInterface,
 	es expreduceapi.EvalStateInterface,
 ) (expreduceapi.Ex, bool) {
 	for _, rule := range rules {
-		res, replaced := replace(e, rule, es)
-		if replaced {
+		if res, replaced := replace(pos, rule, es); replaced {
 			return res, true
 		}
+		if len(pos.GetParts()) == 2 {
+			if res, replaced := replace(pos.GetParts()[1], rule, es); replaced {
+				return res, true
+			}
+		}
 	}
-	return e, false
+	return nil, false
 }
 
 func replaceParts(
@@ -72,10 +78,7 @@ func replaceParts(
 		pos := atoms.ShallowCopy(part)
 		pos.AppendEx(atoms.NewInt(int64(i + 1)))
 		pos.ClearHashes()
-		repVal, replaced := rulesReplace(pos, rules, es)
-		if !replaced && len(pos.GetParts()) == 2 {
-			repVal, replaced = rulesReplace(pos.GetParts()[1], rules, es)
-		}
+		repVal, replaced := replacePosition(pos, rules, es)
 		if replaced {
 			res.AppendEx(repVal)
 			dirty = true
-- 
2.43.0


From a543623e4111e612249eab156f997faccbd3e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:47 +0000
Subject: [PATCH 71/74] fix: rules for fewer expressions are tried first

f[a] = 2 after f[x_] := 1 had no effect, and neither had f[1, y_] := 2 after
f[x_, y_] := 1, as rules were ranked by the length of their left-hand sides.
---
 expreduce/evalstate.go | 135 ++++++++++++++++++++++++++++++++---------
 1 file changed, 105 insertions(+), 30 deletions(-)

diff --git a/expreduce/evalstate.go b/expreduce/evalstate.go
index 03a0db6..447950e 100644
--- a/expreduce/evalstate.go
+++ b/expreduce/evalstate.go
@@ -437,46 +437,124 @@ func (es *EvalState) MarkSeen(name string) {
 	}
 }
 
+// Specificities of rules. Rules for the expression on their left-hand side only
+// come before all that match others as well.
+const (
+	specificityLiteral     = 1 << 30
+	specificityConditional = 100
+)
+
 // Attempts to compute a specificity metric for a rule. Higher specificity rules
-// should be tried first.
+// should be tried first. Rules of the same specificity are tried in order of
+// definition.
 func ruleSpecificity(
 	lhs expreduceapi.Ex,
 	rhs expreduceapi.Ex,
 	name string,
-	es *EvalState,
 ) int {
 	if name == "Rubi`Int" {
-		return 100
+		return specificityConditional
 	}
-	// Special case for single integer arguments.
-	expr, isExpr := lhs.(expreduceapi.ExpressionInterface).GetParts()[1].(expreduceapi.ExpressionInterface)
-	if isExpr && len(expr.GetParts()) == 2 {
-		if _, isInt := expr.GetParts()[1].(*atoms.Integer); isInt {
-			return 110
-		}
+	pattern := lhs.(expreduceapi.ExpressionInterface).GetParts()[1]
+	if isLiteral(pattern) {
+		return specificityLiteral
 	}
-	// I define complexity as the length of the Lhs.String()
-	// because it is simple, and it works for most of the common cases. We wish
-	// to attempt f[x_Integer] before we attempt f[x_]. If LHSs map to the same
-	// "complexity" score, order then matters. TODO: Create better measure of
-	// complexity (or specificity)
-	context, contextPath := definitionComplexityStringFormArgs()
-	stringParams := expreduceapi.ToStringParams{
-		Form:        "InputForm",
-		Context:     context,
-		ContextPath: contextPath,
-		// No need for the EvalState reference. Used for string expansion for
-		// Definition[], which should not be in an actual definition.
-		Esi: es,
-	}
-	specificity := len(lhs.StringForm(stringParams))
 	if _, rhsIsCond := atoms.HeadAssertion(rhs, "System`Condition"); rhsIsCond {
 		// Condition rules will be ranked in order of definition, not
 		// specificity. I'm not entirely sure if this is correct, but it seems
 		// to be the case for all the Rubi rules.
-		specificity = 100
+		return specificityConditional
+	}
+	return patternSpecificity(pattern, map[string]bool{})
+}
+
+// isLiteral tells if a pattern matches nothing but itself.
+func isLiteral(e expreduceapi.Ex) bool {
+	expr, isExpr := e.(expreduceapi.ExpressionInterface)
+	if !isExpr {
+		return true
+	}
+	for i, part := range expr.GetParts() {
+		if head, isSym := part.(*atoms.Symbol); i == 0 && isSym {
+			switch head.Name {
+			case "System`Alternatives", "System`Blank", "System`BlankNullSequence",
+				"System`BlankSequence", "System`Condition", "System`Except",
+				"System`HoldPattern", "System`Optional", "System`OptionsPattern",
+				"System`Pattern", "System`PatternSequence", "System`PatternTest",
+				"System`Repeated", "System`RepeatedNull", "System`Verbatim":
+				return false
+			}
+		}
+		if !isLiteral(part) {
+			return false
+		}
+	}
+	return true
+}
+
+// patternSpecificity grows when a part of a pattern is replaced by something
+// that matches fewer expressions: a blank by a blank with a head, or either by
+// an expression. A part that may be absent counts less than nothing.
+func patternSpecificity(e expreduceapi.Ex, seen map[string]bool) int {
+	expr, isExpr := e.(expreduceapi.ExpressionInterface)
+	if !isExpr {
+		return 16
 	}
-	return specificity
+	parts := expr.GetParts()
+	head := ""
+	if len(parts) > 0 {
+		if headSym, isSym := parts[0].(*atoms.Symbol); isSym {
+			head = headSym.Name
+		}
+	}
+	switch {
+	case head == "System`Blank" && len(parts) == 1:
+		return 4
+	case head == "System`Blank":
+		return 8
+	case head == "System`BlankSequence" && len(parts) == 1:
+		return 3
+	case head == "System`BlankSequence":
+		return 7
+	case head == "System`BlankNullSequence" && len(parts) == 1:
+		return -2
+	case head == "System`BlankNullSequence":
+		return -1
+	case head == "System`Optional", head == "System`RepeatedNull", head == "System`OptionsPattern":
+		return -1
+	case head == "System`Except":
+		return 5
+	case len(parts) < 2:
+	case head == "System`Pattern" && len(parts) == 3:
+		res := patternSpecificity(parts[2], seen)
+		if sym, isSym := parts[1].(*atoms.Symbol); isSym {
+			if seen[sym.Name] {
+				// The same again matches less than anything.
+				res++
+			}
+			seen[sym.Name] = true
+		}
+		return res
+	case head == "System`PatternTest", head == "System`Condition":
+		return patternSpecificity(parts[1], seen) + 2
+	case head == "System`HoldPattern":
+		return patternSpecificity(parts[1], seen)
+	case head == "System`Repeated":
+		return patternSpecificity(parts[1], seen) - 1
+	case head == "System`Alternatives":
+		res := patternSpecificity(parts[1], seen)
+		for _, part := range parts[2:] {
+			if other := patternSpecificity(part, seen); other < res {
+				res = other
+			}
+		}
+		return res - 1
+	}
+	res := 0
+	for _, part := range parts {
+		res += patternSpecificity(part, seen)
+	}
+	return res
 }
 
 func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
@@ -577,16 +655,13 @@ func (es *EvalState) Define(lhs expreduceapi.Ex, rhs expreduceapi.Ex) {
 	// Insert into definitions for name. Maintain order of decreasing
 	// complexity.
 	var tmp = es.defined.GetDef(name)
-	newSpecificity := ruleSpecificity(heldLHS, rhs, name, es)
+	newSpecificity := ruleSpecificity(heldLHS, rhs, name)
 	for i, dv := range es.defined.GetDef(name).Downvalues {
 		if dv.Specificity == 0 {
-			// Printing the rule can read definitions, so this must not hold
-			// the lock of the definition map.
 			dv.Specificity = ruleSpecificity(
 				dv.Rule.GetParts()[1],
 				dv.Rule.GetParts()[2],
 				name,
-				es,
 			)
 		}
 		if dv.Specificity < newSpecificity {
-- 
2.43.0


From bba95e7ca6717a318ad72e4d264a2d02cad41093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:20 +0000
Subject: [PATCH 72/74] fix: build the factors of a root in a fixed order

extractPower went over a Go map to collect the factors, so the order of
evaluation, and with it Trace[Sqrt[185297175000]], changed from run to run.
---
 expreduce/builtin_power.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/expreduce/builtin_power.go b/expreduce/builtin_power.go
index bf17f12..996d686 100644
--- a/expreduce/builtin_power.go
+++ b/expreduce/builtin_power.go
@@ -77,25 +77,30 @@ func extractPower(x *big.Int, r *atoms.Rational) expreduceapi.Ex {
 	if !hasPowerAtLeastTwo {
 		return nil
 	}
-	bases := make(map[uint64]*big.Int)
+	var bases []factorTally
 	for _, tf := range talliedFactors {
-		base, hasVal := bases[tf.power]
-		if !hasVal {
-			bases[tf.power] = tf.factor
-		} else {
-			base.Mul(base, tf.factor)
+		added := false
+		for _, base := range bases {
+			if base.power == tf.power {
+				base.factor.Mul(base.factor, tf.factor)
+				added = true
+				break
+			}
+		}
+		if !added {
+			bases = append(bases, tf)
 		}
 	}
 	toReturn := atoms.E(atoms.S("Times"))
-	for power, base := range bases {
+	for _, base := range bases {
 		bigPower := big.NewInt(0)
-		bigPower.SetUint64(power)
+		bigPower.SetUint64(base.power)
 		thisR := r.DeepCopy().(*atoms.Rational)
 		thisR.MulBigI(bigPower)
 		thisR.SetNeedsEval(true)
 		toReturn.AppendEx(atoms.E(
 			atoms.S("Power"),
-			atoms.NewInteger(base),
+			atoms.NewInteger(base.factor),
 			thisR,
 		))
 	}
-- 
2.43.0


From d183cdebada016374bad6b8fbc29a6cdecf6f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:04 +0000
Subject: [PATCH 73/74] fix: the dimensions of a ragged array are those all
 parts agree on

---
 expreduce/builtin_matrix.go | 20 ++++++++++----------
 expreduce/qfunctions.go     | 11 ++++++++---
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/expreduce/builtin_matrix.go b/expreduce/builtin_matrix.go
index c617a85..4a734ae 100644
--- a/expreduce/builtin_matrix.go
+++ b/expreduce/builtin_matrix.go
@@ -21,17 +21,17 @@ func dimensions(
 			return dims
 		}
 		currDims := dimensions(subHead, level+1, cl)
-		if i != 1 {
-			if len(nextDims) > len(currDims) {
-				nextDims = nextDims[:len(currDims)-1]
-			}
-			for i := range nextDims {
-				if nextDims[i] != currDims[i] {
-					return dims
-				}
-			}
+		if i == 1 {
+			nextDims = currDims
+			continue
+		}
+		// Only the levels on which all parts agree count.
+		agree := 0
+		for agree < len(nextDims) && agree < len(currDims) &&
+			nextDims[agree] == currDims[agree] {
+			agree++
 		}
-		nextDims = currDims
+		nextDims = nextDims[:agree]
 	}
 	return append(dims, nextDims...)
 }
diff --git a/expreduce/qfunctions.go b/expreduce/qfunctions.go
index 035e2b5..29306e3 100644
--- a/expreduce/qfunctions.go
+++ b/expreduce/qfunctions.go
@@ -53,10 +53,15 @@ func vectorQ(e expreduceapi.Ex) bool {
 
 func matrixQ(e expreduceapi.Ex, cl expreduceapi.LoggingInterface) bool {
 	l, isL := atoms.HeadAssertion(e, "System`List")
-	if isL {
-		return len(dimensions(l, 0, cl)) == 2
+	if !isL || len(dimensions(l, 0, cl)) != 2 {
+		return false
 	}
-	return false
+	for _, row := range l.GetParts()[1:] {
+		if !vectorQ(row) {
+			return false
+		}
+	}
+	return true
 }
 
 func symbolNameQ(
-- 
2.43.0


From bef02b88c92a7508f22907354ca67a6162462af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:39:13 +0000
Subject: [PATCH 74/74] fix: the empty list has one permutation

---
 expreduce/builtin_combinatorics.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expreduce/builtin_combinatorics.go b/expreduce/builtin_combinatorics.go
index 5eeba7b..0ffc03c 100644
--- a/expreduce/builtin_combinatorics.go
+++ b/expreduce/builtin_combinatorics.go
@@ -60,7 +60,7 @@ func genPermutations(
 	cl expreduceapi.LoggingInterface,
 ) (perms [][]expreduceapi.Ex) {
 	// Base case
-	if len(parts) == 1 {
+	if len(parts) <= 1 {
 		return [][]expreduceapi.Ex{parts}
 	}
 	// Recursion
-- 
2.43.0

