import json,subprocess
m={ '764cfed':('C01','n! decremented the shared argument number in place'),
'c5ea80c':('C02','evaluation wrote evaluated arguments, sorted parts and normalised numbers into shared expressions'),
'a542830':('C02','And/Or wrote evaluated parts into the shared expression'),
'bb2ec53':('C02','Max/Min modified their argument expression'),
'f1b26e8':('C02','SetDelayed evaluated the held left-hand side in place'),
'1540572':('C02','redefinition edited the stored rule and the rule list that callers may be iterating'),
'b6315e3':('C14','a definition lock was held while printing a rule, which reads definitions: deadlock'),
'f87cffe':('C28','iterating the live rule list by index panicked when a rule was removed while being applied'),
'995277f':('C28','DownValues assignment stored malformed rules that later panicked'),
'0a12c4b':('C38','an assignment to an invalid left-hand side ended the process'),
'73e3d46':('C04','different rationals wrote the same bytes into the hash and were identical to SameQ'),
'086825b':('C26','a snapshot of the definitions dropped attributes, defaults and builtin functions'),
'1f2ccec':('C22','writing to stderr by name used the index of no open stream'),
'90de526':('C23','merging time counters overwrote the counts'),
'1e1ba68':('C11','time counters with equal times printed in map order'),
'3361802':('C12','Do did not restore its iteration variables when it ended by Return or Throw'),
'fff3f2a':('C12','iteration restored only the value of its variables and dropped other rules and attributes'),
'cd98786':('C28','reporting a syntax error near the end of the input panicked'),
'8884351':('C10','a failed pattern alternative left bindings behind'),
'08605b2':('C28','incomplete pattern constructs panicked the matcher'),
'f7204a4':('C13','the trace was not restored when the evaluation of an argument threw'),
'b9681d4':('C07','numbers that differ compared equal in the canonical order, so Sort and Orderless forms depended on the input order'),
'ab8868d':('C02','ReplacePart changed the position list that a pattern variable had bound'),
'a6675b4':('C38','syntax that the parser accepts but cannot convert ended the process'),
'f26ee7a':('C29','a $ContextPath element that is not a string panicked'),
'f502e3d':('C28','a Function with a named parameter applied to no arguments panicked'),
'7d955f1':('C28','a Rule without two sides used as a replacement rule panicked'),
'9b96fd3':('C28','a rule with an incomplete Condition as right-hand side panicked'),
'e82454d':('C28','an assignment to an expression headed by an empty Verbatim panicked'),
'9c62eb1':('C30','an empty CompoundExpression evaluated to no expression at all and panicked'),
'7fed0dc':('C38','Names with a pattern that is not a valid regular expression panicked'),
'95366d7':('C28','printing a sum with an empty term panicked'),
'b0944ec':('C28','Internal`Parens with other than one argument panicked or lost arguments'),
'f4bf302':('C20','a Flat function without a matching rule was not flattened'),
'9508d45':('C29','a definition was looked up twice, and a concurrent removal in between panicked'),
'5cb34b1':('C30','a negative integer raised to a real power panicked'),
'd6382fd':('C21','Save and Get did not report a file they cannot write or read'),
'8f88612':('C38','failing to write a memory profile ended the process'),
'edd5ef5':('C38','Unique and Module without a $ModuleNumber ended the process'),
'3db65e8':('C30','clearing $Line panicked'),
'd48ca43':('C21','an error closing the memory profile was dropped'),
'ca01dbf':('C22','WriteString to a stream that cannot be written gave Null'),
'176aa67':('C37','integers beyond 64 bits were taken modulo 2^64'),
'16015a0':('C39','equality of a literal and a symbol was decided, and depended on the order of the sides'),
'4355e44':('C39','exact numbers were compared as machine reals, and complex numbers were ordered'),
'cfafebe':('C10','a sequence variable bound to one element did not agree with that element'),
'5db0326':('C39','Max and Min of operands none of which is a number grew forever'),
'525b4c4':('C18','operators such as RuleDelayed and Condition were printed with the precedence of other tokens, so that parentheses were missing'),
'339a926':('C18','an operator expression used as a head was printed without parentheses'),
'e7d38ac':('C18','a negative integer as base of a power was printed without parentheses'),
'2d0c827':('C18','Power of three arguments was printed as a nested power'),
'55bc6b1':('C18','quotes and backslashes in strings were printed raw'),
'f8e8de1':('C18','the parts of a complex number were printed in InputForm in FullForm'),
'6ccc09d':('C18','a symbol of a nested context was printed as a symbol of another context'),
'f8f6321':('C18','Part of an operator expression was printed without parentheses'),
'fd6d211':('C17','x_Integer. was read as a pattern for the head Integer.'),
'811b12e':('C18','patterns with other than symbols as names or types were printed so that they read as something else'),
'6f5e2f1':('C20','a throw inside Evaluate let the held call around it, for example a definition, go ahead'),
'b15567e':('C41','functions with a list of parameters lost their arguments, inner functions did not see outer parameters, and slots were replaced one after the other'),
'a306c17':('C12','Break did not end the loop around it, and While, Table, Sum and Product went on after a throw'),
'8454bf3':('C42','With replaced its variables one after the other and ReplaceAll tried the rules in separate passes, without conditions'),
'7da2b36':('C43','Apply accepted only a symbol as head'),
'aeac9be':('C42','And, Or, Which and Select went on after a throw'),
'908b816':('C16','an expression that was evaluated once kept its value when definitions changed later'),
'cf35516':('C13','a Throw took effect only the first time it was evaluated, and definitions and other expressions were evaluated while a throw was pending'),
'e68ab14':('C43','MapIndexed without levels left out the index, Map and Count at level 0 reached level 1, and negative levels took atoms to be elsewhere'),
'a543623':('C26','f[a]=2 after f[x_]:=1, and f[1,y_]:=2 after f[x_,y_]:=1, had no effect: rules were ranked by the length of their left-hand sides'),
'ce428db':('C44','ReplacePart[{a,b},{1->x,{1}->y}] used the second rule'),
'1d83a13':('C43','Array with other dimensions than an integer gave the dimensions'),
'81d18a3':('C43','NestWhileList applied its function without testing the initial expression'),
'bba95e7':('C11','the factors of a root were collected in map order, so Trace[Sqrt[185297175000]] changed from run to run'),
'd183cde':('C45','Dimensions[{{c,d},{{a},{b}}}] was {2,2,1}, and MatrixQ took arrays with lists as elements for matrices'),
'bef02b8':('C45','Permutations[{}] was {} instead of {{}}'),
'055e733':('C26','Set defined a value for the unevaluated arguments of its left-hand side'),
}
out=[]
for c,(p,w) in m.items(): out.append({'property':p,'status':'fixed','commit':c,'what':'fixed: property=%s %s %s'%(p,c,w)})
json.dump({'findings':out},open('/verif/known_findings.json','w'),indent=1)
