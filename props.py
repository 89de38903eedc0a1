# Property data: read by gen.py. One P(...) per property.
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, state=None, observe=None,
      technique=None, note=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
        files=files, mech=mech, state=state, observe=observe, technique=technique, note=note, na=na))

CORE_WHY = "The core package does not build from the pinned tree (a generated package is missing), so none of its tests run; the two stable tests only cover sequence allocation in the matcher. "

P('C01', 'Numbers are values: arithmetic never changes an existing number',
  "Evaluating any expression never changes the value of an integer, rational, real or complex number that already exists: numbers held by variables, definitions, earlier outputs or other expressions keep their value. Every arithmetic, number-theoretic, parsing or matching operation that computes in place does so on a number it created itself.",
  ['inputs', 'histories'], "every expression, every value of every number, every sequence of evaluations",
  CORE_WHY + "A test sees corruption only if it re-reads the particular shared number after the particular operation that writes it.",
  ['expreduce/atoms', 'expreduce/builtin_power.go', 'expreduce/builtin_numbertheory.go', 'expreduce/builtin_combinatorics.go', 'expreduce/builtin_arithmetic.go', 'expreduce/eval.go'],
  [('in-place big-number methods (Add, Mul, Neg, Sub, ...) and their receivers', 'expreduce/atoms/ex_integer.go, ex_rational.go, ex_real.go, calculator.go'),
   ('deep copy before folding', 'expreduce/atoms/calculator.go ComputeNumericPart')],
  technique="interprocedural ownership analysis over SSA (freshness of every in-place write target, requirements propagated to all callers)",
  note="Sound for the recognised in-place operations of math/big and of the number types, assuming that library calls outside the repository do not write through their arguments except as listed; reports the modifying site and the caller that passes a shared number.")

P('C02', 'Evaluation never modifies an existing expression, definition or rule',
  "Evaluating, matching, substituting, sorting, printing or defining never changes the structure of an expression that existed before: values of variables, stored rules, earlier inputs and outputs, and the operands of the operation keep their parts. A new result is built in new storage, or in storage the operation copied first, and once built into a result it is not changed again.",
  ['inputs', 'histories', 'schedules'], "every expression, definition state and evaluation order, including concurrent evaluation",
  CORE_WHY + "Corruption of a shared subexpression shows only when some other holder of it is inspected later, which samples of single evaluations do not do.",
  ['expreduce/atoms/ex_expression.go', 'expreduce/eval.go', 'expreduce/evalstate.go', 'expreduce/replace.go', 'expreduce/matcher', 'expreduce/iterspec', 'expreduce/builtin_*.go'],
  [('writes of parts, appends, sort and swap on expressions', 'expreduce/atoms/ex_expression.go'),
   ('copy before substitution', 'expreduce/matcher/pdreplace.go ReplacePD'),
   ('copy-on-write of evaluated arguments', 'expreduce/eval.go evalExpression')],
  technique="interprocedural ownership analysis over SSA (freshness of every structural write, no write after capture)",
  note="Every structural write (part stores, append, sort, swap, SetParts) must target storage created or copied by the writing code or required of every caller; cache fields (hashes, needsEval) are excluded here. Aliasing through maps and struct fields is resolved by field class.")

AI = "abstract interpretation of the SSA form over every combination of operand kinds (symbolic contents, %s)"

P('C04', 'Identity hashes cover kind and whole content unambiguously',
  "Two values are the same (SameQ, IsSameQ, repeated pattern variables, rule lookup) exactly if they have the same kind and the same content, up to collisions of the 64-bit hash itself; two reals are the same exactly if they are equal or adjacent as 64-bit floats. For every kind (Integer, Rational, Real, Complex, String, Symbol, Expression of any number of parts) Hash feeds a constant of its own and then every component of the content, in order, each in an encoding from which it can be recovered, with nothing else mixed in; no two different values of any kind feed the same bytes.",
  ['inputs'], "every pair of expressions",
  "A colliding or ignored component is visible only for the particular pair of values that differ in it; the tests compare a few. ",
  ['expreduce/atoms/ex_*.go', 'expreduce/atoms/sameq.go'],
  [('per-kind Hash methods', 'expreduce/atoms/ex_integer.go, ex_rational.go, ex_real.go, ex_complex.go, ex_string.go, ex_symbol.go, ex_expression.go'), ('IsSameQ', 'expreduce/atoms/sameq.go')],
  technique=AI % "hash input collected as a sequence of pieces",
  note="Expressions are analysed for 1 to 66 parts, the other kinds for all contents. Collisions of the hash function itself are outside the property.")

P('C06', 'Attribute names and flags correspond one to one',
  "For each of the 19 attributes, setting attributes from a list of names sets exactly the flags named in it, whatever else the list holds and in whatever order; listing the attributes of a flag set yields exactly the names of the set flags, each once, in alphabetical order and as System symbols; a symbol reports the flags of its own definition.",
  ['inputs'], "every list of attribute names and every flag set",
  "19 names and flags are connected by hand-written cases in two directions; a wrong or missing case only affects one attribute. ",
  ['expreduce/atoms/ex_symbol.go', 'pkg/expreduceapi'],
  [('names to flags', 'expreduce/atoms/ex_symbol.go StringsToAttributes'), ('flags to names', 'expreduce/atoms/ex_symbol.go AttrsToStrings, AttrsToSymList')],
  technique=AI % "lists of a name under test among arbitrary other names",
  note="Flag sets: empty, full, every single flag, every pair and every set lacking one flag; the two directions are decided for names in lists of unknown length.")

P('C07', 'The canonical order is antisymmetric and tells different values apart',
  "ExOrder, the order that Sort, Order and Orderless functions use, returns 1, 0 or -1, is antisymmetric, and returns 0 only for values that are identical. Numbers of any kinds are ordered by value (a Complex by its real part, then its imaginary part) and numbers of equal value by kind; numbers come before strings, strings before symbols, symbols before expressions; strings and symbol names are ordered by their first difference, a prefix first. Hence the canonical form of an Orderless expression does not depend on the order of its arguments.",
  ['inputs'], "every pair of values",
  "The order is a case analysis over pairs of kinds; tests sort a few lists, and equality of different values shows only when the input order varies. ",
  ['expreduce/atoms/order.go', 'expreduce/atoms/ex_expression.go'],
  [('ExOrder and its per-kind comparisons', 'expreduce/atoms/order.go'), ('sort.Interface of expressions', 'expreduce/atoms/ex_expression.go Less, Swap, Len')],
  technique=AI % "every outcome of comparing the symbolic contents; representative texts and expression shapes",
  note="All pairs of number kinds with every outcome of comparing real and imaginary parts; 44 texts of length up to 70; 32 expression shapes (general, powers, products, nested). Reals with NaN are outside the property.")

P('C08', 'Folding numbers is exact',
  "Combining the leading numbers of a sum or a product gives exactly their sum or product, for every combination and number of Integer, Rational, Real and Complex operands: real and imaginary parts are each combined by the exact formulas, the result has the widest kind among the operands, exact operands stay exact, the reported position is that of the first part that is not a number, and no number is lost or used twice. Converting a number to a wider kind keeps its value.",
  ['inputs'], "every list of numbers, followed by anything",
  "The result depends on the sequence of operand kinds, of which the tests sample few. ",
  ['expreduce/atoms/calculator.go', 'expreduce/atoms/ex_integer.go', 'expreduce/atoms/ex_rational.go', 'expreduce/atoms/ex_real.go', 'expreduce/atoms/ex_complex.go'],
  [('ComputeNumericPart', 'expreduce/atoms/calculator.go'), ('per-kind addition and multiplication', 'expreduce/atoms/ex_*.go')],
  technique=AI % "contents of numbers as rational functions of the operands, so that results are compared as formulas",
  note="All lists of up to two operands over 12 kinds, all of three over 4 kinds, and longer homogeneous runs; values are unrestricted. Rounding of Reals to their precision is treated as exact.")

P('C28', 'No input makes evaluation index outside a list of arguments or a string',
  "No expression, however malformed (missing, extra or oddly shaped arguments), and no program text makes the parser, the evaluator, the matcher, a builtin function or the printer read an argument or part position that the expression does not have, or a string position outside the string: every access to the parts of an expression, to an argument list or to a string is within its length on every path. The wrong number of arguments yields an unevaluated or error result, never a crash of the interpreter.",
  ['inputs'], "every expression and program text, every builtin function",
  CORE_WHY + "Each builtin function indexes its arguments behind hand-written length conditions; a missing one shows only for the particular malformed call.",
  ['expreduce/builtin_*.go', 'expreduce/evalstate.go', 'expreduce/eval.go', 'expreduce/replace.go', 'expreduce/matcher', 'expreduce/atoms', 'expreduce/parser', 'expreduce/iterspec', 'expreduce/graphics'],
  [('length guards of builtin functions', 'expreduce/builtin_*.go'), ('argument access helpers', 'expreduce/atoms/ex_expression.go, expreduce/atoms/atoms.go')],
  technique="dataflow over SSA: every index and slice is an obligation discharged from linear facts about lengths (dominating conditions, induction, summaries of callees, obligations at all callers)",
  note="Claimed for []Ex parts and argument lists and for strings. Tables that are not argument lists (work arrays, rows of nested lists, a cursor kept in a field, lexer token text) are counted in the evidence as not claimed. Assumes C02, C05 and that every expression has a head.")

P('C29', 'No unguarded type assertion can fail on malformed input',
  "No expression, program text or definition state makes the interpreter panic by asserting the wrong kind: wherever the code assumes without asking that an expression or a definition is of a particular kind, that kind is established on every path to that point, whatever the input.",
  ['inputs', 'histories'], "every expression and definition state, every unguarded type assertion",
  CORE_WHY + "An assertion panics only for the operand kind its author did not think of.",
  ['expreduce/builtin_*.go', 'expreduce/evalstate.go', 'expreduce/atoms', 'expreduce/matcher', 'expreduce/parser'],
  [('single-value type assertions', 'expreduce/**/*.go'), ('HeadAssertion and the kind tests of builtin functions', 'expreduce/atoms/ex_expression.go, expreduce/builtin_*.go')],
  technique="dataflow over SSA: every type assertion without a comma-ok is an obligation discharged from dominating kind tests, construction and summaries of callees and fields",
  note="Every single-value type assertion in the interpreter. Assertions in code that only builds the documentation are excluded.")

P('C30', 'No input makes the interpreter use a missing (nil) value',
  "No expression, program text or definition state makes the parser, the evaluator, the matcher, a builtin function or the printer dereference a nil pointer, call a method of a missing expression, or write to a missing map: results of lookups, searches, kind tests and library calls that can be missing are tested before use, and no missing expression is returned as a result, stored as a part of an expression or handed on as an expression.",
  ['inputs', 'histories'], "every expression, program text and definition state",
  CORE_WHY + "A missing value shows only in the state in which the lookup fails.",
  ['expreduce/builtin_*.go', 'expreduce/evalstate.go', 'expreduce/eval.go', 'expreduce/replace.go', 'expreduce/matcher', 'expreduce/atoms', 'expreduce/parser', 'expreduce/iterspec', 'expreduce/streammanager', 'expreduce/graphics'],
  [('lookups that can fail', 'expreduce/evalstate.go GetDef, expreduce/definition_map.go Get, expreduce/atoms/ex_expression.go HeadAssertion'), ('builtin functions returning expressions', 'expreduce/builtin_*.go')],
  technique="dataflow over SSA: every dereference, method call on an interface, map write and nil-sensitive store is an obligation discharged from dominating nil tests, construction, error results and summaries of callees and fields",
  note="Elements of argument lists are assumed non-nil, which the obligations at element stores and returns establish; parameters of exported functions are assumed non-nil when called from outside the interpreter.")

P('C38', 'No input ends the process',
  "No expression, program text, file or definition state makes the interpreter exit or abort deliberately: an error condition (invalid assignment, malformed syntax, missing definition, file that cannot be read or written, invalid pattern) is reported as a message or failure result, and the session goes on. No os.Exit, log.Fatal or explicit panic of the interpreter's own can be reached from evaluation, except panics that the same evaluation catches and turns into a result.",
  ['inputs', 'histories'], "every input to parser, evaluator and builtin functions",
  CORE_WHY + "Fatal error paths are by construction never taken by passing tests.",
  ['expreduce/builtin_*.go', 'expreduce/evalstate.go', 'expreduce/definition_map.go', 'expreduce/parser', 'expreduce/atoms', 'expreduce/matcher'],
  [('process-ending calls and panics', 'expreduce/**/*.go'), ('recovered panics', 'expreduce/parser/interp.go'), ('lookup of a missing definition', 'expreduce/definition_map.go, expreduce/evalstate.go GetDef')],
  technique="call-graph reachability and dataflow over SSA: every process-ending call and explicit panic is an obligation (recovered on every way, key present at every call, or unreachable)",
  note="Panics of the runtime are the subject of C28, C29, C30.")

P('C21', 'No failure is swallowed',
  "Whenever an operation the interpreter performs can fail with an error (reading or writing files, encoding or decoding saved definitions, parsing program text, compiling regular expressions, starting a profile), the error is looked at, and where it occurred the outcome differs from that of success: a failure result, an unevaluated expression, a message, or another attempt whose failure is reported. No failing operation goes on as if it had succeeded.",
  ['inputs', 'histories'], "every failing call in the interpreter",
  "Failing files and streams are not part of the tests, and a dropped error leaves no trace. ",
  ['expreduce/builtin_system.go', 'expreduce/parser', 'expreduce/evalstate.go', 'expreduce/logging', 'expreduce/streammanager', 'expreduce/builtin_string.go'],
  [('calls returning an error', 'expreduce/**/*.go')],
  technique="dataflow over SSA: every error result is an obligation (used, and its non-nil branch ends in a distinguishable outcome)",
  note="Writers in memory, hashes and terminal output are exempt; whether the message is apt is not decided.")

P('C37', 'Integers are never cut down to machine size',
  "An integer argument outside the 64-bit range is never mistaken for its remainder modulo 2^64: every builtin function, pattern construct and printer that turns an Integer of the language into a machine integer (part positions, counts, levels, iteration limits, seeds, exponents compared with 1 or -1) does so only where the integer is known to fit, and otherwise leaves the expression unevaluated or reports failure.",
  ['inputs'], "every Integer argument of every builtin function",
  CORE_WHY + "Only arguments beyond 2^63 show the difference. ",
  ['expreduce/builtin_*.go', 'expreduce/matcher/parse_form.go', 'expreduce/atoms/ex_complex.go', 'expreduce/iterspec'],
  [('Int64 and Uint64 of math/big', 'expreduce/**/*.go')],
  technique="dataflow over SSA: every conversion of a big integer to a machine integer is an obligation discharged from dominating range tests on the same number (in helpers and at callers too)",
  note="Overflow of machine arithmetic after the conversion is not decided.")

P('C12', 'Iteration visits exactly the specified values and restores its variables',
  "An iterator specification {i, max}, {i, min, max}, {i, min, max, step} or {i, list} is accepted exactly for a symbol or a function application as variable and numbers (or one list) as the rest; it visits min, min + step, min + 2 step, ... as long as the value does not exceed max, or every element of the list once, in order. Several iterators visit every combination exactly once, the last one varying fastest; if any range is empty, nothing is visited. Sum-like functions combine each visited value once, in order; a throw in a round ends them at once with what was thrown. Every builtin function that assigns iteration variables or changes definitions for its own use restores the complete earlier definitions (values, rules, attributes; also absence) on every way to its end.",
  ['inputs', 'programs'], "every iterator specification, body and earlier definition of the variables",
  CORE_WHY + "Off-by-one, restart and restoration errors depend on the combination of ranges and on what was defined before. ",
  ['expreduce/iterspec/iterspec.go', 'expreduce/builtin_list.go', 'expreduce/builtin_flowcontrol.go', 'expreduce/evalstate.go'],
  [('SpecFromList, iterators, MultiSpec', 'expreduce/iterspec/iterspec.go'), ('EvalIterationFunc', 'expreduce/builtin_list.go'), ('snapshots of definitions', 'expreduce/iterspec/iterspec.go, expreduce/evalstate.go GetDefined')],
  technique="abstract interpretation of the SSA form of the iterators (symbolic values, every outcome of every continuation test), plus a path analysis: every definition snapshot reaches its restoration",
  note="Up to three nested iterators and three rounds; a step of zero or below is compared with max in the same way.")

P('C22', 'Text goes to exactly the stream it is written to',
  "WriteString to the stream named stdout or stderr (alone or with its own number, 1 or 2) writes exactly the given text once to the process's stdout or stderr and reports success only if the writer did; any other name or number writes nothing and reports failure, and the builtin function WriteString makes exactly one such write and gives Null only if it succeeded. Streams lists each open stream once with its name and number, in order of the numbers.",
  ['inputs'], "every stream name, number, text and outcome of the writer",
  "The stream manager has no tests, and which stream was written is not visible to tests of results. ",
  ['expreduce/streammanager/streammanager.go', 'expreduce/builtin_string.go', 'expreduce/builtin_system.go'],
  [('table of open streams', 'expreduce/streammanager/streammanager.go'), ('WriteString', 'expreduce/builtin_system.go')],
  technique="abstract interpretation of the SSA form for every class of stream name and number, symbolic text and both outcomes of the writer",
  note="Names and numbers that are no constants of the code are represented by a few others.")

P('C23', 'Time counters add up and do not mix',
  "Every time added to a counter of a timing group under a key increases exactly that counter's total for that key by that time and its count by one; merging another group adds its totals and counts key by key and counter by counter; the printed report lists, for each counter, total, count and key in order of descending total with ties by key, whatever the order of insertion or of maps.",
  ['inputs', 'histories'], "every sequence of additions and merges",
  "The counters have no tests. ",
  ['expreduce/timecounter/timecounter.go'],
  [('counters and groups', 'expreduce/timecounter/timecounter.go')],
  technique="abstract interpretation of the SSA form over symbolic group contents for additions, merges and reports, under both iteration orders of maps",
  note="Sample times of which every partial sum is exact; up to four keys per counter.")

P('C39', 'Equality and comparison answers are right',
  "Equality of two expressions is decided TRUE only where they are equal (the same symbol, string or number; reals agreeing to the 14 digits printed; expressions part by part), and FALSE only for two different literals (numbers, strings) or for True and False; with a symbol or an expression that differs it is left undecided, and the verdict does not depend on the order of the two sides. Equal, Unequal, SameQ and UnsameQ of any number of operands combine these verdicts to True, False or unevaluated accordingly. Less, Greater, LessEqual and GreaterEqual compare exact numbers exactly and mixed ones as reals, and stay unevaluated for complex numbers and anything that is no number. Max and Min give the extreme number together with all operands that are not numbers.",
  ['inputs'], "every pair and list of atoms and expressions of all kinds",
  CORE_WHY + "A wrong verdict shows only for particular pairs of kinds or neighbouring values. ",
  ['expreduce/builtin_comparison.go', 'expreduce/atoms/sameq.go', 'expreduce/atoms/ex_integer.go', 'expreduce/atoms/ex_rational.go', 'expreduce/atoms/ex_complex.go', 'expreduce/atoms/ex_flt.go', 'expreduce/atoms/ex_string.go', 'expreduce/atoms/ex_symbol.go', 'expreduce/atoms/ex_expression.go'],
  [('IsEqual of every kind', 'expreduce/atoms/ex_*.go'), ('Equal, SameQ, Less, Max', 'expreduce/builtin_comparison.go'), ('IsSameQ', 'expreduce/atoms/sameq.go')],
  technique=AI % "kinds and representative neighbouring values, and every combination of verdicts of the operands",
  note="Numbers are represented by neighbouring and far values of each kind; up to four operands.")

P('C05', 'Copies equal their originals and share nothing that can change',
  "DeepCopy, Copy and ShallowCopy give a value of the same kind and content at every depth; a cached hash of the copy is either empty or that of the original, and a rational or complex number that still needs evaluation still does. A deep copy shares no expression, part list or big number with its original, Copy shares no expression or part list, and a shallow copy has a part list of its own holding the same parts. The constructors (NewExpression, E, NewHead) and the accessors of parts (AppendEx, AppendExArray, SetParts, GetPart, GetParts, Len, Swap, HeadStr, HeadAssertion, OperatorAssertion) do exactly what they say.",
  ['inputs'], "every value of every kind, expressions of any nesting of kinds",
  CORE_WHY + "A shared piece shows only when one of its holders is changed later and the other is looked at. ",
  ['expreduce/atoms'],
  [('DeepCopy, Copy, ShallowCopy of every kind', 'expreduce/atoms/ex_*.go'), ('parts', 'expreduce/atoms/ex_expression.go')],
  technique=AI % "objects compared for identity and content",
  note="Expressions are represented by nestings that hold every kind at depths one to three and lists of up to four parts.")

P('C09', 'Pattern constructs match exactly what they say',
  "Blank, Pattern, literals, Except, Alternatives, PatternTest, Condition, Optional, HoldPattern and the internal forms of rationals and complex numbers match exactly the expressions their definition says, and give exactly the bindings it says: an alternative that fails leaves no binding behind, a variable already bound must agree, every way in which a subpattern matches is tried until test or condition holds, and MatchQ is True exactly if there is such a match.",
  ['inputs'], "every target, every behaviour of subpatterns, tests and conditions, every binding made before",
  "The matcher tests that run only count sequence allocations; leftover or lost bindings need a particular combination of failing and succeeding subpatterns. ",
  ['expreduce/matcher'],
  [('match iterators of the pattern constructs', 'expreduce/matcher/matchq.go'), ('blanks', 'expreduce/matcher/blank.go'), ('bindings', 'expreduce/matcher/pdmanager.go')],
  technique=AI % "opaque subpatterns with every outcome",
  note="Named patterns other than name:Blank directly at the top of a pattern, and Verbatim, are not covered; subpatterns have up to two matches.")

P('C10', 'Sequence patterns try every assignment once, with consistent bindings',
  "Matching the elements of an expression against a list of pattern forms gives, one after the other and each exactly once, every assignment of the elements to the forms in which the number of elements each form takes fits (blanks one, BlankSequence one or more, BlankNullSequence any number, Repeated and RepeatedNull with their counts, optional forms one or none), each element matches its form and all occurrences of a variable agree; each comes with exactly its own bindings (a sequence for several elements, the default for an optional form left out). With Orderless the elements may be taken in any order, with Flat a form may take several elements as one expression with that head. In ordered matching shorter allocations of earlier forms come first.",
  ['inputs'], "every list of elements and forms and every behaviour of the subpatterns",
  "The stable tests check the allocation counts of a few forms, not the bindings, the backtracking between forms or the treatment of identical elements. ",
  ['expreduce/matcher'],
  [('allocation and assignment of sequences', 'expreduce/matcher/allocations.go, matchq.go'), ('definition of sequence variables', 'expreduce/matcher/pdmanager.go'), ('parsing of forms', 'expreduce/matcher/parse_form.go')],
  technique=AI % "opaque elements and subpatterns",
  note="Decided for up to three elements and three forms, every choice of identical elements, Orderless, Flat and OneIdentity heads; longer lists are out of the bound.")

P('C03', 'A changed value never keeps the hash of what it was',
  "The hash of an expression, integer or symbol that is kept in the object is always the hash of its present content: whenever code changes the parts of an expression (storing, appending, sorting, setting parts) or the number in an integer, in place or in a copy that carries the hash of its original, the kept hash is cleared before anything hashes, compares, copies, matches, stores or returns the object.",
  ['inputs', 'histories'], "every object and every sequence of operations on it",
  CORE_WHY + "A stale hash makes two different expressions the same, or an evaluated one unevaluated, only when the hash happened to be computed before the change. ",
  ['expreduce/atoms', 'expreduce/eval.go', 'expreduce/evalstate.go', 'expreduce/builtin_*.go', 'expreduce/matcher', 'expreduce/parser'],
  [('CachedHash, ClearHashes', 'expreduce/atoms/ex_expression.go'), ('cachedHash', 'expreduce/atoms/ex_integer.go, ex_symbol.go')],
  technique="interprocedural typestate analysis over SSA (clean, possibly cached, changed)",
  note="Objects reached through other objects are tracked one level below a fresh tree (parser); substitution is decided under C40.")

P('C40', 'Substitution replaces exactly the bound symbols, everywhere and at once',
  "Substituting pattern variables into an expression (ReplacePD) gives the expression with every occurrence of every bound symbol, at any depth and in any position including heads, replaced by its value, all at once: values are not substituted into again, other symbols, strings and numbers stay, and without bindings or occurrences the expression is unchanged. The expression substituted into and the values come out unchanged, and an expression that changed does not keep the cached hash of the original. ContainsSymbol is True exactly if the symbol occurs in the expression.",
  ['inputs'], "every expression and every set of bindings",
  CORE_WHY + "A missed position or a second pass over a value shows only for particular shapes of expression and value. ",
  ['expreduce/matcher/pdreplace.go', 'expreduce/atoms/ex_symbol.go'],
  [('ReplacePD', 'expreduce/matcher/pdreplace.go'), ('ContainsSymbol', 'expreduce/atoms/ex_symbol.go')],
  technique=AI % "expressions compared part by part with simultaneous substitution",
  note="Decided on 24 shapes of expression (every position, depth up to four, empty, repeated) with 12 sets of up to three bindings.")

P('C17', 'Syntax is read as the expression it denotes or refused',
  "Every construct of the grammar that has a meaning here (operators with their associativity, mixed chains of comparisons, lists, calls, parts, patterns with types and defaults, slots, functions, numbers, strings, message names, compound expressions, spans) is read as exactly the expression it denotes, with parentheses keeping nested operators apart and leaving no trace; a construct without a meaning here is refused with an error instead of being read as something else or ending the process. A symbol written without a context is the one known in the current context or the first context of the path that has it, and otherwise a new one in the current context; a full name is taken as it is, and every symbol read is known afterwards.",
  ['inputs'], "every syntax tree and every set of known symbols",
  "The stable tests do not read anything; a wrong table entry or a lost parenthesis gives a different expression without any error. ",
  ['expreduce/parser'],
  [('conversion of syntax trees', 'expreduce/parser/interp.go'), ('contexts', 'expreduce/parser/interp.go')],
  technique=AI % "syntax trees of every production",
  note="Trees have every production of the pinned grammar, every pair of nested operators with and without parentheses, chains of up to four; the generated lexer and parser themselves are taken as given.")

P('C18', 'What is printed in InputForm or FullForm reads back as the same expression',
  "The text that StringForm gives in InputForm or FullForm is read by the parser as the same expression, up to the arithmetic meaning of sums, products, powers and numbers (a - b for a + -1*b, 1/2 for Rational[1,2], Sqrt[x] for x^(1/2), nested sums and products flattened): operators get parentheses wherever their operands need them, also as heads and before [[, negative, rational and complex numbers too; quotes and backslashes in strings are escaped; a symbol is printed so that it is found again in its context; patterns are abbreviated only where this can be read.",
  ['inputs'], "every expression without HoldForm and other form wrappers",
  "Tests compare printed text for a few expressions; a missing parenthesis changes the meaning of what is copied back only for particular nestings. ",
  ['expreduce/atoms', 'expreduce/parser/parens', 'expreduce/string.go', 'expreduce/builtin_*.go', 'expreduce/parser/interp.go'],
  [('StringForm of every kind', 'expreduce/atoms/ex_*.go'), ('NeedsParens', 'expreduce/parser/parens/parens.go'), ('toString of the builtins', 'expreduce/builtin_*.go, string.go')],
  technique=AI % "round trips through the pinned grammar and the converter",
  note="Decided for every operator in every position of every other, every kind and sign of number in each position, patterns, parts, strings with special characters and nested contexts; symbols hidden by another of the same short name, reals needing more than six digits and Infix are not covered.")

P('C20', 'Evaluation follows the attributes of the head until nothing changes',
  "Evaluating a call evaluates its head and its arguments in order, except those the attributes of the head hold (HoldFirst, HoldRest, HoldAll, HoldAllComplete), splices Sequence (unless SequenceHold or HoldAllComplete), Evaluate (evaluated, unless HoldAllComplete) and Unevaluated, flattens nested calls of a Flat head, sorts the arguments of an Orderless head, threads a Listable head over lists of one common length, collects the conditions of ConditionalExpression arguments of a NumericFunction head; then the builtin function of the head is applied, and only if it leaves the call as it is the rules of the head; all this is repeated on the result until nothing changes. Return[v] as the value of a rule or of a symbol's definition gives v. A symbol with a value evaluates to that value, evaluated. A throw while evaluating a part ends the evaluation at once with the thrown value, and a trace in progress is put back.",
  ['inputs', 'programs'], "every call whose head has any set of these attributes, every outcome of evaluating its parts",
  CORE_WHY + "A slip shows only for particular combinations of attributes and values of the arguments.",
  ['expreduce/eval.go', 'expreduce/evalstate.go', 'expreduce/atoms/ex_expression.go'],
  [('the evaluation loop', 'expreduce/eval.go evalExpression'), ('splicing and threading', 'expreduce/eval.go mergeSequences, threadExpr'), ('conditional values', 'expreduce/atoms/ex_expression.go PropagateConditionals')],
  technique=AI % "opaque parts with prescribed outcomes, compared with a reference evaluation",
  note="Decided for no attribute, every attribute, every pair and three larger sets, calls of up to three arguments whose evaluation gives symbols, sequences, lists, nested calls, conditional values or throws; the evaluation of a part is taken to meet the same description. Cached evaluation of an expression that was evaluated before, and what Unevaluated leaves behind when nothing applies, are not part of it.")

P('C41', 'Pure functions bind exactly their parameters',
  "Applying Function[body] replaces every Slot[n] of the body by the n-th argument; applying Function[x, body] or Function[{x, y, ...}, body] replaces every x, y, ... of the body by its argument, in any position including heads; all are replaced at once, so that arguments are not substituted into. Inside a function in the body, slots of a function without named parameters are its own, and so are its named parameters; all other slots and parameters are replaced there too. Slots without an argument stay; more arguments than parameters are ignored; with fewer arguments than parameters, or for a function of another form, the call stays as it is. The function itself is not changed.",
  ['inputs', 'programs'], "every body, parameter list and list of arguments (arguments that do not mention a parameter of an inner function)",
  CORE_WHY + "Substituting one parameter after the other or into an inner function that rebinds it gives right answers for most arguments.",
  ['expreduce/eval.go'],
  [('application of pure functions', 'expreduce/eval.go evalFunction')],
  technique=AI % "compared with simultaneous substitution",
  note="Decided on 7 parameter lists and slots, 26 bodies up to two inner functions deep, up to 12 arguments including arguments that look like parameters. An argument that mentions a parameter of an inner function may be captured by it; such arguments are not part of the property.")

P('C36', 'Fractions and complex numbers evaluate to lowest terms',
  "Evaluating a fraction n/d gives the integer n/d if d divides n, otherwise the fraction in lowest terms with a positive denominator, Indeterminate for 0/0 and ComplexInfinity for any other n/0. Evaluating a complex number gives the complex number of its evaluated parts, or the real part alone if the imaginary part is exactly 0. The number evaluated keeps its content.",
  ['inputs'], "every numerator and denominator, every pair of parts",
  CORE_WHY + "Signs and sizes of numerator and denominator are cases that samples leave out.",
  ['expreduce/eval.go'],
  [('evaluation of fractions and complex numbers', 'expreduce/eval.go evalRational, evalComplex')],
  technique=AI % "compared with exact arithmetic",
  note="Decided for all fractions from -12/-12 to 12/12 and 105 fractions with numbers of up to 200 bits, and for complex numbers with parts of every kind.")

P('C42', 'Control structures evaluate exactly what they say, in order',
  "If, While, CompoundExpression, Which, Switch, And, Or, Not, Do, Table, Scan, Select, Catch, FixedPoint and With evaluate exactly the parts that their definitions ask for, in that order and as often, and give the value so defined. And and Or stop at the first False or True and keep what is undecided, in order; If, Which, While and Select act only on the symbols True and False (If and Not keep anything else as it is); Switch takes the first form that matches; Do and Table run through their iterators with the first outermost, binding each variable to its values in order; Break[] and Return[v] given by a statement of a CompoundExpression, or by the body of While or Do, end it there, and While and Do then give Null or v; Scan ends at Return[v] and gives v; what is thrown ends any of them at once and is given by Catch; With replaces all its variables at once, except those that an inner With rebinds. Calls of another form stay as they are.",
  ['inputs', 'programs'], "every call of these functions and every outcome of evaluating its parts",
  CORE_WHY + "An extra, missing or misplaced evaluation shows only when that part has side effects, throws, or changes from one round to the next. ",
  ['expreduce/builtin_flowcontrol.go', 'expreduce/builtin_boolean.go', 'expreduce/builtin_list.go', 'expreduce/builtin_scoping.go', 'expreduce/iterspec'],
  [('control structures', 'expreduce/builtin_flowcontrol.go'), ('And, Or, Not', 'expreduce/builtin_boolean.go'), ('Table, Select, Scan', 'expreduce/builtin_list.go, builtin_functional.go')],
  technique=AI % "opaque parts with prescribed outcomes, round by round, compared with the definition of the structure",
  note="Decided for 1,977 calls: up to five parts and three rounds, nine kinds of Break and Return, a throw in each round, sixteen kinds of value where a truth value is expected. Iterators with values other than literal numbers and lists are the subject of C12.")

P('C13', 'What is thrown ends every evaluation up to its Catch',
  "Once Throw has thrown a value, no further part is evaluated and no rule or builtin function is applied until Catch (or the end of the top-level evaluation) takes the value: every evaluation under way, and every one that is started, gives what was thrown, whether it was thrown by a part, by a builtin function or by the condition of a rule, and whatever attributes the head has. What was thrown is forgotten only by Catch and at top level, after it has been looked at. An expression whose evaluation threw goes through the same evaluations again when it is evaluated again.",
  ['inputs', 'programs'], "every expression, every point at which it throws, every attribute of its head",
  CORE_WHY + "A missing check lets a builtin function work on, or change definitions with, the remains of an evaluation that has been given up.",
  ['expreduce/eval.go', 'expreduce/evalstate.go', 'expreduce/builtin_*.go'],
  [('Eval, HasThrown, Throw', 'expreduce/eval.go, evalstate.go'), ('Catch', 'expreduce/builtin_flowcontrol.go')],
  technique=AI % "a throw before the evaluation and at each point of it, each evaluation repeated",
  note="Decided for no attribute and nine attributes, calls of up to three arguments, symbols and literals. What the control structures do when their parts throw is C42.")

P('C16', 'Evaluation uses the current definitions',
  "Evaluating an expression gives the value that the definitions and attributes in force at that time prescribe, also when the same expression has been evaluated before and is known to have been unchanged: any change of a definition since then (of its rules, attributes, default value or builtin function), also one made in the course of that evaluation, is taken into account. A list of rules in use by a definition is never changed in place.",
  ['histories', 'programs'], "every sequence of evaluations and changes of definitions",
  CORE_WHY + "A stale value appears only when an expression that was kept, in a list or in a definition, meets a later definition.",
  ['expreduce/eval.go', 'expreduce/evalstate.go', 'expreduce/definition_map.go', 'expreduce/builtin_pattern.go', 'expreduce/builtin_expression.go', 'expreduce/atoms/ex_expression.go'],
  [('marking as evaluated', 'expreduce/eval.go'), ('definition map', 'expreduce/definition_map.go'), ('lists of rules', 'expreduce/evalstate.go')],
  technique=AI % "the same object evaluated twice with different definitions; the definition map on every field of a definition; a scan of every write into a list of rules",
  note="Definitions are changed between two evaluations or during the first; the definition map is the one that Eval asks.")

P('C43', 'List and structure functions give what they are defined to',
  "On every expression, with any head: Map, MapIndexed and Apply act on exactly the parts at the levels named (n, {n}, {m, n}, negative numbers by depth, Infinity; without levels: level 1, for Apply the whole expression), innermost first, with the right positions, and Count counts exactly the parts at those levels that match; FoldList, NestList and Array give the nested calls in order; NestWhileList goes on while its test of the last m results (All, at most max applications, then n more) gives True; Part with indices, All and spans, at several levels, selects exactly those parts, or stays as it is if one is missing; Length, Head, Depth, LeafCount; Flatten (to a level), Reverse, Append, Prepend, Join, Thread, PadLeft, PadRight; Cases, DeleteCases and MemberQ by pattern; DeleteDuplicates, Sort, Union, Intersection and Complement. Order and repetition are those of the definition, heads are kept, the arguments are not changed, and calls of another form stay as they are.",
  ['inputs'], "every expression, level specification, index and count",
  CORE_WHY + "A wrong boundary shows only at a particular level, length or depth.",
  ['expreduce/builtin_list.go', 'expreduce/builtin_functional.go', 'expreduce/builtin_expression.go', 'expreduce/builtin_sort.go'],
  [('operations on lists', 'expreduce/builtin_list.go'), ('levels, folding and nesting', 'expreduce/builtin_functional.go'), ('measures, Flatten', 'expreduce/builtin_expression.go'), ('Sort', 'expreduce/builtin_sort.go')],
  technique=AI % "expressions of every shape compared with the definition of the operation",
  note="Decided for 11,320 calls on 21 shapes of expression, 109 level specifications, 23 indices and spans at one level and with 5 more at the next. Negative indices, negative counts, spans from 0 or with steps, rules with delayed right-hand sides and patterns with variables are not part of it (patterns: C09, C10).")

P('C44', 'Replacement uses the first rule that fits, outermost first',
  "expr /. rules tries the rules in their order on the whole expression, then on its head and parts, and so on inwards; the first rule of which the pattern matches and all conditions give True replaces that part, once, and nothing inside a replacement is replaced again. Where a pattern matches in several ways, they are tried in order until the conditions hold. Replace does the same to the whole expression only; ReplaceRepeated goes on until nothing changes; ReplacePart replaces exactly the parts whose position a rule's pattern matches, by the first such rule, with the position bound; ReplaceList gives the results of all matches in order; Cases gives the parts that match (or what a rule makes of them) in order; Switch gives the expression after the first pattern that matches. Expressions nothing applies to, and calls with other than these arguments, are left as they are.",
  ['inputs'], "every expression, every list of rules, every way a pattern matches, every outcome of a condition",
  CORE_WHY + "Rules that overlap, or patterns that match in several ways of which only a later one satisfies the condition, are rare in tests and common in use.",
  ['expreduce/builtin_replacement.go', 'expreduce/replace.go', 'expreduce/builtin_pattern.go', 'expreduce/builtin_flowcontrol.go', 'expreduce/builtin_list.go'],
  [('ReplaceAll, Replace, ReplacePart', 'expreduce/builtin_replacement.go'), ('applying a rule', 'expreduce/replace.go'), ('ReplaceList', 'expreduce/builtin_pattern.go')],
  technique=AI % "expressions of every shape and lists of rules that overlap, compared with simultaneous outermost replacement; the matcher (C09, C10) and the substitution of its bindings (C40) are taken as right",
  note="Decided for 15,368 calls on 16 shapes of expression, 17 patterns (literals, Blank with and without a head, named and repeated variables, BlankSequence) and conditions with prescribed outcomes. Flat and Orderless functions in rules are the subject of C10.")

P('C26', 'Definitions are kept and tried in the right order',
  "lhs = rhs and lhs := rhs give the symbol at the head of lhs exactly that rule in addition to those it has, or in the place of the one with the same left-hand side and the same conditions; its other rules keep their order, its attributes, default value and builtin function stay, and no other symbol changes. A rule without pattern comes before those with patterns, whatever the order in which they are defined; a rule without a condition whose left-hand side is an instance of another's (a blank replaced by a blank with a head or by an expression, a sequence by blanks or expressions, two variables by the same) comes before it, however the variables are named; rules with equal left-hand sides up to the names of variables, and rules with conditions among themselves, are in the order of definition. An expression is given the value of the first of these rules that matches and of which the conditions give True; a symbol its own value only. The arguments of the left-hand side are evaluated unless the head holds them; = gives the right-hand side and := gives Null. Clear removes all rules of the symbol and of no other. DownValues[f] lists the rules in this order, and setting it makes exactly these the rules; setting Attributes sets exactly those listed and keeps the rules. Nothing is defined while definitions are frozen, or for a left-hand side without a symbol as head, and a copy of the definitions has all of every definition.",
  ['inputs', 'histories'], "every sequence of definitions, every form of left-hand and right-hand side",
  CORE_WHY + "Programs are definitions: a rule that is dropped, or tried in the wrong place, changes their meaning, and which rules exist depends on the whole history of a session.",
  ['expreduce/evalstate.go', 'expreduce/builtin_system.go', 'expreduce/definition_map.go'],
  [('Define, GetDef, Clear', 'expreduce/evalstate.go'), ('Set, SetDelayed, DownValues', 'expreduce/builtin_system.go'), ('copies', 'expreduce/definition_map.go')],
  technique=AI % "sequences of definitions, and the rules after each compared with those before; the matcher is taken as right (C09, C10)",
  note="Decided for 7,400 sequences of two to four definitions out of 42 left-hand and 7 right-hand sides, 300 uses with four rules each. Instances of patterns with Alternatives, Except, Optional, Repeated and tests are not ranked, nor rules with conditions against rules with other patterns.")

P('C11', 'Nothing depends on the order of a Go map',
  "The same input gives the same results, messages, traces and listings in every run and every session: nothing that can be observed depends on the order, random in every run, in which Go visits a map or a concurrent map lists its entries. Wherever the interpreter goes over a map, or over a list of its keys, the iterations do not influence each other: they store only under their own key, set a flag, count, or collect into a list that is sorted by the elements before anything else is done with it (Names, the streams, bindings, time counters), and no iteration decides, by coming first or last, which value is kept or returned.",
  ['inputs', 'schedules'], "every map content and every order in which it is visited",
  CORE_WHY + "Go randomises the order on purpose, but for small maps a test usually sees one order, and comparing one run with itself shows nothing.",
  ['expreduce/matcher/pdmanager.go', 'expreduce/matcher/pdreplace.go', 'expreduce/builtin_*.go', 'expreduce/streammanager', 'expreduce/timecounter', 'expreduce/definition_map.go'],
  [('bindings', 'expreduce/matcher/pdmanager.go, pdreplace.go'), ('Names', 'expreduce/builtin_system.go'), ('streams', 'expreduce/streammanager/streammanager.go'), ('time counters', 'expreduce/timecounter/timecounter.go'), ('Intersection', 'expreduce/builtin_list.go')],
  technique="dataflow over SSA: the effects of the body of every loop over a map, and of the functions it calls, are classified as independent of the order or not; lists collected in such a loop are followed to a dominating sort",
  note="Random numbers, times and the scheduling of ParallelTable are not part of it. A sort is taken to distinguish all elements if it compares elements or their fields.")

P('C14', 'Locks are released, never taken twice, and not held while evaluating',
  "Concurrent evaluations never deadlock and no goroutine is left behind: on every path through every function a lock that was taken (the mutex of the logging setup, the lock of a definition, the locks inside the concurrent definition map) is released exactly once before the function ends, unless the function is one that takes it for its caller; while a lock is held no operation is called that may take the same lock again - in particular no definition is read or stored - and no expression is evaluated or printed; two locks are never taken in both orders. ParallelTable counts each goroutine before it starts, each says that it is done on every path, however it ends, and the result is returned only after all are done.",
  ['schedules', 'inputs'], "every interleaving and every path, including failures",
  CORE_WHY + "A deadlock needs a particular interleaving, or a particular definition printed at the wrong time.",
  ['expreduce/definition_map.go', 'expreduce/evalstate.go', 'expreduce/logging', 'expreduce/builtin_list.go'],
  [('definition map', 'expreduce/definition_map.go'), ('logging setup', 'expreduce/logging/caslogger.go'), ('ParallelTable', 'expreduce/builtin_list.go')],
  technique="interprocedural lockset analysis over SSA: what each function may take, leaves held and waits for, checked at every point of every path; dominance for the counting of goroutines",
  note="Locks are identified by the global or field that holds them. Data races on memory without a lock (hash caches, the state shared by the goroutines of ParallelTable) are not part of it.")

P('C45', 'Predicates, dimensions, permutations and partitions are right',
  "TrueQ, BooleanQ, AtomQ, NumberQ, VectorQ and MatrixQ of one argument give True exactly for True; for True and False; for everything that is not a compound expression; for numbers of every kind; for lists none of whose elements is a list; for lists of lists of one length none of whose elements is a list - and False for everything else. Dimensions gives the sizes of the levels at which all parts have the head of the whole and one length, wherever in the expression the levels stop agreeing. Permutations gives each distinct arrangement of the elements once, in the order of the positions of the elements; IntegerPartitions each way of writing an integer as a sum of at most so many positive integers once, largest first; Distribute distributes over every argument with the given head, in order. With other numbers or kinds of arguments the call stays as it is.",
  ['inputs'], "every expression, ragged and nested to any depth within the bounds",
  CORE_WHY + "Rules of the library are conditioned on these predicates; a wrong answer for one ragged or empty shape selects the wrong rule.",
  ['expreduce/qfunctions.go', 'expreduce/builtin_matrix.go', 'expreduce/builtin_combinatorics.go', 'expreduce/builtin_manip.go', 'expreduce/builtin_comparison.go', 'expreduce/builtin_boolean.go'],
  [('predicates', 'expreduce/qfunctions.go'), ('Dimensions', 'expreduce/builtin_matrix.go dimensions'), ('Permutations, IntegerPartitions', 'expreduce/builtin_combinatorics.go'), ('Distribute', 'expreduce/builtin_manip.go')],
  technique=AI % "expressions of every kind and shape, compared with the definitions",
  note="Decided for 748 calls on 48 shapes up to depth four, integers up to 6 with every bound on the number of parts.")

NA_ = "static analysis cannot decide it: "
P('C24', 'Evaluation of convergent definitions ends',
  "Evaluating an expression under definitions that rewrite it to a normal form in finitely many steps ends, and gives that normal form.",
  ['inputs', 'histories'], "every expression and every set of definitions",
  "Termination depends on the whole set of definitions.", ['expreduce/eval.go'], [('evaluation loop', 'expreduce/eval.go')],
  na=NA_ + "whether a rewriting system reaches a normal form is a runtime quantity of the definitions (undecidable in general); single steps of the evaluator are decided under C20 and C16.")
P('C32', 'The rules of the standard library are mathematically right',
  "Every rule that the library written in the language itself (the resource files) adds - derivatives, integrals, simplifications, sums, trigonometric values - rewrites an expression to one of equal value.",
  ['inputs'], "every instance of every rule", "Each rule has infinitely many instances.", ['expreduce/resources.go'], [('library', 'expreduce/resources')],
  na=NA_ + "the rules are data of the interpreter, and equality of the two sides is a question of mathematics, not of the source; a proof of each would be another family of technique.")
P('C33', 'Real arithmetic is correctly rounded',
  "The result of every operation on reals is the correctly rounded value of the exact result at the precision of its operands.",
  ['inputs'], "every pair of reals", "Rounding errors show for particular values only.", ['expreduce/atoms/ex_real.go', 'expreduce/builtin_power.go'], [('reals', 'expreduce/atoms/ex_real.go')],
  na=NA_ + "accuracy of powers and transcendental functions is a numerical quantity that no sound static argument in reach bounds (the arithmetic is that of math/big and math); that the right operations are applied is decided under C08.")
P('C34', 'PrimeQ, Prime and FactorInteger agree with number theory',
  "PrimeQ is true exactly for primes, PrimePi and Prime count and list them, and FactorInteger gives the prime factorisation.",
  ['inputs'], "every integer", "Errors show only for particular integers, such as pseudoprimes.", ['expreduce/builtin_numbertheory.go', 'expreduce/qfunctions.go'], [('number theory', 'expreduce/builtin_numbertheory.go')],
  na=NA_ + "the loops run as long as the value of the integer says and their invariants are divisibility facts; the primality test is probabilistic beyond 64 bits. Their memory safety and value semantics are covered by C01, C28 and C37.")
