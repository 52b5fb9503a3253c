import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Dice operators apply the named operator, in operand order, independently",
"For dice A, B and any number or sequence x (a sequence or list standing for its sum), A op B, A op x and x op A are the distribution of applying exactly that operator (+ - * // / ** %, == != < <= > >=, and/or) to a left value and a right value in that order, the two operands being independent, so each pair of faces weighs the product of its weights. Comparisons and and/or yield 1 for true and 0 for false. Unary minus, plus, abs, round, floor, ceil and trunc act on each face and keep its weight.",
["inputs"],"for all dice, numbers, sequences and all operators, on either side",
"The tests exercise a few dice with +, a handful of comparisons and & |; randvar_test marks comparison and arithmetic operators as TODO, and reflected operators with non-commutative operations on dice are never sampled.",
["src/randvar.py"],[("operator methods delegating to the two convolution helpers","src/randvar.py RV.__add__.. RV.__rand__, RV._convolve, RV._rconvolve, RV._apply_operation"),("pairwise convolution with accumulation","src/randvar.py _rdict.fast_convolve")])
p("C02","Sequences act as their sum, compare element-wise, index from one",
"In arithmetic and and/or a sequence behaves as the sum of its elements on whichever side it stands, in operand order, whatever the other operand (number, sequence, die). Compared with a number it yields how many elements satisfy the comparison; two sequences are compared position by position (a missing position being lower than any number) and satisfy ==, <, <=, >, >= only if every position does, while != is exactly the negation of ==. Position access counts from one, gives 0 outside the sequence, and a sequence of positions gives the sum of the selected elements. seqs_are_equal holds exactly for the same elements in the same order.",
["inputs"],"for all sequences (including text sequences), numbers and dice, for every operator on either side",
"Tests sample a few short integer sequences; reflected operators, text sequences, out-of-range and mixed-length cases with every operator are not covered.",
["src/seq.py","src/string_rvs.py"],[("operator methods over sum()","src/seq.py Seq.__add__ .. Seq.__rand__"),("comparison helper","src/seq.py Seq._compare_to"),("indexing","src/seq.py Seq.__getitem__, Seq.__matmul__, Seq.__rmatmul__")])
p("C03","The empty die follows one fixed algebra",
"The empty die is neutral in addition and subtraction (x + empty = empty + x = x - empty = x, empty - x = -x), neutral in or, absorbing in every other arithmetic, comparison, and-operation, unary operation and position access, and has length 0. The variant produced by a skipped function call or by rolling an empty number of dice instead stays empty in all arithmetic, gives 1 in every comparison, and, or and not, and has length 1; position 1 of it is itself and any other position is 0. This holds on either side of the operator and against numbers, sequences and dice.",
["inputs"],"for every operator, either side, both variants, every kind of other operand",
"The existing stable tests touch the empty die in two assertions; the website-derived suite that covers it cannot run offline.",
["src/blackrv.py","src/randvar.py"],[("operator methods of the empty die","src/blackrv.py BlankRV"),("dice defer to the empty die","src/randvar.py RV._convolve, RV._rconvolve")])
p("C04","Declared parameter types decide exactly what a function receives",
"A function whose parameter is declared number / sequence / die receives: a number as is / as a one-element sequence / as a constant die; a sequence or any other iterable as its sum / as a sequence of its elements / as the die with one equally likely face per element; a die as each of its values / as each sequence of values its individual dice can show / as is. The same holds for positional and keyword arguments, undeclared parameters and parameters with other annotations are passed through untouched, and an empty die passed as number or sequence skips the call and yields the empty-die variant while an empty die passed as die is passed through.",
["inputs","programs"],"for every declared type, every kind of actual argument (int, float, sequence, list, die, empty die), positional or keyword, any number of parameters",
"Tests cover one argument of each kind for one-parameter functions; floats, keyword/positional mixes, several dice and pass-through combinations are open-ended.",
["src/decorators.py","src/factory.py"],[("cast matrix","src/decorators.py anydice_type_casting wrapper"),("conversions","src/factory.py get_seq, get_rv")])
p("C05","Function results over dice combine as the exact joint mixture",
"When one or more arguments are dice that must be enumerated, the function is called once for every combination of their outcomes and the result is the mixture of the returned values, each weighted by the product of the probabilities of its outcomes. A returned die contributes its own distribution with total weight equal to that of its outcome (whatever scale its weights are stored in), a returned sequence contributes its sum, and outcomes returning nothing or the empty die are dropped and the rest renormalised; if all are dropped the result is the empty die.",
["inputs","programs"],"for every function, any number of dice arguments, any mixture of returned kinds and weights",
"Tests compare a dozen mixtures; unequal weights, nested dice with different totals, and dropped outcomes combine without bound.",
["src/decorators.py","src/randvar.py","src/factory.py"],[("enumeration and joint weight","src/decorators.py anydice_type_casting wrapper"),("mixture","src/randvar.py RV.from_rvs")])
p("C06","Using a value never changes it",
"No operation, function call, roll, conversion, output or comparison changes a die, a sequence or a text value that existed before the call, nor a list, dict or other container the caller passed in: its faces, weights, length, positions and printed description stay as they were. Values handed out by the library never share mutable storage with its internal state.",
["histories","inputs"],"for every sequence of library calls and every value alive before them",
"Aliasing shows only when a value is used again after another operation touched a shared object; tests build fresh values per assertion.",
["src/randvar.py","src/seq.py","src/string_rvs.py","src/roller.py","src/factory.py","src/decorators.py","src/funclib.py","src/output.py","src/utils.py","src/parser/python_resolver.py","src/parser/parse_and_exec.py"],[("immutable tuples in fields","src/randvar.py RV.__init__, src/seq.py Seq.__init__"),("shared cached dice","src/roller.py _MEMOIZED_ROLLS"),("copy before update","src/string_rvs.py StringVal.__add__")])
p("C07","Results depend only on arguments and current settings, not on history",
"The result of any library call or compilation is determined by its arguments and the settings in force at that moment; it does not depend on which calls were made before. In particular a remembered result is reused only for a request that would compute the same result under the current settings.",
["histories","configurations"],"for all histories of earlier calls and settings changes",
"A stale or wrongly shared cached result needs a particular earlier call; tests reset settings and rarely repeat requests.",
["src/roller.py","src/utils.py","src/randvar.py","src/seq.py","src/settings.py","src/parser/python_resolver.py","src/parser/myparser.py"],[("memoised rolls and their key","src/roller.py _roll_int_rv"),("memoised factorial","src/utils.py factorial"),("lazily stored sums","src/randvar.py RV._get_sum_probs, src/seq.py Seq.sum")],
[("_MEMOIZED_ROLLS","cache of n-dice sums","src/roller.py"),("SETTINGS","process-wide settings","src/settings.py")])
p("C08","Every die is in canonical form with up-to-date totals",
"Whatever operation produced it, a die lists each face exactly once in ascending order with non-negative integer weights in lowest terms, as many weights as faces and at least one face, so dice with the same distribution compare as the same die; faces that are truth values are stored as numbers, and truncation or removal of impossible faces happens exactly when the respective setting or argument asks for it. Totals derived from the weights are never stale after the weights are rescaled.",
["inputs","configurations","histories"],"for every construction route, weights of any size, every settings combination",
"Tests construct a dozen small dice; rescaled huge weights and grouping of arbitrary duplicates are not sampled.",
["src/randvar.py"],[("constructor normalisation","src/randvar.py RV.__init__, RV._sort_and_group, RV._get_new_zipped, RV._get_normalized"),("rescaling of huge weights","src/randvar.py _INTERNAL_PROB_LIMIT_VALS")],
[("vals/probs/sum_probs","faces, weights, cached total","src/randvar.py RV")])
p("C09","Function nesting depth is bounded and restored on every exit",
"A user function called at the maximum function depth is not entered and yields the empty die, with the truncation message printed once; every call entered below the limit runs one level deeper. However the call ends - normally, with no result, or by an exception at any point - the depth afterwards equals the depth before the call, so later calls are not truncated spuriously.",
["fault_sequences","programs","histories"],"for all call trees and all points at which a function body may raise",
"Needs exceptions escaping nested functions followed by further calls; no test does that.",
["src/decorators.py","src/settings.py"],[("depth decorator","src/decorators.py max_func_depth"),("every compiled function carries it","src/parser/python_resolver.py CONST func_decorator, src/decorators.py anydice_casting")],
[("INTERNAL_CURR_DEPTH","current nesting depth","src/settings.py")])
p("C10","Settings change only through validation and reset restores all defaults",
"A setting takes a new value only through the setter (or the setter statement of the language), only if the name is known and the value is legal for it (an order name, a positive integer, a boolean or its text form, a callable); a rejected request raises and leaves every setting as it was. Resetting restores every setting, internal ones included, to its default, in every part of the library, and never alters the defaults themselves.",
["inputs","histories","configurations"],"for all setting names and values and all sequences of set/reset calls",
"Tests set four valid values; invalid values, and observers in other modules after a reset, are not covered.",
["src/settings.py","src/decorators.py"],[("validation","src/settings.py settings_set"),("reset in place","src/settings.py settings_reset")],
[("SETTINGS, DEFAULT_SETTINGS","current and default settings","src/settings.py")])
p("C11","Positions of rolled dice follow the position-order setting on every route",
"Position k of n dice is the k-th highest value under 'highest first' and the k-th lowest under 'lowest first', and 0 when k is not between 1 and n. The same order is used on every route: a single position, a sequence of positions (the sum of the selected values), and sequences handed to functions that take the rolled dice as a sequence.",
["inputs","configurations"],"for all dice, numbers of dice, positions and both settings",
"Tests use lowest-first once without checking a value and never on the sequence routes.",
["src/randvar.py","src/decorators.py"],[("single position","src/randvar.py RV.__rmatmul__, RV._get_kth_order_statistic"),("enumerated rolls","src/randvar.py RV._get_expanded_possible_rolls, _sum_at")])
p("C12","roll(n, d) means n independent copies of d for every kind of n and d",
"Rolling once gives d itself, rolling n > 1 gives the sum of n independent copies remembering n and d for position access, 0 gives the constant 0, and -n gives the negation of n copies. A number of sides d means 1..d, 0 means the constant 0 and a negative d means d..-1; a sequence of sides means its elements equally likely; a sequence as count means its sum and a die as count means the mixture of the rolls weighted by that die. An empty die as sides or an empty sequence of sides gives the empty die, an empty die as count gives its variant.",
["inputs"],"for all counts and sides of every kind and sign",
"Tests sample about thirty combinations with small numbers.",
["src/roller.py","src/randvar.py","src/factory.py"],[("dispatch","src/roller.py roll, _roll"),("n-fold sum by halving","src/roller.py _roll_int_rv")])
p("C13","Sampling follows the distribution, and nothing else is random",
"Drawing a sample returns a face of the given die with probability proportional to its weight, one draw when no count is given and a tuple of exactly count independent draws otherwise, for dice, sequences and numbers alike. No other library call or compilation consumes randomness, reads the clock, files, environment or network, or spawns anything, so all other results are deterministic.",
["inputs","programs"],"for all dice and counts; for every other entry point",
"The sampler has no test at all, and absence of effects cannot be sampled.",
["src/roller.py","src/factory.py"],[("sampler","src/roller.py roller")])
p("C14","Output reports exactly once, to the right place, with the right content",
"An output request either prints one text exactly once, through the given print function or else the one in the settings, and returns nothing, or, when printing is off, returns that text and prints nothing. The text starts with the given name if any, shows mean and deviation, and, when the distribution is shown, one line per reported face with its percentage in ascending order, followed by a rule of the requested or default width; the empty die, an empty sequence and no value give only name and rule.",
["inputs","configurations"],"for all values, names, widths, print functions and flags",
"Tests compare two calls of one die; print routing, widths, names and empty values are not asserted.",
["src/output.py"],[("formatter","src/output.py output, _output_blank")])
p("C15","Distribution views list every face with its exact share",
"The list of faces and probabilities contains every face of the die exactly once, in order, with weight divided by total weight, so the probabilities sum to one; a cut removes a face only because it is among the least likely faces whose accumulated probability stays below the cut, never because of its value. The cumulative view gives each face the total weight of faces up to it, filtering removes exactly the listed faces and keeps the relative weights of the rest, the mean is the weighted average and the deviation the square root of the weighted mean square distance from it.",
["inputs"],"for all dice, cuts and filters",
"Tests use dice without a zero face and a few cuts; value-dependent mistakes need particular faces.",
["src/randvar.py"],[("faces and probabilities","src/randvar.py RV.get_vals_probs"),("cumulative view","src/randvar.py RV.get_cdf"),("filter and mean","src/randvar.py RV.filter, RV.mean")])
p("C16","Compilation rejects invalid programs and has no side effects",
"Compiling returns Python text only if the whole program was tokenised and parsed without error, produces at least one output, and every function it calls is defined in it or in the function library; otherwise it raises. Compiling never executes the program or any part of it, never changes the settings, the caller's flags or any other shared state, and unknown flags are rejected.",
["programs","configurations","histories"],"for all input texts and flag combinations",
"Two failing programs are tested; the set of invalid programs is unbounded and purity cannot be sampled.",
["src/parser/parse_and_exec.py","src/parser/python_resolver.py","src/parser/myparser.py"],[("error gates","src/parser/parse_and_exec.py compile_anydice, src/parser/myparser.py t_ANY_error, t_ANY_eof, p_error"),("existence and output checks","src/parser/python_resolver.py PythonResolver.resolve")])
p("C17","Every program the grammar accepts translates to well-formed Python",
"Every construct the parser accepts has a translation under every combination of compiler flags, and the resulting text is syntactically valid Python in which statements, blocks and nesting (functions, loops, if / else if / else, empty bodies, results, outputs) appear in the same order and structure as in the source. Number literals denote the same number as in the source.",
["programs","configurations"],"for all programs of the grammar and all flag combinations",
"Tests compile some sixty programs; leading zeros, duplicate parameters, unusual nestings and flag combinations are unbounded.",
["src/parser/myparser.py","src/parser/python_resolver.py"],[("grammar actions","src/parser/myparser.py p_*"),("node translation","src/parser/python_resolver.py PythonResolver.resolve_node")])
p("C18","Translation preserves operators and their grouping",
"Each operator of the language is translated to the operator with its documented meaning (= equality, != inequality, / integer division, ^ power, @ position, # length, ! not, d roll, & and, | or), applied to the same operands in the same order, in every compiler mode. The Python text groups operators exactly as the source does - unary operators first, then d, @, ^, * /, + -, comparisons, &, | with left-to-right grouping at each level, and parentheses respected - for every nesting.",
["programs","configurations"],"for all operator nestings and flag combinations",
"Grouping errors need particular operator pairs; tests contain a few pairs and no value for most.",
["src/parser/myparser.py","src/parser/python_resolver.py"],[("precedence table","src/parser/myparser.py precedence, p_expression_*"),("operator emission","src/parser/python_resolver.py resolve_node EXPR_OP, UNARY, HASH, GROUP")])
p("C19","Text in a program stays inert text",
"Any text inside string literals of a program appears unchanged in the value the translated program uses, with only [NAME] references replaced by the variable's value. No program text, whatever characters its strings, names, numbers or comments contain, can make the translated program contain code other than the translation of its constructs.",
["inputs","programs"],"for all string contents and all programs",
"Escaping depends on single characters (backslash, carriage return, braces, brackets); tests use plain words.",
["src/parser/python_resolver.py","src/parser/myparser.py"],[("string tokens","src/parser/myparser.py t_instring_*"),("string emission","src/parser/python_resolver.py resolve_node STRING, STRVAR")])
p("C20","Names in a program never capture names the translation relies on",
"Whatever names a program gives its functions, parameters and variables, they never redefine or shadow a name that the translated text itself uses for a different purpose (runtime functions, type markers, keywords, built-ins, scope variable), while library functions stay callable and user functions call what the program defined. Every name a translated program refers to is either defined by it or provided both by the execution library and by importing the whole package.",
["programs","configurations"],"for all function, parameter and variable names the lexer accepts, all flag combinations",
"A clash needs one specific name; the tests try one.",
["src/parser/python_resolver.py","src/parser/parse_and_exec.py","src/__init__.py"],[("collision set and renaming","src/parser/python_resolver.py _FUNCS_MAY_COLLIDE, resolve, FUNCTION and CALL translation"),("runtime library","src/parser/parse_and_exec.py _get_lib, src/__init__.py __all__")])
p("C21","Text values form one consistent value type",
"Text values that are equal have equal hashes, whatever order they were built in; exactly one of <, ==, > holds between two text values, <= and >= agree with them, and every text value is above every number. Adding text values or numbers in any order or grouping gives the same value, in which each text's coefficient is the sum of its coefficients.",
["inputs","histories"],"for all text values and sums of them",
"Tests compare four hand-made values, all built in one order.",
["src/string_rvs.py"],[("equality, order and hash","src/string_rvs.py StringVal.__eq__, _compare_to, __hash__"),("addition","src/string_rvs.py StringVal.__add__, __radd__")])
p("C22","Library functions take the documented types and compute what they say",
"Each built-in function takes its documented parameter types: absolute N, S contains N, count S in S, explode D, highest/lowest/middle N of D, highest/lowest of N and N, maximum of D, reverse S, sort S. Each yields what its name says: |N|; whether S has an element N; the number of matches; re-rolling and adding on the maximum face at most 'explode depth' times; the sum of the N highest, lowest or middle dice (under the default position order); the larger or smaller number; the largest face; the reversed sequence; the sequence in descending order.",
["inputs","configurations"],"for all arguments of every castable kind and all explode depths",
"funclib_test marks highest/lowest/middle and highest-of/lowest-of as TODO: they are called but not checked.",
["src/funclib.py"],[("library functions","src/funclib.py")])
p("C23","In non-local-scope mode callees see, but never alter, the caller's variables",
"With the non-local-scope compiler flag every reference, assignment, loop variable and string reference of a program variable goes through the scope table; every user function is passed its caller's table, works on its own copy and has its parameters stored in it. So a function sees the variables of its caller at the time of the call and nothing it assigns is visible after it returns.",
["programs"],"for all programs compiled with the flag",
"Tests check one program; the rule must hold for every construct that reads or writes a variable.",
["src/parser/python_resolver.py"],[("scope-table emission","src/parser/python_resolver.py resolve_node VAR, VAR_ASSIGN, LOOP, STRVAR, FUNCTION, CALL")])
p("C24","Enumerated rolls of n dice carry exact multinomial weights",
"When n dice are enumerated as sequences, every multiset of n faces occurs exactly once, in a sorted order, and weighs the number of its distinct orderings times the product of its faces' weights, so that the enumeration is the exact distribution of the sorted roll. One roll enumerates each face once with its own weight.",
["inputs"],"for all dice with arbitrary weights and all n",
"Tests sample a few dice; weights of repeated faces need non-uniform dice.",
["src/randvar.py"],[("enumeration","src/randvar.py RV._get_expanded_possible_rolls"),("factorial","src/utils.py factorial")])
p("C25","Ranges, sequences, digits and logic of programs mean what the language says",
"A range a..b is the whole numbers from a to b inclusive (none if b < a; a die as bound is rejected). A sequence built from numbers, nested sequences, lists and ranges has exactly their elements, in order, repetitions kept; a die in it contributes each of its faces once per occurrence, the empty die nothing. The die of a number always shows it; the die of a sequence shows each element equally likely, repetitions counted, and 0 if there is none. Position k of a whole number is its k-th digit from the left (0 outside), its length its number of digits. !, & and | give 1 or 0 by whether operands are non-zero, a sequence counting as its sum and a die face by face. Two values are the same die exactly if they have the same faces with the same shares.",
["inputs"],"for all numbers, nestings, sequences and dice, and every operand kind of the helper functions",
"Tests build a few sequences; order, repetition, nesting and dice inside sequences, and the helper functions the compiled text calls, are only met in passing.",
["src/factory.py","src/seq.py","src/utils.py","src/roller.py","src/randvar.py"],[("sequence construction","src/factory.py get_seq, src/seq.py Seq.__init__, src/utils.py flatten"),("ranges","src/roller.py myrange"),("helpers","src/utils.py mymatmul, mylen, myinvert, myand, myor"),("die construction","src/factory.py get_rv, src/randvar.py RV.from_seq, RV.from_const"),("equality","src/randvar.py RV.dices_are_equal")])
p("C26","The text of a value follows only from how it was made",
"A roll of n plain dice with k sides is shown as [n]dk: the number of dice without sign and only if it is more than one, the sides without sign, a leading minus if exactly one of n and k is negative, and d{0..0} for the sides if either is zero. Sides given as a plain die with k sides count as k. Any other rolled die is [n]d{?} (d{0..0} if n is zero), an unrolled result of arithmetic, comparison, position access or a function is d{?}, a sequence {?}, the empty die d{} and its variant d{?}. No later use of a die, nor rolling others, changes its text.",
["inputs","histories"],"for all whole n and k, all dice and sequences, all operators, and every earlier use",
"The description is carried by remembered state that rolls, memoised rolls and copies share; no unit test of the repository looks at it outside recorded examples of program output labels.",
["src/roller.py","src/randvar.py","src/seq.py","src/blackrv.py"],[("description set on rolling","src/roller.py _setup_str_LHS_RHS, roll"),("rendering","src/randvar.py RV.__str__"),("others","src/seq.py Seq.__str__, src/blackrv.py BlankRV.__str__")])
# not applicable
p("N01","Rescaling huge weights keeps probabilities within a stated error",
"When weights grow past the internal limit they are rescaled so that every reported probability stays within 1e-9 of the exact one.",
["inputs"],"for all dice with total weight above the limit","Numerical error over unbounded integers.",["src/randvar.py"],[("rescaling","src/randvar.py _INTERNAL_PROB_LIMIT_VALS")])
p("N02","Mean and deviation are numerically accurate",
"The reported mean and standard deviation agree with the exact values to floating-point accuracy for every die, including very large faces.",
["inputs"],"for all dice","Floating-point cancellation over unbounded values.",["src/randvar.py"],[("mean and std","src/randvar.py RV.mean, RV.std")])
p("N03","Programs give the same results as on anydice.com",
"Any program that runs on anydice.com gives the same distributions when compiled and executed here.",
["programs"],"for all AnyDice programs","The reference implementation is a website; its behaviour is not in the repository.",["src/parser/python_resolver.py","src/randvar.py"],[("compiler and runtime","src/")])
p("N04","Rolls and compilations finish in bounded time",
"Rolling n dice takes a number of convolutions logarithmic in n and every compilation terminates in time polynomial in the program length.",
["inputs"],"for all inputs","Timing quantifies over runtime quantities.",["src/roller.py","src/parser/ply/yacc.py"],[("halving and memoisation","src/roller.py _roll_int_rv")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
