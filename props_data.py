NOTE = ('Holds for every path of the analysed functions, under the abstraction described in DESIGN.md: loops are summarised at their '
        'heads, the functions of the pinned code base are opaque unless a rule follows them, clang 18 resolves the program. Trusted: clang, '
        'the fact extractor, the analysis engine and the rule tables under rules/.')

prop('C01', 'Only assumptions, checked steps and rule patterns create proofs',
     'A term stands for a proof only if it was introduced by an assumption command (it then proves exactly the formula given there), is the '
     'checked result of a step, or is the pattern of a premise in a declared rule. No other command, builtin symbol, option or plugin can '
     'introduce a proof.',
     ['inputs', 'programs'], 'every command sequence and every term that can be written in any input file',
     'The tests only contain correct proofs; none tries to obtain a proof object by any other way.',
     ['src/cmd_parser.cpp', 'src/state.cpp'],
     [('State::mkProof and its callers', 'src/state.cpp'), ('assume, assume-push', 'src/cmd_parser.cpp')],
     tech='who-may-call over the resolved call graph plus path-sensitive value flow in the command parser')
prop('C02', 'A step is accepted only with a checked conclusion of type Bool',
     'A step or step-pop is accepted only if its rule application was checked with success, the result has type Bool, the result is '
     'fully evaluated, and it is equal to the conclusion stated in the step if one was stated. The name of the step is bound to a proof '
     'of exactly this result.',
     ['inputs'], 'every step command, with any rule, premises, arguments and stated conclusion',
     'All tests are proofs that check; a step that is wrongly accepted would not make any of them fail.',
     ['src/cmd_parser.cpp', 'src/state.cpp'],
     [('step case of CmdParser::parseNextCommand', 'src/cmd_parser.cpp'), ('State::notifyStep', 'src/state.cpp')],
     tech='path-sensitive dataflow (value numbering, branch facts) over the command parser and the rule checker')
prop('C03', 'A rule is applied to exactly what the step gives and the rule declares',
     'Applying a rule to a step passes the premises, arguments, popped assumption and stated conclusion of the step, each exactly once '
     'and in order, to the pattern of the rule that was built from its declaration in the same order. The application is rejected if the '
     'number of given items differs from the declared ones, if no case of the rule matches, or if the requirements do not evaluate.',
     ['inputs', 'programs'], 'every declared rule (with any combination of its attributes) and every step that uses it',
     'The tests only use matching pairs of declarations and steps; a mismatch that is accepted is never exercised.',
     ['src/cmd_parser.cpp', 'src/state.cpp', 'src/type_checker.cpp', 'src/expr_info.h'],
     [('declare-rule', 'src/cmd_parser.cpp'), ('State::notifyStep', 'src/state.cpp'), ('TypeChecker::match/evaluateProgram', 'src/type_checker.cpp')],
     tech='path-sensitive dataflow comparing the declaration side and the application side of rules')
prop('C04', 'Premise lists collect the formula of every premise, in order',
     'A rule declared with a premise list receives one proof whose formula applies the declared constructor to the formulas of all '
     'premises of the step, in their order, and for no premises the nil terminator of the constructor. A step with a premise that is not '
     'a proof, or with no premises where the constructor has no nil terminator, is rejected.',
     ['inputs'], 'every step for a rule with a premise list, with any number and kind of premises',
     'The tests contain a few steps with premise lists, all with proofs as premises.',
     ['src/state.cpp'], [('State::notifyStep', 'src/state.cpp')],
     tech='path-sensitive dataflow with loop summaries over the rule application')
prop('C05', 'Local assumptions are closed by exactly one step-pop and not used outside',
     'Every assume-push opens a local scope that only a step-pop closes; the step-pop consumes the assumption of the innermost open scope '
     'and everything introduced in it goes out of scope. An input that ends with an open local scope, or a step-pop without one, is '
     'rejected.',
     ['inputs', 'histories'], 'every sequence of assume-push, step-pop, push, pop and include commands',
     'The tests contain a handful of well nested examples; unbalanced sequences and mixtures with push and pop are not tested.',
     ['src/cmd_parser.cpp', 'src/state.cpp', 'src/main.cpp'],
     [('assume-push, step-pop, push, pop', 'src/cmd_parser.cpp'), ('State::pushAssumptionScope, popAssumptionScope, pushScope, popScope', 'src/state.cpp')],
     tech='typestate and pairing over all paths, value flow of the assumption stack')
prop('C06', 'With a reference file, an assumption must be one of its assertions',
     'If a reference file was given, every assume command of a proof is accepted only if its formula, after the reference normalization '
     'if one is defined, is an assertion of the reference file normalized in the same way. This holds in every file and scope once the '
     'reference file was read, and assumptions of local scopes (assume-push) are exempt.',
     ['inputs', 'histories', 'configurations'], 'every reference file, proof and order of include commands',
     'A few tests use a reference file, always with assumptions that are found in it.',
     ['src/state.cpp', 'src/cmd_parser.cpp', 'src/main.cpp'],
     [('State::addAssumption, addReferenceAssert, includeFile', 'src/state.cpp')],
     tech='path-sensitive dataflow and who-may-write over the reference state')
prop('C07', 'The verdict reflects what was checked and every failure is a nonzero exit',
     'The program prints correct and ends with status zero only after all input was read and accepted and no applied rule was declared '
     'with :sorry; if one was, it prints incomplete instead. Every error ends the program with a nonzero status and without a verdict.',
     ['inputs', 'configurations'], 'every input, every set of options and every rule used',
     'All tests expect one fixed verdict; error paths and options are not covered.',
     ['src/main.cpp', 'src/base/check.cpp', 'src/base/check.h', 'src/state.cpp', 'src/expr_parser.cpp', 'src/cmd_parser.cpp', 'src/lexer.cpp'],
     [('main', 'src/main.cpp'), ('FatalStream', 'src/base/check.cpp'), ('State::markProofRuleSorry, isProofRuleSorry', 'src/state.cpp')],
     tech='typestate and path facts over main, no-return analysis of the failure functions, who-may-write')
prop('C08', 'Requirements guard conclusions and hold only for identical ground terms',
     'The conclusion of a rule declared with requirements is guarded by every one of them. A requirement is met, and then gives exactly '
     'the guarded term, only if both its sides are ground, fully evaluated and identical; otherwise it does not evaluate.',
     ['inputs', 'programs'], 'every rule with requirements and every application of it',
     'The tests use requirements that are met; a conclusion that escapes an unmet requirement is not tested.',
     ['src/type_checker.cpp', 'src/state.cpp', 'src/cmd_parser.cpp', 'src/expr_parser.cpp'],
     [('State::mkRequires', 'src/state.cpp'), ('EVAL_REQUIRES in TypeChecker::evaluateLiteralOpInternal', 'src/type_checker.cpp')],
     tech='path-sensitive dataflow with loop summaries, who-may-handle over the operator kind')
prop('C09', 'Programs give the body of their first case that matches',
     'A call of a program evaluates only if all its arguments are ground and fully evaluated; the result is the body of the first case, in '
     'order, whose whole pattern matches the arguments, evaluated under the substitution of that match. A pattern matches only if one '
     'consistent substitution of its parameters makes it identical to the arguments, and otherwise the case is skipped.',
     ['inputs', 'programs'], 'every program and every call of it',
     'The tests call a few programs on a few terms; wrong matches on other shapes of terms stay unnoticed.',
     ['src/type_checker.cpp'],
     [('TypeChecker::match', 'src/type_checker.cpp'), ('TypeChecker::evaluateProgramInternal, evaluateProgramApp', 'src/type_checker.cpp')],
     tech='path-sensitive dataflow with inductive loop obligations over the matching algorithm and the program evaluator')
prop('C29', 'Evaluation replaces each subterm by the value its kind and children determine',
     'Evaluating a term under a substitution gives each subterm the value that its kind and the values of all its children, in order, '
     'determine: a parameter gives what it is bound to, a program or builtin operator its result on the values, a conditional the branch its '
     'condition selects, and anything else the same operator applied to the values of its children. A cached result is only used for the same call.',
     ['inputs', 'programs'], 'every term and substitution that is evaluated',
     'The tests evaluate a few ground terms; wrong values in partly evaluated, shared or non-ground terms stay unnoticed.',
     ['src/type_checker.cpp'],
     [('TypeChecker::evaluate, EvFrame', 'src/type_checker.cpp')],
     tech='path-sensitive dataflow with inductive loop obligations over the evaluation stack')
prop('C25', 'List operators compute the documented list',
     'A builtin list operator evaluates only if its list arguments are lists of the given function that end in its terminator, in the direction '
     'in which the function associates. Its result is then exactly the one the manual gives: order and multiplicity of elements are respected, '
     'positions count from zero, and an argument that needs no change is returned as it is.',
     ['inputs'], 'every function declared with a terminator, either direction, and all argument lists',
     'The tests evaluate each operator on a handful of short lists, mostly of right-associative functions.',
     ['src/type_checker.cpp'],
     [('TypeChecker::evaluateLiteralOpInternal (list operators)', 'src/type_checker.cpp'), ('getNAryChildren, isNAryList, prependNAryChildren', 'src/type_checker.cpp')],
     tech='path-sensitive dataflow with inductive loop obligations over the list operators')

prop('C12', 'Builtin operators on literals compute what they name',
     'Every builtin arithmetic, bit-vector, Boolean and string operator, applied to literals of a kind it supports, yields exactly the specified '
     'combination of all its arguments (in order, with arguments of equal bit width where that is required), as a literal of the specified kind. '
     'It has no value exactly for kinds of literals it does not support, for a zero divisor, for unequal bit widths or for conversions out of range.',
     ['inputs'], 'every builtin operator on every combination of literal kinds and all their values',
     'The tests evaluate each operator on a few small literals; they do not cover the combinations of operator and kind nor the boundary positions.',
     ['src/literal.cpp'],
     [('Literal::evaluate', 'src/literal.cpp'), ('allSameKind, allSameBitWidth', 'src/literal.cpp')],
     tech='Abstract interpretation of the operator dispatch for every pair of operator and literal kind, compared with a table of normal forms')

prop('C13', 'Numbers, bit vectors and strings are exact',
     'Integers, rationals and strings of any size are computed with exactly: sums, products, quotients, comparisons, bitwise combinations, parts and conversions have their '
     'mathematical value, with Euclidean quotient and remainder of integers, rationals in lowest terms, and bit vectors always reduced to their width. A bit vector that is read has '
     'the width of its digits and is written with all of them; strings are compared, cut and searched character by character. An escape sequence of a string is the '
     'character it denotes if it is well formed, and is kept exactly as it is written otherwise.',
     ['inputs'], 'all values of the literals of all proofs, of any size and sign',
     'The tests compute with small and mostly positive numbers and plain strings, for which rounding down, truncation, missing reduction or a lost character make no difference.',
     ['src/util/integer.cpp', 'src/util/rational.h', 'src/util/rational.cpp', 'src/util/bitvector.cpp', 'src/util/bitvector.h', 'src/util/string.cpp'],
     [('Integer', 'src/util/integer.cpp'), ('Rational', 'src/util/rational.h'), ('BitVector', 'src/util/bitvector.cpp'), ('String', 'src/util/string.cpp')],
     tech='Abstract interpretation to normal forms over the operations of the arithmetic library, with inductive invariants of the loops over characters')

prop('C16', 'Literals are stored and read in the representation of their kind',
     'The value of a literal is always built, copied and read in the representation that belongs to its kind: a value is never reinterpreted as one '
     'of another kind. Copies keep the kind and the complete value, and symbols never get the kind of a literal.',
     ['inputs'], 'all literals built by the parser and by the evaluation of any term',
     'Reading a value in the wrong representation is undefined behaviour that often goes unnoticed on the small values the tests use.',
     ['src/literal.h', 'src/literal.cpp', 'src/state.cpp', 'src/type_checker.cpp', 'src/expr.cpp'],
     [('Literal', 'src/literal.h'), ('State::mkLiteral, State::mkLiteralInternal', 'src/state.cpp')],
     tech='Typestate analysis of a tagged union: every construction and every access is dominated by the matching tag')

prop('C22', 'Diagnostics observe and never decide',
     'Statistics, traces, assertions, warnings and explanations of failures never influence what is accepted, computed or remembered: code that '
     'exists or runs only for them changes nothing but what they print, and the values of statistics are only printed. Apart from them, '
     'debug and release builds are the same program, and a check gives the same answer whether or not an explanation of a failure is asked for.',
     ['inputs', 'configurations'], 'all inputs under every combination of build type, trace tags and statistics options',
     'The tests run one build with few options; a difference shows up only for a combination of input and option that no test runs.',
     ['src/state.cpp', 'src/type_checker.cpp', 'src/cmd_parser.cpp', 'src/stats.cpp', 'src/base/check.h', 'src/base/output.h'],
     [('Trace, Assert, EO_FATAL', 'src/base/check.h'), ('d_statsEnabled', 'src/cmd_parser.cpp'), ('TypeChecker::getType', 'src/type_checker.cpp')],
     tech='Effect analysis of diagnostic expressions and of the regions guarded by diagnostic options; comparison of the resolved code of both builds')

prop('C23', 'The verdict depends only on the input',
     'Checking the same input with the same options always gives the same answer: nothing depends on time, randomness, the environment, addresses of '
     'objects, the order of containers sorted by address, or on values that were never assigned. The number of a term is given out when it is first '
     'asked for, is different for different terms, and never changes during a run.',
     ['inputs', 'histories'], 'all inputs, memory layouts and histories of term creation and deletion',
     'A test sees one memory layout per run; dependence on addresses or on uninitialised memory usually stays unnoticed.',
     ['src/state.cpp', 'src/type_checker.cpp', 'src/expr.cpp', 'src/lexer.cpp', 'src/cmd_parser.cpp', 'src/main.cpp'],
     [('State::getHash', 'src/state.cpp'), ('processAttributeMaps', 'src/expr_parser.cpp'), ('evaluateListMPredInternal', 'src/type_checker.cpp')],
     tech='Queries over the resolved program for nondeterministic sources and address-dependent order; definite-assignment dataflow; value numbering of the term numbering')

prop('C18', 'Equal terms are one object, and terms never change',
     'A term is built only if there is none with the same kind and children (or, for a literal, the same kind and value); otherwise the '
     'existing one is used. So two terms are equal exactly if they are the same object, and the kind, children and value of a term never '
     'change after it was built.',
     ['inputs', 'histories'], 'all terms, in every order in which they are built and deleted',
     'The tests compare few terms; a second copy of a term shows up only in the history and with the operation that compares the two copies.',
     ['src/state.cpp', 'src/expr_trie.h', 'src/expr.h', 'src/expr.cpp', 'src/literal.h'],
     [('State::mkExprInternal, mkLiteralInternal', 'src/state.cpp'), ('ExprTrie::get', 'src/expr_trie.h'), ('Expr::operator==', 'src/expr.cpp')],
     tech='Value flow with inductive loop obligations over the term tables; who-may-build and who-may-write queries over the resolved program')

prop('C19', 'Terms stay alive exactly as long as they are used',
     'A term is deleted when, and only when, nothing refers to it any more: every reference and every parent counts it once. Before a term is '
     'freed, it is forgotten by all tables that find terms by address, children or value, and no other term is forgotten with it. What is '
     'remembered by address only, such as results during an evaluation, statistics and sorry marks, is about terms that are kept alive meanwhile.',
     ['histories', 'inputs'], 'all histories in which terms are built, shared and deleted',
     'Use of a deleted term usually goes unnoticed until its memory is reused, which depends on the history and the allocator.',
     ['src/expr.cpp', 'src/state.cpp', 'src/expr_trie.h', 'src/type_checker.cpp'],
     [('Expr, ExprValue::inc, dec', 'src/expr.cpp'), ('State::markDeleted', 'src/state.cpp'), ('ExprTrie::remove', 'src/expr_trie.h'), ('TypeChecker::evaluate', 'src/type_checker.cpp')],
     tech='Path-sensitive reference-count and typestate analysis of handles and of deletion; escape queries for raw term addresses')

prop('C10', 'Applications are desugared as their operator declares',
     'An application of several arguments means what the attribute of its operator says: associative operators combine the arguments in the declared '
     'direction and end in the nil terminator or the given list, list arguments are concatenated, chainable and pairwise operators combine all '
     'neighbours or pairs in order, argument lists, opaque arguments and the variables of binders are packed in order. Every other operator, and every '
     'function type, takes one argument after the other; no argument is lost, repeated or moved. '
     'A definition that is given as many arguments as it has parameters is its body, with every parameter replaced by the argument in its place.',
     ['inputs'], 'all operators, attributes and numbers of arguments',
     'The tests use few numbers of arguments and few combinations of attributes and list arguments.',
     ['src/state.cpp', 'src/type_checker.cpp'],
     [('State::mkApplyAttr', 'src/state.cpp'), ('State::mkApplyInternal, mkFunctionType', 'src/state.cpp'), ('State::mkExpr', 'src/state.cpp'), ('State::mkBinderList', 'src/state.cpp')],
     tech='Path-sensitive value flow with inductive loop obligations: the term built for every attribute is matched against the declared fold')

prop('C17', 'Ground and evaluatable terms are recognised',
     'A term is ground exactly if it contains no parameter, and it is evaluatable exactly if it contains a program or a builtin operator. All '
     'parameters of a term are found, however deep they occur and however often their terms are shared.',
     ['inputs'], 'all terms',
     'A wrong answer shows up only for terms with a particular nesting and sharing of parameters, programs and builtin operators.',
     ['src/expr.cpp', 'src/expr.h', 'src/kind.cpp'],
     [('ExprValue::computeFlags', 'src/expr.cpp'), ('Expr::getVariables, hasVariable', 'src/expr.cpp'), ('isLiteralOp', 'src/kind.cpp')],
     tech='Loop-inductive value flow over the traversals; constant-set queries over the resolved kinds')

prop('C14', 'Terms are read as they are written',
     'A parenthesised term is read as the application of its head to all its arguments in the order in which they are written, a let makes its '
     'bindings together before its body is read, and the variable list of a binder becomes its first argument. A literal token is read as the literal '
     'it denotes in the notation of its kind, normalised only where the options ask for it; a quoted symbol is the text between its bars, and a string '
     'is the text between its quotes with two quotes standing for one.',
     ['inputs'], 'all token sequences',
     'A term that is misread is checked as a different term, and that shows only for particular nestings, literals or options.',
     ['src/expr_parser.cpp', 'src/state.cpp', 'src/literal.h'],
     [('ExprParser::parseExpr, parseExprList, unescapeString, tokenStrToSymbol', 'src/expr_parser.cpp'), ('State::mkLiteral', 'src/state.cpp')],
     tech='Loop-inductive value flow over the reader seen as a pushdown machine, with the ordered effects of every step')

prop('C20', 'Names mean what was bound last in the open scopes',
     'A name stands for the term that was bound to it last among the bindings made at the outermost level and in the scopes still open; closing a '
     'scope gives every name bound in it the meaning it had before, including earlier overloads, or none. Terms, commands and datatype definitions '
     'close exactly the scopes they open, push and pop open and close as many as asked for, and what a command declares stays bound after it. A '
     'name that is not bound is rejected.',
     ['inputs', 'histories'], 'all sequences of declarations, scopes and terms',
     'A binding that leaks or vanishes is noticed only when a name is rebound, overloaded or used after particular scopes were closed.',
     ['src/state.cpp', 'src/expr_parser.cpp', 'src/cmd_parser.cpp'],
     [('State::bind, pushScope, popScope, getVar', 'src/state.cpp'), ('ExprParser::parseExpr, parseAndBindSortedVarList, parseDatatypesDef', 'src/expr_parser.cpp'),
      ('CmdParser::parseNextCommand', 'src/cmd_parser.cpp')],
     tech='Value flow over the symbol table operations, scope-depth typestate over every command and over the reader')

prop('C32', 'A use of a name with several meanings is the newest one that fits',
     'When a symbol with several meanings is applied, the newest meaning for which the application has a type, built by the rules of that meaning, is '
     'chosen, and another is used only if no meaning fits. A type ascription chooses, in the same order, the newest meaning that, applied to arguments of the '
     'given argument types, has the given return type. Only a symbol that is the current meaning of its name stands for the other meanings.',
     ['inputs'], 'all overloaded symbols and arguments',
     'A wrong choice needs several overloads with particular types, attributes and orders of declaration.',
     ['src/state.cpp'],
     [('State::getOverloads, getOverloadInternal', 'src/state.cpp'), ('State::mkExpr (APPLY, AS)', 'src/state.cpp')],
     tech='Loop-inductive value flow over the search and its uses')

prop('C15', 'A term has the type its parts determine, or none',
     'A term has a type only if all its subterms have one; an application only if its head has a function type with that many arguments and every argument '
     'matches what is declared for it under one substitution, which then gives its type. Literals have the type declared once for their kind, builtin '
     'operators the type of what they compute, and an unevaluated type is no type. Where a type, a formula or a term of a given type is required, a term of '
     'another type is rejected.',
     ['inputs'], 'all terms and declarations',
     'An ill-typed term that is accepted shows only for particular declarations, dependent types and argument positions.',
     ['src/type_checker.cpp', 'src/expr_parser.cpp', 'src/state.cpp'],
     [('TypeChecker::getType, getTypeInternal, getTypeAppInternal, getLiteralOpType, getOrSetLiteralTypeRule', 'src/type_checker.cpp'),
      ('ExprParser::parseType, parseFormula, typeCheck', 'src/expr_parser.cpp')],
     tech='Loop-inductive value flow over the traversal and the argument matching; per-kind result tables')

prop('C34', 'Declarations and definitions give names exactly what they state',
     'A declaration gives its name a new symbol of exactly the declared type, with its parameters as arguments in order, and with the attribute declared '
     'for it; a definition gives it exactly the defined term, over all its parameters in order, after checking it against the type that is stated. A program '
     'is defined at most once and by all of its cases in order, each an application of that program to all its arguments whose pattern contains no evaluation '
     'and whose result has no other variables. A kind of literals gets exactly the one type declared for it.',
     ['inputs'], 'all declarations, definitions and programs',
     'Parameters that are quoted, opaque or implicit, attributes with parameters and cases beyond the first few combine in ways no suite enumerates.',
     ['src/cmd_parser.cpp', 'src/expr_parser.cpp', 'src/state.cpp', 'src/type_checker.cpp'],
     [('CmdParser::parseNextCommand', 'src/cmd_parser.cpp'), ('ExprParser::parseAttributeList, processAttributeMap, typeCheckProgramPair', 'src/expr_parser.cpp'),
      ('State::mkFunctionType, mkTypeConstant, mkDisambiguatedType', 'src/state.cpp')],
     tech='Value flow over every command; loop-inductive rules for parameters, cases and attributes')

prop('C31', 'Datatypes declare exactly what they say',
     'Every datatype that is announced is defined, as a sort of its arity; each of its constructors maps the types of its fields, in order, to the datatype, '
     'and its selectors, updaters and testers have the types that go with it; all of them are bound to their names. The lists of constructors and of '
     'selectors a term evaluates to are those declared, in order, with constructors whose fields do not determine the datatype used at it.',
     ['inputs'], 'all datatype declarations',
     'Parametric datatypes, ambiguous constructors and mutual recursion with given arities combine in ways tests do not sample.',
     ['src/cmd_parser.cpp', 'src/expr_parser.cpp', 'src/state.cpp', 'src/type_checker.cpp'],
     [('ExprParser::parseDatatypesDef, parseConstructorDefinitionList', 'src/expr_parser.cpp'), ('TypeChecker::evaluateLiteralOpInternal', 'src/type_checker.cpp')],
     tech='Loop-inductive value flow: per-iteration rules for fields, constructors and datatypes')

prop('C27', 'The input is split into exactly the documented tokens',
     'Every byte of the input is read once and in order until its end, and the longest sequence of characters that the lexical grammar allows (comments, '
     'quoted and simple symbols, keywords, string, bit, hexadecimal and decimal literals, with or without a minus sign) becomes one token with that text; '
     'anything else is rejected. The names of commands and the words that are no symbols are those of the kind of input that is read. A token that is put back '
     'is read again next, and a required token is required.',
     ['inputs'], 'all inputs',
     'A wrong token needs a particular character at a particular place, a block boundary of the input or its end.',
     ['src/lexer.h', 'src/lexer.cpp', 'src/cmd_parser.cpp', 'src/parser.cpp'],
     [('Lexer::computeNextToken, tokenizeCurrentSymbol, parseCharList, Lexer', 'src/lexer.cpp'), ('Lexer::readNextChar, nextChar, saveChar', 'src/lexer.h'),
      ('CmdParser::CmdParser, nextCommandToken', 'src/cmd_parser.cpp')],
     tech='Typestate product of the paths of the lexer with the lexical grammar; table extraction for classes and commands')

prop('C11', 'Builtin operators are named and applied as documented',
     'Every builtin operator is bound to its documented name, printed by that name, and evaluated for exactly the documented number of arguments; with another '
     'number it has neither a value nor a type. The operators that may take more than two arguments, and only those, combine them from the left.',
     ['inputs'], 'all builtin operators and numbers of arguments',
     'There are some sixty operators in six tables that must agree; a test exercises one entry of one table.',
     ['src/state.cpp', 'src/kind.cpp', 'src/type_checker.cpp'],
     [('State::State, bindBuiltin, bindBuiltinEval, mkExpr', 'src/state.cpp'), ('TypeChecker::checkArity', 'src/type_checker.cpp'), ('kindToTerm, isLiteralOp', 'src/kind.cpp')],
     tech='Table extraction by constant propagation per kind; value flow of the application of operators')

prop('C21', 'A file is read once, from where the file that names it says',
     'An included file with a relative path is looked up in the folder of the file that includes it, and an absolute path is used as it is, without superfluous /, . and .. segments; '
     'a file is read to its end the first time it is included by a path and not again after that, and then relative paths refer to the including file again. '
     'Files given by options are read before the input, in the order given, and each file is read as what it was included for: signature, reference or proof.',
     ['inputs', 'histories'], 'all include graphs, path spellings and command lines',
     'Tests include a handful of files from a handful of folders; the state that resolves a path is shared by all files read.',
     ['src/state.cpp', 'src/main.cpp', 'src/cmd_parser.cpp', 'src/util/filesystem.cpp'],
     [('State::includeFile, markIncluded', 'src/state.cpp'), ('main', 'src/main.cpp'), ('CmdParser::parseNextCommand (include, reference)', 'src/cmd_parser.cpp'), ('Filepath::makeCanonical, parentPath, append, isAbsolute', 'src/util/filesystem.cpp')],
     tech='Path-sensitive value flow and typestate of the inclusion of files; per-iteration rules for the canonical form of paths')

prop('C26', 'Reset leaves nothing declared and forgets nothing that counts',
     'After reset, every builtin name means what it meant at the start and no other name, proof rule, overload, scope, assumption or declared type of literals remains. '
     'What was accepted before still counts: the reference, the rules that are marked as incomplete, and the rules that were used are as before.',
     ['histories'], 'all histories before a reset',
     'A reset has to undo every effect of every command; a test observes the names it happens to use again.',
     ['src/state.cpp', 'src/type_checker.cpp', 'src/cmd_parser.cpp'],
     [('State::reset, State', 'src/state.cpp'), ('TypeChecker::resetLiteralTypeRules', 'src/type_checker.cpp'), ('CmdParser::parseNextCommand (reset)', 'src/cmd_parser.cpp')],
     tech='Value flow: the state at every exit of reset, member by member; who writes the initial tables')

prop('C24', 'Options have their documented names, defaults and effects',
     'Every option has its documented default and is known by exactly its documented name; --X turns it on, --no-X turns it off and set-option gives it the '
     'value true or false, changing no other option except that a form of statistics implies statistics. What is no option is not taken for one and changes no '
     'option, options are read before anything else is done, and those that set how terms are printed, where rules are looked up and which statistics are '
     'printed have that effect.',
     ['inputs', 'configurations'], 'all command lines and all set-option commands',
     'There are 2^9 settings and any order of arguments; the tests run with a few of them.',
     ['src/main.cpp', 'src/state.cpp', 'src/cmd_parser.cpp', 'src/expr.cpp', 'src/type_checker.cpp'],
     [('Options::Options, setOption', 'src/state.cpp'), ('main', 'src/main.cpp'), ('CmdParser::parseNextCommand (set-option)', 'src/cmd_parser.cpp'), ('Expr::printDebug', 'src/expr.cpp'), ('State::getProofRule', 'src/state.cpp')],
     tech='Table extraction by constant propagation per name; per-iteration rules for the command line; value flow')

prop('C28', 'A plugin is told exactly what happens',
     'A plugin that is set is told, once each and with exactly what is at hand, of every scope that is opened or closed, file that is read, name that is bound or defined, '
     'attribute, program, type of literals, assumption, step, message and reset, in the order in which they happen; a term or program it says it evaluates has the '
     'value it gives, a step it takes proves what it says if that is fully evaluated, and a message it takes is not printed. Without a plugin nothing is asked.',
     ['inputs', 'configurations'], 'all inputs and all plugins',
     'The repository has no plugin at all: no test runs any of these paths.',
     ['src/state.cpp', 'src/type_checker.cpp', 'src/cmd_parser.cpp', 'src/main.cpp', 'src/plugin.h'],
     [('State::pushScope, popScope, reset, includeFile, setLiteralTypeRule, bind, notifyAssume, notifyStep, defineProgram, define, echo, markConstructorKind, setPlugin', 'src/state.cpp'),
      ('TypeChecker::evaluate, evaluateProgramInternal', 'src/type_checker.cpp')],
     tech='Typestate of the notifications on every path; null-dereference guards; value flow of their arguments')

prop('C30', 'Deep terms and long runs need no deep recursion',
     'Applications nested to any depth are parsed, constructed, typed, evaluated, matched, compared, printed and freed, and programs that call programs to any depth are run, '
     'without calls nested as deep. Functions call themselves, directly or by others, only for what is written inside of attributes, lists of '
     'variables and let bindings, for files that include files, and for single operators and applications whose arguments are already there.',
     ['inputs'], 'all terms and all programs',
     'A recursion over terms passes every test and overflows the stack only on proofs that are deeper than the ones tested, as generated proofs are.',
     ['src/expr.cpp', 'src/expr_parser.cpp', 'src/state.cpp', 'src/type_checker.cpp'],
     [('ExprValue::computeFlags, Expr::hasVariable, getVariables, printDebugInternal', 'src/expr.cpp'), ('TypeChecker::evaluate, match, getType', 'src/type_checker.cpp'),
      ('ExprParser::parseExpr', 'src/expr_parser.cpp'), ('State::mkExpr, markDeleted', 'src/state.cpp')],
     tech='Strongly connected components of the call graph (virtual calls, function references and lambdas included) against a reviewed table of cyclic calls')

prop('C33', 'Checking ends, in time and space proportionate to the work stated',
     'A proof whose programs terminate is checked in finite time; time and memory follow the number of distinct terms and of program calls, not the size of terms as trees.',
     ['inputs'], 'all terminating inputs',
     'Cost depends on sharing and on the order in which programs are called, which tests of fixed size do not vary.',
     ['src/type_checker.cpp', 'src/expr.cpp', 'src/state.cpp'],
     [('TypeChecker::evaluate', 'src/type_checker.cpp')],
     tech='none',
     na='Time and memory are runtime quantities: termination depends on the programs in the input (a Turing-complete language), and a bound on the cost needs amortised '
        'arguments about caches and sharing. No sound static argument in reach decides it; the static part, that no call is nested as deep as the term, is C30, and that caches are keyed and hit correctly is C18 and C19.')

prop('C35', 'What is printed can be read back as the same term',
     'A term printed in an error message or trace, given back as input under the same declarations, is parsed as the same term.',
     ['inputs'], 'all terms',
     'It relates the printer, the lexer and the parser for every term under every set of declarations.',
     ['src/expr.cpp', 'src/expr_parser.cpp', 'src/lexer.cpp'],
     [('Expr::printDebugInternal', 'src/expr.cpp'), ('ExprParser::parseExpr', 'src/expr_parser.cpp')],
     tech='none',
     na='The composition of printer and parser depends on the declarations (n-ary attributes, overloads, opaque arguments) in force at runtime and is false for some terms by design '
        '(overloaded and shadowed names, terms under a binder). The static parts are decided: the names of operators (C11), how literals are written and escaped (C13), how text is split (C27) and parsed (C14).')

prop('C36', 'Arbitrary precision arithmetic computes the mathematical result',
     'Sums, products, quotients, remainders and conversions of numbers of any size are exact.',
     ['inputs'], 'all numbers',
     'An error would need particular digits.',
     ['src/util/integer.cpp', 'src/util/rational.cpp'],
     [('Integer, Rational', 'src/util')],
     tech='none',
     na='The digits are computed by the GMP library, whose sources are not part of the repository; that the right GMP operation is applied to the right operands, with the right rounding and signs, is C12 and C13.')
