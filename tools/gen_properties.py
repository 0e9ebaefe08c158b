#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
S = "src/tomsolver/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "Parsing a well-formed text yields the expression its grammar denotes",
  "Parsing any well-formed expression text yields an expression with the value and variables the grammar gives it: functions (sin cos tan sqrt log log2 log10 exp and asin/arcsin, acos/arccos, atan/arctan) bind tightest, then unary + and -, then %, then & and |, then ^ (right-associative), then * and /, then + and - (all other binary operators left-associative), and parentheses override. "
  "White space between tokens (space, tab, newline, vertical tab, form feed, carriage return) never changes the meaning, and any numeric literal (decimal, fractional, or with an optionally signed exponent) denotes the nearest double. "
  "Any identifier of ASCII letters, digits and underscores that does not start with a digit, of any length, and is not a function name or a spelling of infinity/NaN denotes the variable of exactly that name.",
  ["inputs"], "every text derivable from the grammar, of any length, nesting, spacing and literal/identifier spelling",
  "The tests parse a few dozen fixed texts and one family of random texts made only of + - * / on numbers; the set of operator combinations, spacings, literals and names is infinite.",
  [S+"parse.cpp", S+"parse.h", S+"math_operator.cpp", S+"node.cpp"],
  [("lexer", S+"parse.cpp ParseToTokens"), ("shunting-yard by operator rank and associativity", S+"parse.cpp InOrderToPostOrder"), ("rank table", S+"math_operator.cpp Rank/IsLeft2Right")],
  ["Parse / _f result evaluated with Subs + Vpa, GetAllVarNames"])

p("C02", "Parsing any byte string is total and accepts exactly the grammar",
  "For every byte string, parsing terminates without crashing and either returns a complete expression (every operator has its operands) or throws an exception derived from std::runtime_error. "
  "It returns an expression exactly when the text is a well-formed expression of the grammar: empty or blank text, empty parentheses, missing operands, adjacent operands without an operator, postfix operators, unmatched parentheses and illegal tokens are all rejected (a function name directly followed by another function name, as in 'sin cos(x)', may be either). "
  "When the only fault is illegal tokens the single-error exception reports line 0 and the offset of the first illegal token, and when the only fault is unmatched parentheses it reports the first unmatched ')' or, if there is none, an unmatched '('.",
  ["inputs"], "every byte string, including NULs, non-ASCII bytes, very long tokens and token soup",
  "The tests try about twenty hand-written malformed texts; malformed texts are unbounded and each slips through a different state of the lexer, the operator stack or the tree builder.",
  [S+"parse.cpp", S+"parse.h", S+"node.cpp"],
  [("token validation", S+"parse.cpp ParseToTokens"), ("parenthesis balance and operand/operator alternation", S+"parse.cpp InOrderToPostOrder"), ("operand checks", S+"parse.cpp BuildExpressionTree")],
  ["return/throw of Parse, SingleParseError::GetPos/GetLine"])

p("C03", "Printing an expression and parsing it back preserves its meaning",
  "For every expression tree with finite numbers, its printed text can be parsed, and the parsed expression has the same variables and, at every assignment, the same value as the original (up to the rounding of printed numbers and the regrouping of chains of +,- and of *,/). "
  "The text therefore contains every parenthesis needed to keep operand order, sign, precedence and associativity, for every nesting of operators, functions, signs and negative numbers. "
  "Printing does not modify the expression, and printing equal trees gives equal texts.",
  ["inputs"], "every expression tree over all operators, built through the API or by parsing",
  "Tests compare the text of a few dozen trees; the parenthesisation rule depends on parent/child operator pairs, sides, signs and depth, whose combinations the tests do not cover.",
  [S+"node.cpp", S+"math_operator.cpp", S+"parse.cpp", S+"config.cpp"],
  [("in-order printer with parenthesis rule", S+"node.cpp ToStringNonRecursively"), ("rank/associativity tables", S+"math_operator.cpp")],
  ["ToString / operator<< then Parse then evaluation"])

p("C04", "Numbers print in a canonical decimal form that reads back accurately",
  "For every finite double, the printed text is a plain decimal literal without redundant trailing zeros or a trailing decimal point; it reads back (with strtod) as exactly the same value when the magnitude is at least 1 or at most 1e-16, and otherwise differs from it by at most 1e-16. "
  "Scientific notation is used exactly when the magnitude is at least 1e16 or at most 1e-16 and non-zero, both zeros print as 0, and the sign is kept for all other values. "
  "The library's own parser accepts the text of every normal double and reads the same value as strtod.",
  ["inputs"], "every finite double bit pattern",
  "Tests check a handful of constants; there are 2^64 bit patterns and the interesting ones lie at the notation and rounding boundaries.",
  [S+"config.cpp", S+"parse.cpp"],
  [("format selection and zero stripping", S+"config.cpp ToString"), ("number token recognition", S+"parse.cpp ParseToTokens")],
  ["ToString(double)", "Num(v)->ToString()", "Parse(text)->Vpa()"])

p("C05", "Evaluating a constant expression is exact IEEE double evaluation",
  "Evaluating an expression without variables returns exactly the double obtained by applying, bottom-up at each node, the C library double function or IEEE operation of that node to its operands' values, with operands in written order. "
  "The operators &, | and % act on both operands truncated toward zero to int, with % following C's sign rule; operands outside the int range and a % by a truncated zero give an invalid number (NaN). "
  "Plain evaluation leaves the expression unchanged and in-place evaluation turns it into that single number.",
  ["inputs"], "every variable-free expression tree and every operand value",
  "Tests evaluate fixed small expressions and random + - * / chains; wrong operand order, a wrong function or a wrong corner only shows for particular operators, nestings and operand values.",
  [S+"node.cpp", S+"math_operator.cpp"],
  [("post-order evaluation with value stack", S+"node.cpp VpaNonRecursively"), ("per-operator arithmetic", S+"math_operator.cpp Calc")],
  ["Vpa, Calc, free Calc(op, v1, v2)"])

p("C06", "Invalid numbers and unbound variables are always reported, per the policy",
  "With the default policy, evaluating an expression throws the math error of kind invalid-number exactly when some operation in it yields an infinity or NaN, and so never returns a non-finite value (given finite literals). "
  "With the throw-on-invalid-value policy off, no such error is raised and the IEEE result is returned, and the policy may be switched at any time with effect on the next evaluation. "
  "Evaluating an expression that contains any variable throws std::runtime_error under either policy, and an evaluation that throws leaves the expression unchanged.",
  ["inputs", "configurations"], "every expression, position of the invalid operation, and policy setting or switch",
  "Tests probe a few divisions by zero and logs; an invalid intermediate can arise at any operator and depth and be masked by later operations (1/inf = 0), which no fixed sample covers.",
  [S+"math_operator.cpp", S+"node.cpp", S+"config.h"],
  [("finite check after each operation", S+"math_operator.cpp Calc"), ("variable check", S+"node.cpp VpaNonRecursively")],
  ["Vpa/Calc outcome (value or exception type and kind)"])

p("C07", "Expressions are independent values under every sequence of operations",
  "Whatever sequence of building, copying, moving, compound assignment (also with the same expression on both sides), cloning, in-place evaluation, simplification, differentiation and substitution is performed, every expression still held has exactly the structure its own history gives it: operations on one expression never change another, and operands passed by const reference are left intact. "
  "A clone is equal to and disjoint from its original, equality holds exactly for structurally identical trees, and the parent links inside each tree stay consistent. "
  "All memory is released when the expressions are destroyed, with no use after free.",
  ["histories"], "every finite sequence of API operations on a pool of expressions, including aliased operands",
  "Tests exercise single operations on fresh operands; aliasing and stale parent links need multi-step histories.",
  [S+"node.h", S+"node.cpp", S+"subs.cpp", S+"diff.cpp", S+"simplify.cpp"],
  [("copy-or-move into parent", S+"node.cpp CopyOrMoveTo"), ("iterative clone/equal/release", S+"node.cpp"), ("operator templates", S+"node.h")],
  ["ToString, Equal, CheckParent, allocation counts, sanitizers"])

p("C08", "Simplification never aborts and never changes the value of an expression",
  "Simplifying any expression terminates normally (also when it contains invalid constant operations such as 1/0 or log(-1), which are left for evaluation to report) and introduces no new variables. "
  "At every assignment where the original evaluates to a finite value (and no subterm is 0^0), the simplified expression evaluates to the same value. "
  "A variable-free expression that evaluates without error becomes that single number, and simplifying an already simplified expression changes nothing.",
  ["inputs"], "every expression tree, assignment and policy setting",
  "Tests compare a few simplified texts; the rewrite rules combine bottom-up in unboundedly many ways.",
  [S+"simplify.cpp", S+"math_operator.cpp"],
  [("bottom-up single-node rewriting", S+"simplify.cpp")],
  ["Simplify, then Subs + Vpa, ToString, GetAllVarNames"])

p("C09", "The symbolic first derivative is the true partial derivative",
  "For every expression built from numbers, variables, + - * / ^, unary signs and the elementary functions, and every variable name, the symbolic derivative evaluates, at every point where the expression is differentiable with all operations strictly inside their domains (a power needs a positive base, or a non-zero base with an integer exponent not involving the variable), to the partial derivative with respect to that variable, up to rounding. "
  "In particular it is 0 everywhere when the variable does not occur, and variables other than the named one are treated as constants. "
  "Differentiation introduces no new variables and leaves an expression passed by const reference unchanged.",
  ["inputs"], "every differentiable expression, variable name and evaluation point",
  "Tests compare fixed texts for about twenty derivatives; the rules interact with number special-cases and tree shapes in ways only composed expressions reach.",
  [S+"diff.cpp", S+"simplify.cpp"],
  [("rule per operator with queued sub-derivatives", S+"diff.cpp DiffOnceOperator"), ("final simplification", S+"simplify.cpp")],
  ["Diff(expr, var) evaluated by Subs + Vpa"])

p("C10", "Higher-order and mixed derivatives are correct",
  "For every such differentiable expression, the k-th derivative with respect to a variable requested in one call evaluates to the true k-th partial derivative at interior points, and agrees with differentiating k times. "
  "Mixed partial derivatives evaluate to the true mixed partial and do not depend on the order of differentiation. "
  "Polynomials of degree below k have k-th derivative 0.",
  ["inputs"], "every differentiable expression, order k >= 1, pair of variables and point",
  "Tests have a few fixed higher-order cases; intermediate derivatives have shapes no hand-written test differentiates again.",
  [S+"diff.cpp", S+"simplify.cpp"],
  [("repeated in-place differentiation", S+"diff.cpp Diff/DiffOnce")],
  ["Diff(expr, var, k), Diff(Diff(expr,x),y)"])

p("C11", "Non-differentiable operators are rejected with an exception, never an abort",
  "Differentiating any expression that contains &, | or % anywhere (also in a subterm that does not involve the variable), and forming the Jacobian or solving a system with such an equation by either method, throws std::runtime_error. "
  "Differentiating any other expression never throws, and none of these calls ever terminates the program or modifies its const arguments. "
  "After such an exception all expressions and systems remain usable with unchanged value.",
  ["inputs"], "every expression, position of the operator, variable and entry point",
  "Tests try one expression per operator at the root.",
  [S+"diff.cpp", S+"symmat.cpp", S+"nonlinear.cpp"],
  [("explicit throw per operator", S+"diff.cpp"), ("exception propagation", S+"symmat.cpp Jacobian")],
  ["exception type of Diff, Jacobian, Solve*"])

p("C12", "Substitution replaces exactly the named variables, simultaneously",
  "Substituting expressions or numbers for a set of variables yields exactly the original tree with every occurrence of each named variable replaced by an independent copy of its replacement, all at once: replacements are not themselves substituted into, variables not named stay, and names merely containing a named variable are untouched. "
  "The forms taking one variable, a list of variables with a vector, a map to expressions, a map to numbers and a variable table all agree. "
  "Const arguments are unchanged, and substituting then evaluating equals evaluating under the extended assignment.",
  ["inputs"], "every expression, substitution map and calling form",
  "Tests substitute one or two variables in fixed expressions; simultaneity, swaps and repeated or prefix-sharing names need generated maps.",
  [S+"subs.cpp", S+"symmat.cpp"],
  [("single pre-order pass, replaced nodes not revisited", S+"subs.cpp SubsInner")],
  ["Subs result: structure (Equal), ToString, value"])

p("C13", "Expression size and depth are limited by memory, not by the call stack",
  "Building, copying, comparing, printing, parsing, evaluating, simplifying, substituting into, listing the variables of, and destroying an expression work on expressions nested at least 20000 levels deep in any shape (left, right, unary, mixed, parenthesised text) in a thread with a 256 KiB stack, and differentiating works likewise at least 1500 levels deep. "
  "They give the same results as the same operations on shallow expressions (value, text, variables). "
  "Identifier and literal tokens may be at least 100000 characters long.",
  ["inputs"], "every tree shape and depth, and token length",
  "Tests use random balanced chains on the default 8 MiB stack; a recursive implementation passes them all.",
  [S+"node.cpp", S+"parse.cpp", S+"simplify.cpp", S+"subs.cpp", S+"diff.cpp"],
  [("explicit stacks instead of recursion", S+"node.cpp, simplify.cpp, subs.cpp, diff.cpp"), ("iterative destruction", S+"node.cpp Release")],
  ["completion and results in a small-stack thread"])

p("C14", "Matrix and vector operations compute their mathematical definition",
  "For matrices and vectors of any positive size, construction, element/row/column access, +, -, *, scalar product, negation, transpose, row/column swap, resize (keeping the common block, zero elsewhere), norms (sum of squares; largest and smallest absolute value), minimum, dot product, element-wise product/quotient, comparisons, identity/zero fill and conversion to a vector equal their element-wise mathematical definition. "
  "Comparisons with a number or matrix hold exactly when all elements differ by less than the configured epsilon, the element-wise 'less than' holds exactly when it holds for all elements, and the largest-absolute-value row search returns the first row attaining the maximum within the given range. "
  "Operations leave their const operands unchanged, and converting a matrix with more than one column to a vector throws std::runtime_error.",
  ["inputs", "histories"], "every shape, content and operation sequence",
  "Tests use 2x2..4x4 examples; non-square shapes, aliasing, offsets and resize directions are not sampled.",
  [S+"mat.cpp", S+"mat.h"],
  [("valarray slices", S+"mat.cpp Row/Col/Resize/GetCofactor"), ("element-wise arithmetic", S+"mat.cpp")],
  ["Mat/Vec accessors"])

p("C15", "Determinant, adjugate, inverse and positive-definiteness are exact in kind",
  "For every square matrix, the determinant (of the whole matrix or of a leading square block, also of a matrix that is not square) equals the mathematical determinant up to rounding (exactly, for small integers), the adjugate satisfies A*adj(A) = det(A)*I, and minors are the matrix without the given row and column. "
  "The inverse satisfies A*inv(A) = I up to rounding when |det(A)| exceeds epsilon and throws the singular-matrix error exactly when |det(A)| is at most epsilon. "
  "The positive-definiteness test is true exactly when all leading principal minors are positive.",
  ["inputs"], "every square matrix of order 1..6",
  "Tests use a few fixed matrices; sign patterns and sub-matrix indexing errors depend on order and position.",
  [S+"mat.cpp"],
  [("cofactor expansion", S+"mat.cpp Det/GetCofactor"), ("adjugate / determinant", S+"mat.cpp Adjoint/Inverse")],
  ["Det, GetCofactor, Adjoint, Inverse, PositiveDetermine"])

p("C16", "Linear systems are solved correctly or classified by rank",
  "For every linear system with clearly separated scales, solving returns x with A*x = b up to rounding when A is square and non-singular, and otherwise throws: a system with more equations than unknowns gives the over-determined error, an inconsistent one the singular-matrix error, a consistent rank-deficient square one the infinitely-many-solutions error, and a consistent one with fewer equations than unknowns the indeterminate-equation error. "
  "When indeterminate equations are allowed by the configuration, a consistent system with fewer equations than unknowns instead returns some x with A*x = b. "
  "The classification depends only on the ranks of A and [A|b], not on the order of rows or columns or on which entries are zero, and the caller's A and b are unchanged.",
  ["inputs", "configurations"], "every shape, rank profile, zero pattern and row/column order",
  "Tests have about ten systems; pivoting past zero columns and consistency of several leftover rows need systematic rank profiles.",
  [S+"linear.cpp", S+"mat.cpp"],
  [("row echelon with column pivoting search", S+"linear.cpp"), ("rank comparison of A and [A|b]", S+"linear.cpp")],
  ["SolveLinear result or MathError::GetErrorType"])

p("C17", "Symbolic matrix operations agree with numeric matrix operations",
  "For symbolic matrices and vectors of any size, subtraction, product, substitution, evaluation, cloning, conversion to and from numeric matrices and vectors, and variable listing commute with evaluating every entry: e.g. evaluating a symbolic product equals the numeric product of the evaluated factors up to rounding. "
  "Shape errors in products and vector conversions and conversions of non-numeric entries throw std::runtime_error, and equality holds exactly for equal shapes with structurally identical entries. "
  "Clones and results never share structure with their operands, which stay unchanged.",
  ["inputs", "histories"], "every shape, entry expression, assignment and operation sequence",
  "Tests use 2x2 matrices of simple entries; index arithmetic for non-square shapes and aliasing are not sampled.",
  [S+"symmat.cpp", S+"symmat.h"],
  [("row-major element storage", S+"symmat.cpp"), ("per-entry Subs/Calc/Clone", S+"symmat.cpp")],
  ["SymMat/SymVec accessors, ToMat"])

p("C18", "The Jacobian holds the derivative of equation i by variable j at (i, j)",
  "For every vector of differentiable expressions and every list of variable names (any number, any order, including names that occur in no equation), the Jacobian has one row per equation and one column per name, and its entry (i, j) evaluates, at interior points, to the partial derivative of equation i with respect to the j-th listed name. "
  "Entries for variables that do not occur are exactly 0 there. "
  "The equations are unchanged.",
  ["inputs"], "every system shape, variable order and point",
  "Tests use two small square systems with alphabetically ordered variables; transposition and wrap-around errors need rectangular systems.",
  [S+"symmat.cpp", S+"diff.cpp"],
  [("row-major generation over equations x variables", S+"symmat.cpp Jacobian")],
  ["Jacobian(...).Value(i,j) evaluated"])

p("C19", "Every solution the nonlinear solvers return is a root",
  "Whenever a nonlinear solve returns (either method, any starting values, any configured epsilon, iteration limit and system), evaluating every equation at the returned values gives a residual of absolute value below the configured epsilon. "
  "The returned table has exactly the variables of the given table (or, without a table, exactly the variables occurring in the equations), all with finite values when throw-on-invalid-value is on. "
  "The equations and the starting table passed in are unchanged, and starting at a root returns that root.",
  ["inputs", "configurations"], "every system, start, method and configuration for which the solver returns",
  "Tests solve about ten systems from one start; a wrong stopping test or a table out of step with the iterate only shows for other systems and starts.",
  [S+"nonlinear.cpp", S+"vars_table.cpp", S+"symmat.cpp"],
  [("residual test before return", S+"nonlinear.cpp"), ("table updated with iterate", S+"nonlinear.cpp, vars_table.cpp")],
  ["returned VarsTable, equations re-evaluated independently"])

p("C20", "Nonlinear solving always terminates, with a result or a std::runtime_error",
  "For every system of equations in at least one unknown, square or not, consistent or not, and every starting point, method, policy on invalid values, epsilon and non-negative iteration limit, solving finishes after a bounded amount of work (iterations within the configured limit) and either returns or throws an exception derived from std::runtime_error. "
  "It never crashes, hangs or corrupts memory, also when evaluation overflows or yields NaN, the Jacobian is singular, or the system has more or fewer equations than unknowns. "
  "After an exception the configuration, equations and tables are unchanged and later solves behave as if it had not happened.",
  ["inputs", "configurations", "histories"], "every system, start, method and configuration",
  "Tests only run solvable systems and two singular ones; divergence, NaN line searches and shape mismatches are unlimited.",
  [S+"nonlinear.cpp", S+"linear.cpp", S+"mat.cpp"],
  [("iteration counter", S+"nonlinear.cpp"), ("line search loop exit", S+"nonlinear.cpp Armijo"), ("error translation", S+"nonlinear.cpp, linear.cpp")],
  ["CPU time, return/exception of Solve, SolveByNewtonRaphson, SolveByLM"])

p("C21", "The solvers use the given starting point and converge where they must",
  "Newton-Raphson solves every well-conditioned affine square system from any moderate starting point within a few iterations, and from a starting point close to a well-conditioned simple root of a smooth system it returns that root, not another one. "
  "The Levenberg-Marquardt method likewise solves well-conditioned affine systems and returns the nearby root when started close to a well-conditioned simple root. "
  "Starting values given in the table, or the configured initial value when no table is given, are where the iteration starts, whichever method is selected by configuration; the returned table lists the names of a given table in the same order.",
  ["inputs", "configurations"], "every well-conditioned system, root, start and method",
  "Tests check convergence for a handful of systems from one start each, which also pass if the start is ignored.",
  [S+"nonlinear.cpp", S+"linear.cpp", S+"symmat.cpp", S+"diff.cpp"],
  [("Newton step from Jacobian", S+"nonlinear.cpp SolveByNewtonRaphson"), ("damped step with line search", S+"nonlinear.cpp SolveByLM"), ("dispatch on configuration", S+"nonlinear.cpp Solve")],
  ["returned VarsTable against the planted root"])

p("C22", "A variable table stays a consistent map from names to values",
  "After any sequence of construction (from names with a common value, from name/value pairs, from a map), copying, assignment and setting of values, the table's size, membership test, name list, value vector, by-name lookup and iteration all describe one and the same map: the i-th name has the i-th value, and iteration is in name order. "
  "Looking up an absent name throws std::out_of_range, and changing a copy never changes the original. "
  "Two tables compare equal exactly when they have the same names with values within epsilon.",
  ["histories"], "every sequence of table operations, names and values",
  "Tests build two or three small tables; inconsistency between the duplicated representations needs histories with unsorted names.",
  [S+"vars_table.cpp", S+"vars_table.h"],
  [("names, values and map kept in step", S+"vars_table.cpp SetValues")],
  ["VarsTable accessors"])

p("C23", "Results depend only on arguments and current configuration, not on history",
  "Parsing, printing, evaluating, differentiating, simplifying, substituting, matrix operations, linear and nonlinear solving give the same result (value, text or exception) for the same arguments and configuration regardless of which other calls, failed calls, configuration changes since restored, or log levels preceded or accompany them. "
  "The configuration is only ever changed by the caller, and resetting it restores all documented defaults. "
  "Raising the log level changes only what is printed to standard output, never a result.",
  ["histories", "configurations"], "every prefix history of calls and configuration changes",
  "Tests run each case once in a fresh process with default configuration.",
  [S+"config.cpp", S+"config.h", S+"nonlinear.cpp", S+"linear.cpp", S+"mat.cpp"],
  [("single configuration object", S+"config.cpp"), ("stateless algorithms", S)],
  ["results of a probe call with and without a generated history"])

p("C24", "The single-header distribution behaves exactly like the library",
  "For every sequence of public API calls, the checked-in single-header version gives exactly the same values, texts and exceptions (type and message) as the library built from the separate sources. "
  "The single header can be included from several translation units of one program. "
  "Both are covered for parsing, printing, evaluation, differentiation, simplification, substitution, matrices, linear and nonlinear solving.",
  ["programs", "inputs"], "every program of public API calls",
  "The two test suites run the same fixed tests against each copy and never compare the two on other inputs.",
  ["single/include/tomsolver/tomsolver.h", S, "scripts/combine_src_to_header_only.py"],
  [("generated copy of all sources", "single/include/tomsolver/tomsolver.h")],
  ["same generated program run against both builds in one process"])

p("C25", "Matrices, symbolic matrices and variable tables print their exact content",
  "The text of a numeric matrix or vector lists its rows in order, one per line, elements in order separated by commas inside one pair of brackets, each element printed as a number prints on its own; a symbolic matrix prints likewise with each entry's own text. "
  "A variable table prints one 'name = number' line per variable in name order. "
  "Stream output of each equals its text conversion, and printing changes nothing.",
  ["inputs"], "every shape and content",
  "Tests compare a few fixed outputs.",
  [S+"mat.cpp", S+"symmat.cpp", S+"vars_table.cpp", S+"config.cpp"],
  [("row-wise formatting", S+"mat.cpp ToString, symmat.cpp ToString"), ("line per variable", S+"vars_table.cpp ToString")],
  ["ToString / operator<<"])

p("C26", "Line searches terminate and return a step meeting their criterion",
  "The Armijo search returns the largest step a in 1, 1/2, 1/4, ... for which the squared norm of f(x + a*d) is at most the squared norm of f(x) + 0.4*a*(df(x) transposed)*d, and does not modify x or d. "
  "The secant search returns, for a scalar function that is affine, increasing along d and negative at the start, the step at which the function vanishes, up to rounding. "
  "Both terminate after a bounded number of function evaluations for every function, including ones returning NaN or infinity.",
  ["inputs"], "every function, derivative, point and direction",
  "No test calls the secant search, and the Armijo search only runs inside two solver tests.",
  [S+"nonlinear.cpp", S+"mat.cpp"],
  [("backtracking loop", S+"nonlinear.cpp Armijo"), ("secant iteration with cap", S+"nonlinear.cpp FindAlpha")],
  ["returned step, evaluation count"])

p("C27", "Every error says exactly what went wrong and where",
  "Every exception thrown for a caller's mistake identifies it. A math error carries its kind, and its message is the text of that kind (non-empty, different for every kind) followed by the extra information in quotes when there is any; "
  "an invalid-number error names a failing operation with its operands as numbers print; a parse error quotes the whole input with a caret under the position it reports, and an error for several misplaced operands shows one such block per misplaced operand, from left to right; "
  "errors about a name quote the name; solving affine systems that cannot be solved reports over-determined, indeterminate, infinitely many solutions or singular, whichever is the case. "
  "Messages stay valid in copies of the exception and after the input, the expression and the original exception object are gone.",
  ["inputs", "configurations"], "every failing input to evaluation, parsing, naming, look-up and solving",
  "Tests check that an exception is thrown for a few inputs and never read a message, a caret position or a copied error.",
  [S+"error_type.h", S+"error_type.cpp", S+"parse.cpp", S+"parse.h", S+"node.cpp", S+"nonlinear.cpp", S+"linear.cpp", S+"vars_table.cpp"],
  [("one text per kind", S+"error_type.cpp GetErrorInfo"), ("offset of a token kept to the error", S+"parse.cpp Parse"), ("operation quoted when the result is not finite", S+"node.cpp Calc")],
  ["exception type, MathError::GetErrorType, SingleParseError::GetPos, what()"])

p("C28", "An expression is the same however it is built, and its leaves are exact",
  "Building an expression by code (operators, functions, compound assignment, names and numbers, from copied or moved operands) and parsing a text of it (by Parse or the literal operator) give expressions that are equal, print the same text and have the same variables; an expression that differs in any number, name, operator or operand order is never equal. "
  "A number holds any double exactly through copying, evaluation, substitution, simplification and symbolic matrices. "
  "A name is legal exactly when it is a non-empty sequence of ASCII letters, digits and underscores that does not start with a digit; the legality test and Var agree, and every legal name that is not reserved is parsed as that variable.",
  ["inputs", "histories"], "every expression, every way to build it, every double and every byte string as a name",
  "Tests build small expressions one way each and use a handful of names and numbers.",
  [S+"node.h", S+"node.cpp", S+"functions.h", S+"parse.cpp", S+"subs.cpp", S+"symmat.cpp"],
  [("operators and functions on nodes", S+"node.h"), ("token classes", S+"parse.cpp"), ("name check", S+"node.cpp VarNameIsLegal")],
  ["Node Equal, ToString, GetAllVarNames, Vpa, Var, VarNameIsLegal"])

p("C29", "Independent calls from several threads behave as if made one after the other",
  "While nobody changes the configuration, threads that work on objects of their own (parsing, printing, evaluating, differentiating, simplifying, substituting, matrices, linear and nonlinear solving, failing calls included) and threads that only read shared objects "
  "(const expressions, numeric and symbolic matrices, systems of equations, variable tables) get exactly the values, texts and exceptions they would get alone, at any log level. "
  "No two threads access the same memory without order, first uses included.",
  ["schedules", "histories"], "every set of concurrent calls and every schedule",
  "All tests are single-threaded; a hidden buffer, cache or lazily built table passes every one of them.",
  [S+"config.cpp", S+"node.cpp", S+"parse.cpp", S+"subs.cpp", S+"vars_table.cpp", S+"symmat.cpp", S+"mat.cpp", S+"nonlinear.cpp"],
  [("one configuration, otherwise no state", S+"config.cpp Config::Get"), ("const members do not write", S+"node.h, "+S+"vars_table.h, "+S+"symmat.h"), ("formatting strategies built once", S+"config.cpp strategies")],
  ["results of the same calls alone and in parallel; ThreadSanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
