"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/simpy/"
EX, REG, POL, INT, TR, SIM, TAB = S + "expr.py", S + "regex.py", S + "polynomial.py", S + "integration.py", S + "transforms.py", S + "simplify/simplify.py", S + "integral_table.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, technique=technique, observe=observe, state=state, na=na))


prop(
    "C01", "Building an expression never changes its value",
    "Whatever expression a user builds with numbers, symbols, arithmetic, powers, roots, logarithms, absolute values and (inverse) trigonometric functions, the automatically rewritten result has the value real arithmetic gives to what was written, wherever that is defined. No construction crashes, hangs, or loses the value where every part of the expression is positive.",
    ["inputs", "programs"], "every program of constructors and operators up to a depth, over every number/symbol alphabet, at every point of the variables",
    "tests compare a few dozen constructions with an expected form; the rewriting rules (like terms, power merging, root extraction, trig and log special cases) interact for every combination of operands",
    [EX], [("Sum, Prod, Power constructors: flattening, like-term collection, power merging", EX + ":Sum.__new__, Prod.__new__, Power.__new__"), ("special values and inverse cancellation of functions", EX + ":TrigFunction.__new__, log.__new__, Abs.__new__")],
    "breadth-first search over all programs of public operations to depth 2 (quick) or 3 (thorough, restricted alphabet) plus n-ary families; every transition executed on the real code and compared with error-bounded real arithmetic at 6 points",
    "explicit-state breadth-first search over operation programs on the real code, reference model: real arithmetic",
)
prop(
    "C02", "Sums and products do not depend on order or grouping of operands",
    "Adding or multiplying the same operands in any order and any grouping ends in the same expression, printed the same and equal to each other. Like terms are always collected: a sum never keeps two terms that differ only by a rational factor, and a sum or product of monomials has exactly the coefficients polynomial arithmetic gives.",
    ["inputs", "histories"], "every multiset of operands of the alphabet up to the bound, every permutation, every binary grouping",
    "tests build each sum or product in one order; the claim quantifies over all orders and groupings, which only enumeration of the schedules reaches",
    [EX], [("canonical ordering of terms", EX + ":Associative._sort_terms"), ("collection of like terms and of equal bases", EX + ":_combine_like_terms_sum, Prod.__new__")],
    "all permutations and all binary groupings of every operand multiset (size 3 quick, 4 thorough), all schedules must reach the same structure; monomials checked against exact polynomial arithmetic",
    "exhaustive enumeration of operand orders and groupings (schedules) on the real code",
)
prop(
    "C03", "Expressions are values: no operation changes an existing expression",
    "Once built, an expression never changes: running any sequence of operations on it or on expressions sharing parts with it leaves its structure, printing and value as they were. The result of an operation does not depend on which operations were performed before, in which order, or on cached answers.",
    ["histories"], "every sequence up to the bound of public operations (derivative, expansion, simplification, factoring, substitution, comparison, printing, integration, arithmetic) on shared expressions",
    "tests run each operation on a fresh expression; caches and in-place edits show only in particular sequences on shared objects",
    [EX, SIM, REG], [("caches of symbols, nesting, expansion, ordering, fraction parts", EX + ":Expr._symbols_cache, _expand_cache, _nesting_cache, Prod._numerator_denominator"), ("documented rule: no mutation after construction", EX + ":module docstring")],
    "every sequence of up to 2 (quick) or 3 (thorough) operations on shared expressions; after each, all live expressions are compared with their fingerprint and the result with the one on a fresh copy",
    "explicit-state exploration of operation histories on the real code, differential against fresh objects",
)
prop(
    "C04", "Substitution and numeric evaluation commute with evaluation",
    "Replacing symbols by expressions or numbers and then evaluating gives the value of the original expression at the values of the replacements, and replaced symbols are gone; symbols that were not named stay. Numeric evaluation of an expression with numbers for all its symbols gives a number equal to its value.",
    ["inputs"], "every expression of the bounded space, every assignment of the replacement alphabet to one or two symbols",
    "a handful of substitutions are tested on polynomials; every function's substitution and evaluation path must be right for every operand",
    [EX], [("substitution per class", EX + ":subs of Sum, Prod, Power, log, SingleFunc, Symbol"), ("numeric evaluation per class", EX + ":_evalf")],
    "all expressions reachable by two operations times all replacement assignments; every result compared with real arithmetic",
    "exhaustive enumeration of expressions and assignments on the real code against a reference evaluator",
)
prop(
    "C05", "The derivative of an expression is its derivative",
    "Differentiating any expression with respect to any symbol gives an expression whose value is the derivative of the original wherever both exist, zero for an absent symbol, and never crashes for supported expressions. This holds for every combination of sums, products, powers, logarithms of any base, absolute values and (inverse) trigonometric functions, and for repeated derivatives.",
    ["inputs"], "every expression of the bounded space, every variable, up to second derivatives",
    "tests fix a few derivatives; chain, product and power rules combine for every pair of functions",
    [EX], [("differentiation rules per class", EX + ":diff of Sum, Prod, Power, log, Abs, TrigFunction")],
    "all expressions reachable by two operations, 3- and 4-factor products, second derivatives; each compared at 6 points with dual-number differentiation",
    "exhaustive enumeration of expressions on the real code against a dual-number reference",
)
prop(
    "C06", "Expanding multiplies everything out and keeps the value",
    "Expanding an expression never changes its value, and for polynomial expressions gives exactly the polynomial's coefficients. Afterwards no product or positive integer power of a sum is left, and expanding an expanded polynomial again changes nothing.",
    ["inputs"], "every expression with products, quotients and powers of sums up to two nesting levels",
    "multinomial expansion is tested on a few small cases; exponents, number of terms and nesting combine",
    [EX, S + "combinatorics.py"], [("expansion", EX + ":Sum._expand, Prod._expand, Power._expand"), ("multinomial coefficients", S + "combinatorics.py")],
    "all combinations of 12 sums in 17 shapes and two nesting levels, and the two-operation space; exact polynomial coefficients, value and shape",
    "exhaustive enumeration of expressions on the real code against exact polynomial arithmetic",
)
prop(
    "C07", "Simplification never changes the value of an expression",
    "Simplifying any expression, expanding its logarithms, and applying the pythagorean and other trigonometric simplifications give an expression with the same value wherever both are defined. They never crash, and never introduce symbols.",
    ["inputs"], "every expression of a bounded space aimed at the rewriting rules",
    "tests check that chosen identities are recognised, not that near misses (coefficients, different arguments, extra terms) are left alone",
    [SIM, REG], [("pythagorean rules", SIM + ":pythagorean_simplification"), ("logarithm rules", SIM + ":expand_logs"), ("trigonometric rules", SIM + ":trig_simplify"), ("pattern matching behind them", REG)],
    "all sums of up to three of 30 trigonometric terms with coefficients, products of trigonometric powers, logarithm shapes, nestings, and the two-operation space, compared by value",
    "exhaustive enumeration of expressions on the real code against a reference evaluator",
)
prop(
    "C08", "Factoring keeps the value and takes out every common factor",
    "Factoring a sum gives an expression of the same value. What stays in the brackets has no variable, function, sum or power of one common to all terms any more, and expanding the factored form of a polynomial gives the polynomial back.",
    ["inputs"], "every sum of up to four terms of the monomial alphabet with integer, fractional, negative, power and symbolic factors",
    "tests factor a handful of sums; the common factor is a minimum over every term's factors and signs",
    [EX], [("factoring", EX + ":Sum.factor"), ("splitting terms into factors", EX + ":_deconstruct_prod")],
    "all sums of two to four terms over the alphabet; value, exact polynomial, and absence of remaining common factors",
    "exhaustive enumeration of sums on the real code against exact polynomial arithmetic",
)
prop(
    "C09", "An indefinite integral that is returned is an antiderivative",
    "Whenever integrating an expression returns an answer, the answer's derivative equals the integrand wherever both are defined. The answer is finite, contains no symbol the integrand does not have, and the integrator ends with an answer or a plain failure, never with a crash.",
    ["inputs"], "every integrand of a bounded grammar of products, quotients, sums and compositions, including symbolic parameters",
    "tests compare about a hundred integrals with expected answers; each step (substitutions, parts, partial fractions, trig rewriting) is reachable with countless integrands",
    [INT, TR, TAB], [("search and backward pass", INT + ":Integration.integrate, _go_backwards"), ("transforms", TR), ("table", TAB)],
    "every integrand of the grammar is run through the real search as a closed system (virtual clock, owned identifiers); the derivative of each answer is compared at 11 points",
    "exhaustive exploration of searches (closed system, owned clock and randomness), reference: dual-number derivative",
)
prop(
    "C10", "Definite integrals are the integral over the interval",
    "A definite integral that is returned equals the integral of the function over the interval when the function is continuous there, as numeric integration gives it. Swapping the bounds changes the sign, equal bounds give zero, adjacent intervals add up, and bounds may be symbolic.",
    ["inputs"], "every continuous integrand of the alphabet times every pair of bounds",
    "tests evaluate some definite integrals against constants; substituting the bounds back and simplifying must be right for every antiderivative and every pair of bounds",
    [INT, EX], [("definite integration", INT + ":Integration.integrate_bounds"), ("substitution of the bounds", EX + ":subs")],
    "all integrand x bounds pairs of the alphabet, compared with error-controlled quadrature, plus orientation, additivity and symbolic bounds",
    "exhaustive enumeration of integrand/interval pairs on the real code against numeric quadrature",
)
prop(
    "C11", "The advertised families of integrals are solved",
    "Every member of the elementary families the project advertises (powers and polynomials, rational functions with linear or completed-square denominators, exponentials, logarithms, sine/cosine/tangent/secant and their small powers, inverse trigonometric functions, products by parts, linear arguments) with parameters in a small range is solved, not given up on. This does not depend on the name of the variable or on the coefficients' values.",
    ["inputs"], "every parameter choice in each family, every variable name of the alphabet",
    "the tests sample one or two members per family; being solvable must not depend on the particular coefficients",
    [INT, TR, TAB], [("choice and order of transforms", TR + ":HEURISTICS, SAFE_TRANSFORMS"), ("search strategy", INT + ":Integration._cycle")],
    "all members of each family within the parameter range are run; each must return an answer within a bound on search cycles (virtual clock)",
    "exhaustive exploration of searches per family within a cycle bound (bounded liveness)",
)
prop(
    "C12", "Time limit, strategy and internal names never make an integral wrong",
    "Wherever in the search the time limit strikes, the integrator returns a right antiderivative or gives up cleanly; it never crashes or returns a half-finished answer, and definite integrals then give no value. The randomly chosen internal names, the search strategy and the name of the variable never make an answer wrong.",
    ["fault_sequences", "schedules", "configurations"], "expiry at every clock read of every search, every choice of first character of generated names (up to a number of deviations), both search strategies, several variable names",
    "tests run with the real clock, on machines where it rarely strikes, and with whatever names the random generator gives",
    [INT, TR, S + "utils.py"], [("time limit", INT + ":Integration.integrate"), ("generated names", S + "utils.py:random_id"), ("strategies", INT + ":_get_next_node_post_heuristic")],
    "for each integrand of the list: one run per clock read (expiry there), per name choice and per strategy; every outcome judged like C09",
    "exhaustive fault injection at every clock read and enumeration of environment choices on the real code",
)
prop(
    "C13", "A goal is solved or failed exactly when its subgoals say so",
    "In the integration search tree a goal with alternatives is solved when one alternative is and failed when all are; a goal whose parts belong together is solved when all parts are and failed when one is; nothing is solved and failed at once. Work goes only to open leaves, a solved tree yields a solution for its root, and a search that reports failure has no open alternative left.",
    ["histories", "programs"], "every tree of goals up to the bound on depth and branching, with every assignment of leaf states",
    "tests see only the trees of successful searches; the statuses must be right for every tree shape and status",
    [TR, INT], [("status of goals", TR + ":Node.is_solved, is_failed, is_finished, unfinished_leaves"), ("choice of the next goal", INT + ":_get_best_leaf, _get_next_node_post_heuristic_depth_first")],
    "all trees up to the bound are built with the real goal class and compared with a reference AND/OR semantics; next-goal choice and backward pass are run on each",
    "explicit enumeration of all bounded AND/OR trees, conformance of the real node class with a reference model",
)
prop(
    "C14", "Polynomial conversion, division and partial fractions are exact",
    "Converting a polynomial expression to coefficients and back is exact, whatever form it was written in; expressions that are not polynomials in the variable with constant coefficients are refused. Dividing polynomials gives quotient and remainder exactly, and splitting a fraction gives fractions that add up to it exactly.",
    ["inputs"], "every pair of polynomials with small coefficients up to a degree, every product of two linear factors",
    "tests divide a few polynomials; leading coefficients, gaps, remainders of lower degree and factored forms combine",
    [POL, TR, S + "linalg.py"], [("conversion", POL), ("division", TR + ":PolynomialDivision"), ("partial fractions", TR + ":PartialFractions"), ("2x2 inverse", S + "linalg.py:invert")],
    "all polynomials with coefficients in a small set up to degree 3 (and all pairs for division, all linear factor pairs for partial fractions) against exact polynomial arithmetic",
    "exhaustive enumeration of polynomial pairs on the real code against exact rational arithmetic",
)
prop(
    "C15", "A pattern matches exactly when filling it in gives the expression",
    "When matching an expression against a pattern with placeholders succeeds, filling the reported matches into the pattern, times the reported factor and plus the reported rest, gives the expression. Expressions made by filling in a function's argument in a pattern with one placeholder are recognised, also among further terms. A pattern with a numeric factor of its own is not matched up to a factor.",
    ["inputs"], "every pattern of the alphabet with every filling, every near miss, up to a factor and up to further terms",
    "tests use a few patterns; a placeholder used twice, coefficients, and several candidate terms make the search ambiguous",
    [REG], [("matching", REG + ":eq, Eq, consolidate, divide_anys")],
    "all patterns x fillings x decorations; every reported success is checked by filling in, every genuine instance of the supported patterns must be found",
    "exhaustive enumeration of pattern/expression pairs on the real code against substitution semantics",
)
prop(
    "C16", "Searching and replacing inside expressions is complete and exact",
    "Counting occurrences, testing whether an expression contains a symbol, a function or a subexpression, and listing its symbols agree with its structure. Replacing a subexpression replaces every occurrence and nothing else, and renaming comparisons hold exactly when renaming the variable turns one expression into the other.",
    ["inputs"], "every expression of the bounded space times every query subexpression",
    "tests check a few counts; every class of expression has its own recursion",
    [REG, EX, S + "utils.py"], [("count, contains, replace", REG), ("symbols, contains", EX + ":Expr.symbols, contains, has"), ("comparison up to the variable's name", S + "utils.py:eq_with_var")],
    "all expressions reachable by two operations times a query alphabet, compared with a structural reference",
    "exhaustive enumeration of expression/query pairs on the real code against a structural reference",
)
prop(
    "C17", "Printed expressions mean what they stand for",
    "Reading the printed form of any expression (whose symbol names are not names of constants or functions, decimals possibly as 1e-07) with the usual precedence rules gives an expression with the same value. Expressions that differ in value never print the same, and printing never crashes.",
    ["inputs"], "every expression of the bounded space",
    "tests print about a dozen expressions; brackets are needed for every pair of outer and inner operation",
    [EX], [("printing per class", EX + ":__repr__ of Sum, Prod, Power, SingleFunc, log")],
    "all expressions reachable by two operations and a layer of products, quotients, powers and functions of them; an independent parser evaluates the text",
    "exhaustive enumeration of expressions on the real code, independent parser as reference",
)
prop(
    "C18", "LaTeX output means what it stands for",
    "Reading the LaTeX form of any expression (whose symbol names are not names of constants or functions, decimals possibly as 1e-07) with the usual conventions gives the value of the expression. Producing it never crashes, and its braces and brackets are balanced.",
    ["inputs"], "every expression of the bounded space",
    "tests compare a few LaTeX strings; brackets are needed for every pair of outer and inner operation",
    [EX, S + "latex.py"], [("LaTeX per class", EX + ":latex of Sum, Prod, Power, SingleFunc, log"), ("brackets", S + "latex.py")],
    "all expressions reachable by two operations and a layer of products, quotients, powers and functions of them; an independent LaTeX reader evaluates the text",
    "exhaustive enumeration of expressions on the real code, independent LaTeX reader as reference",
)
prop(
    "C19", "Arithmetic on numbers is exact",
    "Sums, products, quotients, remainders, integer powers, roots, comparisons and absolute values of rational numbers are computed exactly: the result is the exact rational where there is one, and otherwise a product of rational powers with the exact value. No float sneaks in unless an operand is one, and sizes beyond float precision stay exact.",
    ["inputs"], "every pair of rationals with small numerators and denominators, and large boundary values, under every operation",
    "tests try a few fractions; floats hide in roots and powers and show only for particular or large numbers",
    [EX], [("rational class", EX + ":Rat"), ("powers and roots of rationals", EX + ":Power.__new__, Rat.__pow__")],
    "all pairs of rationals of the grid (and boundary values around 2^53, 10^40) under all operations, compared with exact fractions and exact root tests",
    "exhaustive enumeration of number pairs on the real code against exact rational arithmetic",
)
prop(
    "C20", "Trigonometric functions at special angles, shifts and signs",
    "Sine, cosine, tangent, secant, cosecant and cotangent of every rational multiple of pi have the right value, also with whole or half turns added, with negated arguments, and inside larger arguments; poles are not given a finite value. Inverse functions of special values give the angle in the principal range.",
    ["inputs"], "every multiple k*pi/n up to several turns, every function, every shift by multiples of pi/2 of every inner expression",
    "tests cover a few angles in the first turn; reduction to the first turn must be right for every angle and sign",
    [EX], [("special angles, periodicity and parity", EX + ":TrigFunction.__new__"), ("inverse functions", EX + ":asin, acos, atan")],
    "all angles k*pi/n for n in 1..24 and several turns, all functions, shifted symbolic arguments; value compared with high-precision reference and exact form required at the standard angles",
    "exhaustive enumeration of angles and shifts on the real code against a reference evaluator",
)
prop(
    "C21", "Equality is an equivalence that arithmetic respects",
    "Equality of expressions is reflexive, symmetric and transitive, never crashes, and equal expressions have the same value. The same expression built twice is equal, and replacing an operand by an equal one gives an equal result.",
    ["inputs"], "every pair (and triple) of expressions of the bounded space",
    "tests assert equality of expected pairs only; that unequal pairs compare unequal, in both directions, needs all pairs",
    [EX], [("structural equality", EX + ":__eq__ of Num, Symbol, Sum, Prod, Power, log, SingleFunc")],
    "all pairs of a few thousand expressions compared both ways; equality classes checked against value and structure",
    "exhaustive enumeration of all pairs on the real code, equivalence axioms and reference values",
)
prop(
    "C22", "Product-to-sum rewriting keeps the value",
    "Rewriting a product of sines and cosines as a sum gives an expression with the same value, for every number of factors, powers, constant factors and arguments. It never crashes.",
    ["inputs"], "every constant times up to three (four) powers of sine and cosine over the arguments alphabet",
    "tests rewrite two-factor products only",
    [S + "simplify/product_to_sum.py"], [("rewriting", S + "simplify/product_to_sum.py")],
    "all products of the alphabet, compared by value at 6 points",
    "exhaustive enumeration of products on the real code against a reference evaluator",
)
prop(
    "C23", "Combinatorial and linear-algebra helpers are exact",
    "The compositions used in expansions list every way to write n as an ordered sum exactly once, multinomial coefficients are exact at any size, and the inverse of a two-by-two matrix of expressions times the matrix is the identity, with singular matrices refused.",
    ["inputs"], "every (terms, power) pair up to a bound, every 2x2 matrix over a small set of numbers and symbols",
    "tests sample one or two cases",
    [S + "combinatorics.py", S + "linalg.py"], [("compositions and coefficients", S + "combinatorics.py"), ("inverse", S + "linalg.py:invert")],
    "all (i, n) with i<=5, n<=7, all coefficient vectors, all 2x2 matrices over 7 numbers and symbolic samples",
    "exhaustive enumeration of inputs on the real code against brute force",
)
prop(
    "C24", "All ways to ask for an integral agree",
    "Leaving out the variable when there is only one, naming it, giving bounds with or without the variable, and passing plain numbers instead of expressions all give the same answer. Unclear requests are refused with an error instead of a guess, constants integrate, and an integral that cannot be solved gives nothing rather than a wrong value.",
    ["inputs", "configurations"], "every integrand of the list times every call form and option",
    "tests use one form per integral",
    [INT], [("argument handling", INT + ":integrate"), ("casting", EX + ":cast")],
    "all integrands of the list x all call forms, variable names and search options; answers compared by structure and value",
    "exhaustive enumeration of call forms on the real code (differential)",
)
prop(
    "C25", "Every step of an integration search preserves the problem",
    "Each step the integrator takes, also on branches that lead nowhere, turns a problem into one whose solution, carried back, solves the original; parts of a split problem add up to it. A step that changes the variable leaves no trace of the old one.",
    ["inputs", "histories"], "every step of every search over the bounded grammar of integrands",
    "tests only see final answers of successful searches; a wrong step usually hides on a branch not taken until some integrand takes it",
    [TR, INT], [("forward and backward of each transform", TR)],
    "every edge of every goal tree of the grammar is decided: an opaque antiderivative of the child is carried back and its derivative compared with the parent at the images of 11 points",
    "exhaustive exploration of goal trees; per-transition refinement check with an opaque antiderivative",
)
prop(
    "C26", "Infinity stands for a limit",
    "Sums, products, quotients, powers, logarithms and functions of infinity with numbers and constants, also when infinity is put in for a variable, give the limit, and an indeterminate form like inf - inf or 0*inf never comes out as a number; infinity compares above every number of any size. A definite integral with an infinite bound that comes out as a number is the value of a convergent integral, and a divergent one never comes out finite.",
    ["inputs"], "all operations up to depth two on infinity, numbers and constants; infinity put into all expressions of depth two; a list of integrands times unbounded intervals",
    "tests touch infinity in a single integral; a missing case shows only when two infinite things meet, in finite-looking answers",
    [EX, INT], [("infinite values and their accumulation", EX + ":Infinity"), ("powers of infinity", EX + ":_accumulate_power"), ("definite integrals", INT + ":integrate")],
    "75 000 operations against extended real arithmetic, 1 600 improper integrals against numeric integration over exponentially growing intervals",
    "exhaustive enumeration of operation sequences on the real code against extended real arithmetic; numeric improper integrals",
)
prop(
    "C27", "The derivation that is shown is the derivation that was done",
    "Printing the tree of a search shows every step once, in order, at its depth, with its integrand, transformation and state; hiding failed or stale steps hides exactly those, the solution shown for a step is an antiderivative of its integrand, and different internal variables have different names. Neither printing nor debug mode fails or changes the tree or the answer, and the time log holds, sorts and writes what was logged.",
    ["inputs", "configurations", "histories"], "the goal tree of every search of a bounded grammar in every combination of printing options; every history of log calls to a bound",
    "no test prints a tree; a wrong line shows only on trees with that kind of node, in output nobody compares",
    [S + "debug/tree.py", S + "debug/logger.py", INT], [("tree printing", S + "debug/tree.py:print_tree"), ("time log", S + "debug/logger.py:Logger"), ("debug mode", INT + ":integrate")],
    "each printed line of each goal tree of the grammar compared with a reference walk; 800 log histories",
    "exhaustive exploration of goal trees and log histories on the real code against a reference walk",
)

prop(
    "C28", "The structural printout shows the structure",
    "debug_repr of any expression reads back, over the constructors Power, Prod and Sum, as exactly the nodes of that expression in their order, everything else in its printed form. With pedantic='always', numbers and symbols at every depth carry the names of their classes and their exact values, so that different structures never look alike.",
    ["inputs", "configurations"], "every expression of a bounded space in every mode",
    "the tests look at four printouts",
    [S + "debug/utils.py"], [("structural printout", S + "debug/utils.py:debug_repr")],
    "10,000 expressions in three modes, read back node by node",
    "exhaustive enumeration of expressions up to a depth on the real code, read back by an independent reader",
)
prop(
    "C29", "Expressions can be shared between threads",
    "Two threads may use the same expression at the same time: wherever they are switched, each operation gives the answer it gives alone, none of them crashes, and the expression stays what it was. What an expression remembers about itself is never seen half done.",
    ["schedules", "inputs"], "every schedule of two operations on one expression up to two preemptions, over a bounded set of operations and expressions",
    "tests run in one thread; a result that is stored before it is complete is only seen when another thread runs in between",
    [S + "expr.py", S + "regex.py"], [("remembered parts", S + "expr.py:remove_const_factor"), ("remembered expansions and symbols", S + "expr.py:Expr.expand")],
    "operations run under a controlled scheduler that switches threads at every line touching state that outlives a call (found from the code and from what operations change); 100,000 schedules of the real code",
    "stateless model checking of the real code: all schedules up to a preemption bound, restricted by dependence (partial-order reduction)",
)

prop(
    "C30", "Taking an expression apart loses nothing",
    "An expression is what its parts make: every node of every expression, and of what expand, diff, subs, factor and simplify return, put together again from its parts is itself, so like powers and like terms are combined, no product sits in a product or sum in a sum, whatever way it was built. Numerator over denominator, constant factor times the rest, base to the exponent, coefficient times factors and a sum written as one fraction are the expression; what it says about itself (its symbols, whether it contains one or has a class of node, its depth, its sign, whether it is simpler) agrees with what is in it.",
    ["inputs", "histories"], "every expression of a bounded grammar, products and sums of two and three of about twenty factors and terms chosen to meet each other, and what five operations make of them; every node of each",
    "normal forms break where three parts meet: two that combine into something that should combine with the third; tests take few things apart and mostly simple ones",
    [S + "expr.py", S + "simplify/simplify.py", S + "utils.py"], [("products and sums", S + "expr.py:Prod.__new__"), ("parts", S + "expr.py:numerator_denominator"), ("one fraction", S + "simplify/simplify.py:rewrite_as_one_fraction"), ("depth", S + "expr.py:nesting")],
    "exhaustive construction of a bounded space with the real constructors and operations; each node is taken apart in all the ways the library offers and compared with an independent walk and with putting it together again",
    "explicit-state exploration of the real code (bounded exhaustive enumeration of expressions, results and ways to take them apart)",
)

prop(
    "C31", "What symbols are called makes no difference",
    "With its symbols renamed one-to-one, whatever the names are (one the beginning of the other, letters of function names, names simpy uses itself, capitals), every expression is what it was under the old names with the names exchanged, and so is what every operation makes of it: expand, diff, simplify, factor, substitution, counting and replacing, polynomial conversion, equality up to the variable. An integral that has an answer under one set of names has the same one under all. Only the order in which terms are written may differ.",
    ["inputs"], "every expression of a bounded grammar and the integrands of C09, under fifteen sets of names; 23 operations",
    "tests use x and y; a comparison of printed forms, a cache keyed by part of a name or an order that depends on names goes wrong with particular pairs of names only",
    [S + "expr.py", S + "utils.py", S + "regex.py", S + "transforms.py"], [("symbols", S + "expr.py:Symbol"), ("equal up to the variable", S + "utils.py:eq_with_var"), ("constants of an integral", S + "transforms.py:PullConstant")],
    "the same program of public operations is executed on the real code under all sets of names; canonical forms up to the order of terms are compared",
    "explicit-state exploration of the real code (bounded exhaustive enumeration of programs and namings)",
)

prop(
    "C32", "Integration is linear",
    "What can be integrated can be integrated in multiples and in sums: if the integrator answers f, g and h one by one, it answers c*f for every constant c (a number, a known constant, an expression without the variable, whether it multiplies or divides) and every sum of c*f, g and h, indefinite and over an interval alike; and the answer is the same combination of the separate answers - exactly over an interval, up to a constant otherwise.",
    ["inputs"], "about a hundred integrands with every multiple of a list of thirteen, every pair of them in one to four combinations, thousands of triples, and multiples of the integrands of C09",
    "linearity holds or fails for combinations: a factor that is not pulled out, a term that becomes its neighbour, a simplification that joins two terms; tests integrate few sums and fewer with parameters",
    [S + "integration.py", S + "transforms.py"], [("constants", S + "transforms.py:PullConstant"), ("sums", S + "transforms.py:Additivity"), ("search", S + "integration.py:Integration.integrate")],
    "every combination is run through the complete search of the real code with a virtual clock; solved or not, the derivative of the answer, and the value over an interval are compared with the parts'",
    "explicit-state exploration of the real code (bounded exhaustive enumeration of combinations of integrands)",
)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]] if isinstance(p["mech"][0], tuple) and len(p["mech"][0]) == 2 else [], "hook_needed": None},
            }
            d["anchors"]["mechanism"] = [{"name": m[0], "where": m[1] if len(m) > 1 else m[0]} for m in [(m if isinstance(m, tuple) else (m, m)) for m in p["mech"]]]
            f.write(json.dumps(d) + "\n")
            assert len(p["title"]) <= 80, p["id"]
            assert p["statement"].count(". ") <= 2, p["id"]
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not os.path.exists(os.path.join(ROOT, "mc/checks/%s.py" % p["id"].lower())):
            na.append({"property": p["id"], "reason": "its check is not built yet"})
        else:
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check.sh %s quick" % p["id"],
                "thorough_cmd": "./check.sh %s thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": "model_checking",
                "level_note": p["level_note"],
            })
    m = {
        "version": 1,
        "setup_cmd": "./check.sh --selftest",
        "hooks": {"guard": "VERIF_HOOKS (unused: the checks need no hook in the code; they use its public classes, the documented logger hook, and own time and random from outside)", "enable": "nothing to enable", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
        "notes": "simpy is pure Python; every check imports it from /repo/src in a fresh process without bytecode caches. DESIGN.md describes the method, known_findings.txt the defects.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for line in open(os.path.join(ROOT, "properties.jsonl")):
            jsonschema.validate(json.loads(line), sch)
        print("valid;", len(checks), "checks,", len(na), "without")
    except ImportError:
        print("written (no jsonschema)")


main()
