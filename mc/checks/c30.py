"""C30: taking an expression apart loses nothing.

Every node of every reachable expression, and of what the operations make of it, is taken apart in all the ways the library
offers and put together again; what it says about its parts (symbols, depth, sign, ...) is compared with an independent walk."""
import itertools

import simpy.expr as X
from mc import fp, harness, space
from mc import ops as O
from mc.ops import *  # noqa: F401,F403
from simpy.simplify import simplify
from simpy.simplify.simplify import rewrite_as_one_fraction

try:
    from simpy.simplify.simplify import is_simpler, remove_num_factor
except ImportError:  # helpers: where they are is not the property
    is_simpler = remove_num_factor = None
from simpy.utils import count_symbols

ID = "C30"
LEVEL = "model_checking"
RULE = "state = reachable expression (or the result of an operation on one); transition = one way to take it, or one of its nodes, apart, judged against putting it together again"
ASSUMPTIONS = ["products with a rational factor next to a power of a plain rational number (2*2^x) are put together again in value only"]
REPLAY = """from mc.ops import *
from mc.checks.c30 import *
e = %s
print(e)
for f in facts(e): print(f)
"""
DERIVED = {"expand": lambda e: e.expand() if e.expandable() else None, "diff": lambda e: e.diff(x), "simplify": simplify, "subs": lambda e: e.subs({"x": y - 1}), "factor": lambda e: e.factor() if isinstance(e, Sum) else None}
ANGLES = ["x", "-x", "y - x", "Rat(1, 2)", "-Rat(2, 3)", "x + 1", "asin(x)", "acos(x)", "atan(x)", "x*y", "2*x", "-x*y", "-x - y", "x**2 - 1", "-x - 1", "log(x)", "-2*x/3", "1/x"]
FRACTIONS = ["1/x", "2/x", "y/(x + 1)", "x", "1", "Rat(1, 3)", "x**-2", "-1/(x*y)", "(x + 1)/y", "x/2", "1/(x**2 - 1)", "sin(x)/cos(x)", "1/(3*x)", "e**(-x)", "x**Rat(-1, 2)", "pi/x", "1/pi", "-x/(y + 1)**2"]


def rebuild(e):
    n = e.__class__.__name__
    if n in ("Sum", "Prod"):
        return getattr(X, n)(list(e.terms))
    if n == "Power":
        return X.Power(e.base, e.exponent)
    if n == "log":
        return X.log(e.inner, e.base)
    if not e.children():
        return e
    return type(e)(e.inner)


def nodes(e):
    yield e
    for c in e.children():
        yield from nodes(c)


def names(e):
    return {s.name for s in nodes(e) if isinstance(s, Symbol)}


def negative_power(p):
    return isinstance(p, Power) and isinstance(p.exponent, X.Num) and p.exponent.value < 0


def factors(p):
    return p.terms if isinstance(p, Prod) else [p]


def free(e):
    """a product whose form depends on how its numbers meet"""
    return isinstance(e, Prod) and any(isinstance(t, Rat) for t in e.terms) and any(isinstance(t, Power) and isinstance(t.base, Rat) for t in e.terms)


def same(a, b):
    if free(a) or free(b) or any(free(n) for n in nodes(a)):
        return O.mismatch(O.values(a), O.values(b), None, (a,)) is None
    return fp.ckey(a) == fp.ckey(b)


def facts(e):
    """(what, whether it holds, details)"""
    syms = names(e)
    for s in nodes(e):
        if free(s):
            continue
        r = rebuild(s)
        yield "a part put together again from its parts", fp.key(r) == fp.key(s), (s, r)
    got = e.symbols()
    yield "symbols()", sorted(s.name for s in got) == sorted(syms), got
    yield "count_symbols", count_symbols(e) == sum(isinstance(n, Symbol) for n in nodes(e)), count_symbols(e)
    for v in (x, y, Symbol("w")):
        yield "contains(%s)" % v.name, bool(e.contains(v)) == (v.name in syms), e.contains(v)
        d = X.nesting(e, v)
        yield "nesting by %s is 0 exactly without it" % v.name, (d == 0) == (v.name not in syms), d
        yield "nesting by %s is not above that by all" % v.name, d <= X.nesting(e), (d, X.nesting(e))
    f = X.asin(e)
    if isinstance(f, X.asin) and fp.key(f.inner) == fp.key(e) and not (isinstance(e, Power) and e.exponent == -1):
        yield "a function around it is one deeper", X.nesting(f) == X.nesting(e) + 1, (X.nesting(f), X.nesting(e))
    if not isinstance(e, Sum):
        yield "is_subtraction says how it is printed", bool(e.is_subtraction) == repr(e).startswith("-"), e.is_subtraction
    else:
        yield "is_subtraction of a sum", bool(e.is_subtraction) == all(repr(t).startswith("-") for t in e.terms), e.is_subtraction
        yield "terms", list(e) == e.children() and len(e) == len(e.children()), list(e)
    for cls in (Prod, Sum, Power, X.log, X.sin, X.TrigFunction, X.Rat):
        yield "has(%s)" % cls.__name__, bool(e.has(cls)) == any(isinstance(n, cls) for n in nodes(e)), e.has(cls)
    if isinstance(e, Prod):
        n, d = e.numerator_denominator
        yield "numerator over denominator", same(n / d, e) or free(n) or free(d), (n, d, n / d)
        yield "no denominators in the numerator or denominator", not any(negative_power(q) or isinstance(q, Rat) and q.value.denominator != 1 for q in factors(n) + factors(d)), (n, d)
    if isinstance(e, Prod) and remove_num_factor:
        r = remove_num_factor(e)
        yield "without numbers", not any(isinstance(t, X.Num) and t != 1 for t in factors(r)), r
        yield "only numbers are left out", [fp.key(q) for q in factors(r) if q != 1] == [fp.key(q) for q in e.terms if not isinstance(q, X.Num)], (r, e.terms)
    a, c = X.remove_const_factor(e, include_factor=True)
    yield "constant factor times the rest", same(a * c, e), (a, c, a * c)
    yield "the constant factor", not names(c), c
    if isinstance(e, Prod):
        yield "the rest", all(names(q) for q in factors(a)) or a == 1, a
    yield "the rest alone", fp.key(X.remove_const_factor(e)) == fp.key(a), X.remove_const_factor(e)
    b, p = X.deconstruct_power(e)
    yield "base and exponent", fp.ckey(b**p) == fp.ckey(e), (b, p)
    k, rest = X._deconstruct_prod(e) if hasattr(X, "_deconstruct_prod") else ([], [e])
    yield "coefficient and factors", same(Prod(list(k) + list(rest)), e), (k, rest)
    yield "the coefficient", not k or all(isinstance(t, X.Num) for t in k) and not any(isinstance(t, X.Rat) for t in rest if isinstance(e, Prod)), (k, rest)
    if is_simpler:
        yield "simpler is fewer symbols", is_simpler(e, e) is False and is_simpler(e, e + w) is (count_symbols(e) < count_symbols(e + w)), None
    if isinstance(e, Sum):
        yield from one_fraction(e)


w = Symbol("w")


def parts(t):
    """numerator and denominator, of a term"""
    num = den = 1
    for q in factors(t):
        if negative_power(q):
            den = den * Power(q.base, -q.exponent)
        else:
            num = num * q
    return num, den


def one_fraction(e):
    for const in (True, False):
        r = rewrite_as_one_fraction(e, const)
        what = "one fraction%s" % ("" if const else " (constants left alone)")
        if r is None:
            bad = [t for t in e.terms if any(negative_power(q) and (const or names(q)) for q in factors(t)) or const and isinstance(t, Prod) and any(isinstance(q, Rat) and q.value.denominator != 1 for q in t.terms)]
            yield what + ": nothing to do", not bad, bad
        else:
            yield what + ": value", O.mismatch(O.values(e), O.values(r), None, (e,)) is None, r
            top = factors(r) if not isinstance(r, Sum) else [r]
            deep = [q for f in top if isinstance(f, Sum) for t in f.terms for q in factors(t) if negative_power(q) and names(q)]
            yield what + ": is one", not deep, (r, deep)


def show(e):
    try:
        return repr(e)[:200]
    except Exception as err:
        return "something that cannot be shown (%s)" % type(err).__name__


def judge(acc, t, e):
    try:
        key = fp.key(e)
    except RecursionError:
        acc.violation("apart: %s" % t, "an expression that contains itself", REPLAY % t)
        return
    acc.state(fp.h64(key))
    try:
        with harness.limit(30):
            for what, good, detail in facts(e):
                acc.transitions += 1
                if not good:
                    acc.violation("%s: %s" % (what, t), "%s gives %s" % (show(e), show(detail)), REPLAY % t)
                    return
    except Exception as err:
        acc.violation("apart: %s" % t, "%s: raised %r" % (show(e), err), REPLAY % t)
        return
    acc.validated += 1


def extra(deep):
    for f in ("sin", "cos", "tan", "sec", "csc", "cot"):
        for a in ANGLES:
            for k in ("", " + 2*pi", " - 2*pi", " + pi", " - pi", " + 4*pi", " - 3*pi", " + pi/2", " - pi/3"):
                yield "%s(%s%s)" % (f, a, k)
    for f, g in itertools.product(("sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "log", "abs", "sqrt"), repeat=2):
        for a in ("x", "-x", "x/2"):
            yield "%s(%s(%s))" % (f, g, a)
    for r in (2, 3):
        for c in itertools.combinations(FRACTIONS, r):
            yield " + ".join(c)
    yield from space.meeting(4 if deep else 3)


def stage_tasks(tier, stage, carry):
    tasks = space.stages(stage, carry, thin=5 if tier == "quick" else 1)
    if stage == 1:
        n = 32 if tier == "quick" else 128
        tasks += [("extra", k, n) for k in range(n)]
        tasks += [("parse", 0, 1)]
    return tasks


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    if task[0] == "parse":
        for n in range(1, 5):
            for c in itertools.permutations(["x", "y", "theta", "a1", "X"], n):
                acc.transitions += 1
                got = symbols(" ".join(c))
                got = got if isinstance(got, list) else [got]
                if [s.name for s in got] != list(c) or (n == 1) != isinstance(symbols(" ".join(c)), Symbol):
                    acc.violation("symbols(%r)" % " ".join(c), "gives %r" % (got,), "from mc.ops import *\nprint(symbols(%r))\n" % " ".join(c))
        return
    if task[0] == "extra":
        texts = list(extra(task[2] > 32))[task[1]::task[2]]
    else:
        texts = task[1]
    for t in texts:
        try:
            e = space.build(t)
        except Exception:
            acc.note("refused")
            continue
        if not isinstance(e, X.Expr) or O.has_inf(e):
            continue
        judge(acc, t, e)
        for name, fn in DERIVED.items():
            try:
                with harness.limit(20):
                    d = fn(e)
            except Exception:
                continue
            if d is None or O.has_inf(d) or fp.key(d) == fp.key(e):
                continue
            judge(acc, "DERIVED[%r](%s)" % (name, t), d)
    acc.sample("parts of " + (texts[-1] if texts else "-"))
