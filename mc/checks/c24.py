"""C24: all ways to ask for an integral agree.

Every integrand of the list under every call form: variable left out, named, as keyword; bounds with and without the
variable, as plain numbers and as expressions; through the class; with each search option. Unclear requests must be
refused with ValueError, constants must integrate, unsolvable integrals must give nothing."""
import itertools
import warnings
from fractions import Fraction

import simpy
from mc import env as W
from mc import fp, harness, integ, intspace
from mc import ops as O
from mc import val as V
from mc.checks import c09, c10, c12
from mc.ops import *  # noqa: F401,F403

ID = "C24"
LEVEL = "model_checking"
RULE = "state = (integrand, bounds); transition = one call form, its answer compared in structure (and value) with the reference form"
ASSUMPTIONS = ["every call runs in the same world (virtual clock, same generated names), so that equal requests take the same path"]
CAP = 14
HEAD = "from mc import env; env.install()\nfrom mc.checks.c24 import *\n"


def call(fn, budget=2.5):
    """(answer, exception) of one call in a fresh deterministic world"""
    w = W.World(expire_at=CAP, cpu_budget=budget)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with w, harness.limit(60):
                return fn(), None, w.struck
        except harness.CpuTimeout as e_:
            return None, e_, True
        except Exception as e_:
            return None, e_, w.struck


def agree(acc, key, rep, ref, got, how):
    acc.transitions += 1
    a, ea, sa = ref
    b, eb, sb = got
    if sa or sb:
        acc.note("slow search, not compared")
        return
    if ea is not None or eb is not None:
        if eb is not None and ea is None:
            acc.violation(key, "%s raised %r, the reference form answers %r" % (how, eb, a), rep)
        return
    if (a is None) != (b is None):
        acc.violation(key, "%s answers %r, the reference form %r" % (how, b, a), rep)
        return
    acc.validated += 1
    if a is None:
        return
    if not isinstance(b, Expr):
        acc.violation(key, "%s answers %r, which is not an expression" % (how, b), rep)
        return
    if fp.ckey(a) != fp.ckey(b):
        # floats may differ in representation; the values must not
        names = integ.fsyms(a) | integ.fsyms(b)
        env = {s: (integ.PARAMS.get(s, 0.613), 0.0) for s in names}
        if V.cmp(V.ev(a, env), V.ev(b, env), 1e-7) != V.SAME:
            acc.violation(key, "%s answers %r, the reference form %r" % (how, b, a), rep)


INT_FORMS = {
    "simpy.integrate(f, x)": lambda f: simpy.integrate(f, x),
    "simpy.integrate(f)": lambda f: simpy.integrate(f),
    "simpy.integrate(f, bounds=x)": lambda f: simpy.integrate(f, bounds=x),
    "simpy.integrate(expr=f, bounds=x)": lambda f: simpy.integrate(expr=f, bounds=x),
    "simpy.integrate(f, Symbol('x'))": lambda f: simpy.integrate(f, Symbol("x")),
    "simpy.integrate(f, x, debug=False)": lambda f: simpy.integrate(f, x, debug=False),
    "simpy.integrate(f, x, breadth_first=False)": lambda f: simpy.integrate(f, x, breadth_first=False),
}
NUMS = [(0, 1), (1, 2), (-2, -1), (1, 3), (Fraction(1, 2), Fraction(3, 4)), (0, Fraction(1, 3)), (2, 1)]


def def_forms(a, b):
    A, B = Rat(a), Rat(b)
    out = {
        "(x, a, b) with expressions": lambda f: simpy.integrate(f, (x, A, B)),
        "(x, a, b) with numbers": lambda f: simpy.integrate(f, (x, a, b)),
        "(a, b) with expressions": lambda f: simpy.integrate(f, (A, B)),
        "(a, b) with numbers": lambda f: simpy.integrate(f, (a, b)),
        "bounds=(a, b)": lambda f: simpy.integrate(f, bounds=(a, b)),
        "bounds=(x, a, b)": lambda f: simpy.integrate(f, bounds=(x, a, b)),
        "(x, a, b) mixed": lambda f: simpy.integrate(f, (x, a, B)),
    }
    return out


def sym_forms(acc, t, f, quick):
    """bounds that are symbols or hold the variable itself: with and without the variable named, as tuple and keyword"""
    for a, b in [("0", "y"), ("y", "2*y"), ("1", "x")][:: 2 if quick else 1] + ([] if quick else [("x", "x + 1"), ("y", "z")]):
        A, B = eval("Rat(0) + (%s)" % a, globals()), eval("Rat(0) + (%s)" % b, globals())
        ref = call(lambda: simpy.integrate(f, (x, A, B)))
        for how, fn in {
            "(a, b)": lambda: simpy.integrate(f, (A, B)),
            "bounds=(a, b)": lambda: simpy.integrate(f, bounds=(A, B)),
            "bounds=(x, a, b)": lambda: simpy.integrate(expr=f, bounds=(x, A, B)),
        }.items():
            agree(acc, "%s of %s, a=%s, b=%s" % (how, t, a, b), HEAD + "print(simpy.integrate(%s, (x, %s, %s)), simpy.integrate(%s, (%s, %s)))\n" % (t, a, b, t, a, b), ref, call(fn), how)


def forms(t, acc, quick=False):
    f = c09.build(t)
    if f is None:
        return
    syms = integ.fsyms(f)
    acc.state(fp.h64(t))
    ref = call(lambda: simpy.integrate(f, x))
    for how, fn in INT_FORMS.items() if not ref[2] else ():
        if how == "simpy.integrate(f)" and syms != {"x"}:
            r = call(lambda: simpy.integrate(f))
            acc.transitions += 1
            if len(syms) != 1 and not isinstance(r[1], ValueError):
                acc.violation("%s of %s" % (how, t), "not clear which variable is meant, but the answer is %r (%r)" % (r[0], r[1]), HEAD + "print(simpy.integrate(%s))\n" % t)
            continue
        agree(acc, "%s of %s" % (how, t), HEAD + "f = %s\nprint(simpy.integrate(f, x), INT_FORMS[%r](f))\n" % (t, how), ref, call(lambda: fn(f)), how)
    if ref[0] is None and ref[1] is None:
        r = call(lambda: simpy.integrate(f, (x, 1, 2)))
        acc.transitions += 1
        if r[0] is not None or r[1] is not None:
            acc.violation("definite integral of " + t, "cannot be integrated, but the definite integral answers %r (%r)" % r[:2], HEAD + "print(simpy.integrate(%s, (x, 1, 2)))\n" % t)
    nums = NUMS
    if ref[2]:
        acc.note("slow search, call forms not compared")
        return
    if ref[0] is None:
        nums = NUMS[:1]
    elif quick:
        nums = [NUMS[0], NUMS[1 + acc.transitions % (len(NUMS) - 1)]]
    for a, b in nums:
        fs = def_forms(a, b)
        how0 = "(x, a, b) with expressions"
        ref = call(lambda: fs[how0](f))
        for how, fn in fs.items():
            if how == how0:
                continue
            if "(a, b)" in how and "x, a, b" not in how and syms != {"x"}:
                r = call(lambda: fn(f))
                acc.transitions += 1
                if len(syms) != 1 and not isinstance(r[1], ValueError):
                    acc.violation("%s of %s" % (how, t), "not clear which variable is meant, but the answer is %r (%r)" % (r[0], r[1]), "")
                continue
            agree(acc, "%s of %s, a=%s, b=%s" % (how, t, a, b), HEAD + "f = %s\nfs = def_forms(%r, %r)\nprint(fs[%r](f), fs[%r](f))\n" % (t, a, b, how0, how), ref, call(lambda: fn(f)), how)
    if syms == {"x"} and not ref[2]:
        sym_forms(acc, t, f, quick)
    acc.sample("call forms of " + t)


def constants(acc):
    """numbers and other constants integrate; plain numbers are accepted as integrands"""
    cs = [0, 1, 2, -3, Fraction(1, 2), 2.5, Rat(7), pi, e, sqrt(2), pi**2, y, y**2 + 1, sin(y), log(Rat(3))]
    for c in cs:
        ex = c if isinstance(c, Expr) else (Float(c) if isinstance(c, float) else Rat(c))
        key = "constant %r" % (c,)
        for a, b in [(0, 1), (1, 3), (-2, Fraction(1, 2)), (2, 2)]:
            acc.transitions += 1
            acc.state(fp.h64("%s %s %s" % (key, a, b)))
            r = call(lambda: simpy.integrate(c, (x, a, b)))
            env = {"y": (0.7, 0.0)}
            if r[0] is None:
                acc.violation(key, "integrating over (%s, %s) gives %r, %r" % (a, b, r[0], r[1]), HEAD + "print(simpy.integrate(%r, (x, %r, %r)))\n" % (c, a, b))
                continue
            want = V.mul(V.ev(ex, env), V.const(Fraction(b) - Fraction(a)))
            if V.cmp(V.ev(r[0], env), want) == V.DIFF:
                acc.violation(key, "integrated over (%s, %s) gives %r" % (a, b, r[0]), "")
            acc.validated += 1
        r = call(lambda: simpy.integrate(c, x))
        acc.transitions += 1
        if r[0] is None:
            acc.violation(key, "is not integrated: %r" % (r[1],), HEAD + "print(simpy.integrate(%r, x))\n" % (c,))
        else:
            n, bad, lost = integ.derivative_matches(r[0], ex, "x")
            if bad:
                acc.violation(key, "the integral is %r" % r[0], "")
            acc.validated += n
        if not integ.fsyms(ex):
            for how, fn in {"integrate(c)": lambda: simpy.integrate(c), "integrate(c, (0, 1))": lambda: simpy.integrate(c, (0, 1))}.items():
                acc.transitions += 1
                r = call(fn)
                if not isinstance(r[1], ValueError):
                    acc.violation(key, "%s is unclear, but gives %r (%r)" % (how, r[0], r[1]), "")


def unclear():
    """bounds without a variable, which may hold symbols of the integrand: several symbols (or none) leave the variable unclear"""
    fs = ["x*y", "x + y", "x*y*z", "x**2 + y**2 + z", "sin(x*y)", "x/y", "e**(x + z)", "x + y - y*z", "pi*x*y", "log(x, y)"]
    bs = ["(0, y)", "(y, 0)", "(x, y)", "(y, x + 1)", "(0, x)", "(0, z)", "(y, z)", "(pi, 2*y)", "(-y, y)", "(1, y**2)", "(0, Symbol('a'))", "(0, 1)", "(0, inf)"]
    out = {}
    for f in fs:
        for b in bs:
            t = "integrate(%s, %s)" % (f, b)
            out[t] = eval("lambda: simpy.%s" % t, globals())
            t = "integrate(%s, bounds=%s)" % (f, b)
            out[t] = eval("lambda: simpy.%s" % t, globals())
    return out


def refused(acc):
    bad = {
        "integrate(x*y)": lambda: simpy.integrate(x * y),
        "integrate(x*y, (1, 2))": lambda: simpy.integrate(x * y, (1, 2)),
        **unclear(),
        "integrate(x, 3)": lambda: simpy.integrate(x, 3),
        "integrate(x, pi)": lambda: simpy.integrate(x, pi),
        "integrate(x, 2*x)": lambda: simpy.integrate(x, 2 * x),
        "integrate(x, (1,))": lambda: simpy.integrate(x, (1,)),
        "integrate(x, (x, 1, 2, 3))": lambda: simpy.integrate(x, (x, 1, 2, 3)),
        "integrate(x, ())": lambda: simpy.integrate(x, ()),
        "integrate(x, [1, 2])": lambda: simpy.integrate(x, [1, 2]),
        "integrate('x', x)": lambda: simpy.integrate("x", x),
        "integrate(x, 'x')": lambda: simpy.integrate(x, "x"),
        "integrate(x, x, nonsense=1)": lambda: simpy.integrate(x, x, nonsense=1),
        "diff(x*y)": lambda: simpy.diff(x * y, None),
        "sin('x')": lambda: sin("x"),
        "x + 'a'": lambda: x + "a",
        "x ** 'a'": lambda: x ** "a",
        "x * object()": lambda: x * object(),
    }
    for how, fn in bad.items():
        acc.transitions += 1
        acc.state(fp.h64(how))
        r = call(fn)
        if r[1] is None or isinstance(r[1], harness.CpuTimeout):
            acc.violation(how, "is not refused but gives %r" % (r[0],), HEAD + "print(%s)\n" % how.replace("integrate", "simpy.integrate"))
        elif isinstance(r[1], (AttributeError, RecursionError)):
            acc.violation(how, "fails with %r instead of being refused" % (r[1],), HEAD + "print(%s)\n" % how.replace("integrate", "simpy.integrate"))
        acc.validated += 1


def tasks(tier):
    L = list(c12.LIST)
    L += [t for t in intspace.integrands("quick")[:: 12 if tier == "quick" else 1] if t not in c12.LIST]
    return [("consts",), ("refused",)] + [("forms", tuple(L[i::64]), tier == "quick") for i in range(64)]


def run(task, acc):
    if task[0] == "consts":
        constants(acc)
    elif task[0] == "refused":
        refused(acc)
    else:
        for t in task[1]:
            forms(t, acc, task[2])
