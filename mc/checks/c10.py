"""C10: a definite integral is the integral over the interval.

Every integrand of the list with every pair of bounds between which it is continuous (the numeric integration converges);
the implementation's value is compared with the numeric one. For each integrand also the reversed and the empty
interval, additivity over adjacent intervals, and symbolic bounds."""
import itertools
import math

from mc import cval, fp, harness, integ, intspace, quad
from mc import ops as O
from mc import val as V
from mc.checks import c09
from mc.ops import *  # noqa: F401,F403

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "state = (integrand, bounds); transition = one definite integration by the implementation, compared with numeric "
    "integration wherever that converges to 1e-11"
)
ASSUMPTIONS = ["continuity on the interval is judged by convergence of the numeric integration and 65 samples", "the search is cut by a virtual clock"]
REPLAY = """from mc import env; env.install()
from mc import integ, quad
from mc.checks import c10
from mc.ops import *
r = integ.search(%(t)s, (x, %(a)s, %(b)s), cap=%(cap)d)
print("answer:", r.answer, r.error)
print("value:", r.answer is not None and c10.value(r.answer), "numeric:", c10.numeric(%(t)s, %(a)s, %(b)s))
"""
BOUNDS = ["Rat(0)", "Rat(1)", "Rat(2)", "Rat(-1)", "Rat(-2)", "Rat(1, 2)", "Rat(-1, 2)", "pi/4", "pi", "2*pi", "-pi/3", "Rat(3)", "Rat(5)", "e", "sqrt(2)", "Rat(-4)"]
B = {t: c09.build(t) for t in BOUNDS}
PAIRS = [(a, b) for a, b in itertools.combinations(BOUNDS, 2)]
QUICK_PAIRS = [("Rat(0)", "Rat(1)"), ("Rat(1)", "Rat(2)"), ("Rat(-2)", "Rat(-1)"), ("Rat(-1)", "Rat(1)"), ("Rat(0)", "pi/4"), ("pi/4", "Rat(1)"), ("Rat(1, 2)", "e"), ("Rat(-1, 2)", "Rat(1, 2)"), ("Rat(3)", "Rat(5)"), ("Rat(-4)", "Rat(-2)"), ("Rat(0)", "pi"), ("pi", "2*pi"), ("Rat(0)", "2*pi"), ("-pi/3", "Rat(2)"), ("sqrt(2)", "Rat(3)")]


def num(ex):
    return V.ev(ex, {})[0]


def numeric(ex, a, b):
    env = integ.env_for(ex)

    def f(t):
        env["x"] = (t, 0.0)
        return V.ev(ex, env)

    lo, hi = num(a), num(b)
    for d in divisors(ex):
        signs = set()
        for k in range(65):
            env["x"] = (lo + (hi - lo) * k / 64.0, 0.0)
            v = d(env)
            if v is None or abs(v[0]) <= 4 * v[1] + 1e-12:
                return None
            signs.add(v[0] > 0)
        if len(signs) > 1:
            return None  # it vanishes in between: not defined there, be it removable
    return quad.integral(f, lo, hi)


def divisors(ex):
    """everything the expression divides by, as functions of the environment"""
    out = []
    n = ex.__class__.__name__
    if n == "Power" and (V.rational_of(ex.exponent) is None or V.rational_of(ex.exponent) < 0):
        out.append(lambda env: V.ev(ex.base, env))
    if n in ("tan", "sec"):
        out.append(lambda env: V.cos(V.ev(ex.inner, env)))
    if n in ("cot", "csc"):
        out.append(lambda env: V.sin(V.ev(ex.inner, env)))
    for c in ex.children():
        out += divisors(c)
    return out


def value(ans, env=None):
    """real arithmetic, and complex principal values where that has no value: ln(-3) - ln(-1) is as good as ln(3)"""
    env = integ.env_for(ans) if env is None else env
    v = V.ev(ans, env)
    return cval.real(ans, env) if v is None else v


def same(v, want):
    """None if there is nothing to say, else whether the value is the wanted (value, error)"""
    if v is None:
        return False
    if v[1] > 1e-7 * max(1.0, abs(v[0])):
        return None
    return abs(v[0] - want[0]) <= 8 * v[1] + want[1] + 1e-8 * (1 + abs(want[0]))


def one(acc, t, ex, a, b, cap):
    """integrates between two bounds; returns the answer if there is one that is right"""
    want = numeric(ex, B[a], B[b])
    if want is None:
        return None
    key = "integrate(%s, (x, %s, %s))" % (t, a, b)
    rep = REPLAY % {"t": t, "a": a, "b": b, "cap": cap}
    r = integ.search(ex, (x, B[a], B[b]), cap=cap, cpu=90)
    acc.transitions += 1
    acc.state(fp.h64(key))
    if r.error is not None:
        acc.violation(key, "raised %r" % (r.error,), rep)
        return None
    if r.answer is None:
        acc.note("not solved")
        return False
    if "x" in integ.fsyms(r.answer):
        acc.violation(key, "the answer %r still contains the variable" % r.answer, rep)
        return None
    v = value(r.answer)
    ok = same(v, want)
    if ok is None:
        acc.skipped += 1
        return None
    if not ok:
        acc.violation(key, "the answer %r has the value %r, the integral is %r" % (r.answer, v and v[0], want[0]), rep)
        return None
    acc.validated += 1
    return r.answer


def integrand(t, acc, pairs, cap, deep):
    ex = c09.build(t)
    if ex is None or "x" not in integ.fsyms(ex):
        return
    done = []
    for a, b in pairs:
        if num(B[a]) > num(B[b]):
            a, b = b, a
        got = one(acc, t, ex, a, b, cap)
        if got is False:
            return  # the integrator does not solve it, whatever the bounds
        if got is not None:
            done.append((a, b, got))
    for k, (a, b, got) in enumerate(done):
        if k and not deep:
            break
        # the reversed interval
        one(acc, t, ex, b, a, cap)
        one(acc, t, ex, a, a, cap)
        # symbolic bounds
        for syms in (("p", "q"), ("x", "q")) if k == 0 else (("p", "q"),):
            p, q = Symbol(syms[0]), Symbol(syms[1])
            r = integ.search(ex, (x, p, q), cap=cap, cpu=90)
            acc.transitions += 1
            key = "integrate(%s, (x, %s, %s))" % (t, p, q)
            rep = "from mc import env; env.install()\nfrom mc import integ\nfrom mc.ops import *\nprint(integ.search(%s, (x, Symbol(%r), Symbol(%r)), cap=%d).answer)\n" % (t, syms[0], syms[1], cap)
            if r.error is not None:
                acc.violation(key, "raised %r" % (r.error,), rep)
                continue
            if r.answer is None:
                acc.violation(key, "is not solved, although it is for %s..%s" % (a, b), rep)
                continue
            for a2, b2, _ in done:
                env = integ.env_for(ex)
                env[syms[0]], env[syms[1]] = V.ev(B[a2], {}), V.ev(B[b2], {})
                miss = integ.fsyms(r.answer) - set(env)
                if miss:
                    acc.violation(key, "the answer %r contains foreign symbols %s" % (r.answer, sorted(miss)), rep)
                    break
                v = value(r.answer, env)
                ok = same(v, numeric(ex, B[a2], B[b2]))
                if ok is False:
                    acc.violation(key, "the answer %r has the value %r at %s..%s" % (r.answer, v and v[0], a2, b2), rep)
                    break
                if ok:
                    acc.validated += 1
    acc.sample("integrals of %s over %d intervals" % (t, len(done)))


def tasks(tier):
    quick = tier == "quick"
    if quick:
        L = intspace.ATOMS + intspace.MORE + intspace.families()[::2]
    else:
        L = intspace.integrands("quick")
    L = list(dict.fromkeys(L))
    m = 96 if quick else 512
    return [(tuple(L[i::m]), quick) for i in range(m)]


def run(task, acc):
    L, quick = task
    for t in L:
        integrand(t, acc, QUICK_PAIRS if quick else PAIRS, 20, not quick)
