"""C20: trigonometric functions at every rational multiple of pi, under every shift by multiples of pi/2 and every sign;
inverse functions and their compositions."""
import itertools
import math
from fractions import Fraction as Fr

from mc import fp, harness
from mc import ops as O
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C20"
LEVEL = "model_checking"
RULE = (
    "state = (function, argument as written); transition = its construction on the real code; the value is compared with "
    "the angle reduced exactly, poles must not be finite, and at the standard angles no function may be left over"
)
ASSUMPTIONS = ["asin(sin(u)) and its like are read where u is in the principal range", "equality of functions is judged at six points"]

FUN = {"sin": sin, "cos": cos, "tan": tan, "sec": sec, "csc": csc, "cot": cot}
INV = {"asin": asin, "acos": acos, "atan": atan}
INNER = ["x", "2*x", "-x", "x + 1", "x**2", "y - x", "x/3", "-2*x - 1", "x*y", "sin(x)", "sqrt(x)", "pi*x", "1/x", "e**x", "asin(x)", "log(x)", "x + sqrt(2)", "x + e", "-(x**2)", "y*pi - x"]
INVIN = ["x", "-x", "x/2", "x**2", "2*x", "1/x", "x + y", "sqrt(x)", "x*y", "Rat(1, 2)", "Rat(-1, 3)", "sqrt(2)/2", "-sqrt(3)/2", "Rat(1)", "Rat(-1)", "Rat(0)", "Rat(2)", "sqrt(3)", "-1/sqrt(3)", "sin(x)/2", "1 - x**2"]
NS = dict(O.__dict__)
REPLAY = "from mc.ops import *\nfrom mc import val\nr = %s\nprint(repr(r), [val.ev(r, v) for v in ENVS])\n"


def tasks(tier):
    N, turns = (24, 3) if tier == "quick" else (60, 5)
    out = [("angle", n, turns) for n in range(1, N + 1)]
    out += [("angle", n, 1) for n in (48, 90, 360, 1000)]
    out += [("far", f) for f in FUN]
    out += [("shift", f, i, 12 if tier == "quick" else 24) for f in FUN for i in range(len(INNER))]
    out += [("inverse", f) for f in list(FUN) + list(INV)]
    out += [("float", f) for f in list(FUN) + list(INV)]
    out += [("double", i, tier) for i in range(len(INNER))]
    return out


def exact(f, r):
    """value of f(r*pi) for a Fraction r: None at a pole"""
    r = r % 2
    quarter = r % Fr(1, 2)
    # reduce to the first octant so that zeros and ones are exact
    def s(t):
        t = t % 2
        if t >= 1:
            return -s(t - 1)
        if t > Fr(1, 2):
            t = 1 - t
        if t == Fr(1, 6):
            return 0.5
        return math.sin(math.pi * float(t)) if t <= Fr(1, 4) else math.cos(math.pi * float(Fr(1, 2) - t))

    sn, cs = s(r), s(r + Fr(1, 2))
    if f == "sin":
        return sn
    if f == "cos":
        return cs
    num, den = {"tan": (sn, cs), "cot": (cs, sn), "sec": (1.0, cs), "csc": (1.0, sn)}[f]
    return None if den == 0 else num / den


def leftover(ex):
    n = ex.__class__.__name__
    return n in FUN or n in INV or n in ("Float", "Symbol") or any(leftover(c) for c in ex.children())


def make(acc, key):
    acc.transitions += 1
    try:
        with harness.limit(10):
            r = eval(key, NS)
            acc.state(fp.h64(key))
            return True, r
    except ZeroDivisionError:
        raise
    except Exception as ex:
        acc.violation(key, "raised %r" % (ex,), REPLAY % key)
        return False, None


def angle(acc, f, r, forms):
    want = exact(f, r)
    for form in forms:
        key = "%s(%s)" % (f, form)
        try:
            ok, got = make(acc, key)
        except ZeroDivisionError as ex:
            if want is not None:
                acc.violation(key, "raised %r" % ex, REPLAY % key)
            continue
        if not ok:
            continue
        v = V.ev(got, O.ENVS[0])
        if want is None:
            if v is not None and v[1] < 1e-6 and abs(v[0]) < 1e12:
                acc.violation(key, "is %r = %r, but this is a pole" % (got, v[0]), REPLAY % key)
            else:
                acc.note("poles")
            continue
        if v is None or not abs(v[0] - want) <= 1e-11 * (1 + abs(want)) ** 2 + 8 * min(v[1], 1e-9):
            acc.violation(key, "is %r = %r, the value is %r" % (got, v and v[0], want), REPLAY % key)
            continue
        acc.validated += 1
        if r.denominator in (1, 2, 3, 4, 6) and leftover(got):
            acc.violation(key, "is left as %r, but this is a standard angle" % (got,), REPLAY % key)


def q(r):
    return "Rat(%d, %d)" % (r.numerator, r.denominator)


def compare(acc, key, model, operands):
    """model: list of values at ENVS"""
    try:
        ok, got = make(acc, key)
    except ZeroDivisionError as ex:
        if any(v is not None and v[1] < 1e-6 for v in model):
            acc.violation(key, "raised %r" % ex, REPLAY % key)
        return
    if not ok:
        return
    try:
        vals = O.values(got)
    except Exception as ex:
        acc.violation(key, "is no proper expression: %r" % (ex,), REPLAY % key)
        return
    bad = O.mismatch(model, vals, acc, operands)
    if bad:
        i, a, b = bad
        acc.violation(key, "is %r: at %r it is %r, the function has %r" % (got, O.POINTS[i], b, a), REPLAY % key)


def run(task, acc):
    kind = task[0]
    if kind == "angle":
        _, n, turns = task
        ks = range(-2 * turns * n, 2 * turns * n + 1) if n <= 60 else list(range(-5, 6)) + [n - 1, n, n + 1, n // 2, 2 * n + 1, -n - 1, 3 * n // 2]
        for k in ks:
            r = Fr(k, n)
            if math.gcd(k, n) != 1 and n <= 60:
                continue
            forms = ["%s*pi" % q(r), "-(%s*pi)" % q(-r), "Prod([pi, %s])" % q(r)]
            if abs(k) <= 2 * n:
                forms += ["pi*%d/%d" % (k, n), "pi/%d + %s*pi" % (n, q(r - Fr(1, n))), "Sum([%s*pi, %s*pi])" % (q(r / 2), q(r / 2))]
            for f in FUN:
                angle(acc, f, r, forms)
    elif kind == "far":
        f = task[1]
        for m in (50, 999, 10**6, 10**12, -(10**9), 2**60):
            for r in (Fr(0), Fr(1, 6), Fr(1, 4), Fr(1, 3), Fr(1, 2), Fr(5, 6), Fr(1), Fr(5, 4), Fr(7, 4), Fr(11, 6)):
                t = r + m
                want = exact(f, t)
                key = "%s(%s*pi)" % (f, q(t))
                try:
                    ok, got = make(acc, key)
                except ZeroDivisionError:
                    continue
                if not ok:
                    continue
                v = V.ev(got, O.ENVS[0])
                if want is None:
                    if v is not None and v[1] < 1e-6 and abs(v[0]) < 1e12 and not leftover(got):
                        acc.violation(key, "is %r, but this is a pole" % (got,), REPLAY % key)
                elif leftover(got) or v is None or abs(v[0] - want) > 1e-11 * (1 + abs(want)):
                    acc.violation(key, "is %r, the value is %r" % (got, want), REPLAY % key)
                else:
                    acc.validated += 1
    elif kind == "shift":
        _, f, i, m = task
        t = INNER[i]
        u = eval(t, NS)
        base = O.values(u)
        for j in range(-m, m + 1):
            for sh in sorted({Fr(j, 2), Fr(j, 3), Fr(j), Fr(j, 6) if abs(j) < 4 else Fr(j)}):
                pis = (math.pi * float(sh), 1e-15 * (1 + abs(j)))
                vals = [V.FUNCS[f](V.add(b, pis)) for b in base]
                neg = [V.FUNCS[f](V.sub(pis, b)) for b in base]
                compare(acc, "%s((%s) + %s*pi)" % (f, t, q(sh)), vals, ())
                compare(acc, "%s(%s*pi - (%s))" % (f, q(sh), t), neg, ())
                if j % 3 == 0:
                    compare(acc, "%s(-((%s) + %s*pi))" % (f, t, q(sh)), [V.FUNCS[f](V.neg(V.add(b, pis))) for b in base], ())
                    compare(acc, "3*%s((%s) + %s*pi) + 1" % (f, t, q(sh)), [V.add(V.mul((3.0, 0.0), v), (1.0, 0.0)) for v in vals], ())
                if j in (-2, 1, 2, 4):
                    for k2 in (1, 2, -3):
                        both = (math.pi * float(sh + k2), 1e-14)
                        compare(acc, "%s(Sum([%s*pi, %s, %d*pi]))" % (f, q(sh), t, k2), [V.FUNCS[f](V.add(b, both)) for b in base], ())
    elif kind == "inverse":
        f = task[1]
        for t in INVIN:
            u = eval(t, NS)
            base = O.values(u)
            if f in INV:
                compare(acc, "%s(%s)" % (f, t), [V.FUNCS[f](b) for b in base], (u,))
                compare(acc, "%s(-(%s))" % (f, t), [V.FUNCS[f](V.neg(b)) for b in base], (u,))
                for g in FUN:
                    try:
                        w = eval("%s(%s)" % (g, t), NS)
                    except ZeroDivisionError:
                        continue
                    if O.has_inf(w):
                        continue
                    gv = [V.FUNCS[g](b) for b in base]
                    model = [V.FUNCS[f](v) if O.in_principal_range(f, w, env) else None for v, env in zip(gv, O.ENVS)]
                    if w.__class__.__name__ in FUN and w.__class__.__name__ != g:
                        continue
                    if g in ("sec", "csc", "cot"):
                        # read like asin(sin(u)): the reciprocal functions have no principal range of their own here
                        continue
                    compare(acc, "%s(%s(%s))" % (f, g, t), model, (u,))
            else:
                for g in INV:
                    gv = [V.FUNCS[g](b) for b in base]
                    try:
                        w = eval("%s(%s)" % (g, t), NS)
                    except ZeroDivisionError:
                        continue
                    for pre, pv in (("", lambda v: v), ("-", V.neg), ("2*", lambda v: V.mul((2.0, 0.0), v)), ("pi + ", lambda v: V.add(V.PI, v)), ("2*pi - ", lambda v: V.sub(V.mul((2.0, 0.0), V.PI), v)), ("pi/2 - ", lambda v: V.sub(V.mul((0.5, 0.0), V.PI), v))):
                        compare(acc, "%s(%s%s(%s))" % (f, pre, g, t), [V.FUNCS[f](pv(v)) for v in gv], (u, w))
    elif kind == "float":
        f = task[1]
        for c in (0.0, 0.5, -0.25, 1.0, -1.0, 0.9, 2.5, -7.25, 100.125, 3.141592653589793):
            v = V.FUNCS[f](V.const(c))
            if v is None or v[1] > 1e-3:
                continue
            compare(acc, "%s(%r)" % (f, c), [v] * len(O.ENVS), ())
            compare(acc, "%s(x).subs({'x': Float(%r)})" % (f, c), [v] * len(O.ENVS), ())
            compare(acc, "%s(x).evalf({'x': %r})" % (f, c), [v] * len(O.ENVS), ())
        for r in (Fr(1, 6), Fr(1, 4), Fr(1, 3), Fr(2, 3), Fr(3, 4), Fr(7, 6), Fr(5, 3), Fr(1, 5)):
            if f in FUN:
                w = exact(f, r)
                compare(acc, "%s(%s*pi).evalf()" % (f, q(r)), [(w, 1e-14)] * len(O.ENVS), ())
                compare(acc, "%s(%s*x).evalf({'x': pi})" % (f, q(r)), [(w, 1e-14)] * len(O.ENVS), ())
                compare(acc, "%s(x + y).subs({'x': pi, 'y': %s*pi})" % (f, q(r)), [(exact(f, r + 1), 1e-14)] * len(O.ENVS), ())
    else:
        # products and quotients of two functions of the same shifted argument
        t = INNER[task[1]]
        u = eval(t, NS)
        base = O.values(u)
        for f, g in itertools.combinations_with_replacement(FUN, 2):
            for sh in (Fr(0), Fr(1), Fr(-2), Fr(1, 2), Fr(7, 2), Fr(4)):
                pis = (math.pi * float(sh), 1e-14)
                a = [V.FUNCS[f](V.add(b, pis)) for b in base]
                b2 = [V.FUNCS[g](V.neg(b)) for b in base]
                for op, m in (("*", V.mul), ("/", V.div), ("+", V.add), ("-", V.sub)):
                    compare(acc, "%s((%s) + %s*pi) %s %s(-(%s))" % (f, t, q(sh), op, g, t), [m(p, w) for p, w in zip(a, b2)], ())
