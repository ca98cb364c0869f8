"""Alphabet of public operations, each with its plain real-arithmetic meaning (val.py).

Names are Python expressions, so a trace like "sqrt((x)+(Rat(1, 2)))" can be replayed after
`from mc.ops import *`."""
import operator
from fractions import Fraction as F

from simpy.expr import (  # noqa: F401
    Abs,
    E,
    Expr,
    Float,
    Infinity,
    NaN,
    NegInfinity,
    Num,
    Pi,
    Power,
    Prod,
    Rat,
    Sum,
    Symbol,
    acos,
    asin,
    atan,
    cos,
    cot,
    csc,
    diff,
    e,
    inf,
    latex,
    log,
    nesting,
    pi,
    sec,
    sin,
    sqrt,
    symbols,
    tan,
)

from . import fp
from . import val as V

x, y, z = symbols("x y z")

# evaluation grid: positive, mixed and negative points, none special for any function in the alphabet
POINTS = [(0.37, 0.81, 1.23), (1.618, 0.27, 0.55), (2.3, 3.1, 0.19), (-0.7, 0.6, 1.9), (-1.3, -2.2, 0.77), (0.55, -1.7, -0.41)]
ENVS = [{"x": (a, 0.0), "y": (b, 0.0), "z": (c, 0.0)} for a, b, c in POINTS]
POSITIVE = [all(t > 0 for t in p) for p in POINTS]

ATOMS = {
    "x": x,
    "y": y,
    "Rat(0)": Rat(0),
    "Rat(1)": Rat(1),
    "Rat(-1)": Rat(-1),
    "Rat(2)": Rat(2),
    "Rat(1, 2)": Rat(1, 2),
    "Rat(-2, 3)": Rat(-2, 3),
    "Rat(3)": Rat(3),
    "pi": pi,
    "e": e,
}


def safe_log2(a):
    return log(a, Rat(2))


UNARY = {
    "-(%s)": (operator.neg, V.neg),
    "abs(%s)": (abs, V.vabs),
    "sqrt(%s)": (sqrt, lambda a: V.qpow(a, F(1, 2))),
    "1/(%s)": (lambda a: 1 / a, V.inv),
    "(%s)**2": (lambda a: a**2, lambda a: V.qpow(a, F(2))),
    "(%s)**3": (lambda a: a**3, lambda a: V.qpow(a, F(3))),
    "(%s)**F(1, 3)": (lambda a: a ** F(1, 3), lambda a: V.qpow(a, F(1, 3))),
    "(%s)**F(-3, 2)": (lambda a: a ** F(-3, 2), lambda a: V.qpow(a, F(-3, 2))),
    "e**(%s)": (lambda a: e**a, V.exp),
    "log(%s)": (log, V.ln),
    "log(%s, Rat(2))": (safe_log2, lambda a: V.div(V.ln(a), V.ln((2.0, 0.0)))),
    "sin(%s)": (sin, V.sin),
    "cos(%s)": (cos, V.cos),
    "tan(%s)": (tan, V.tan),
    "csc(%s)": (csc, V.csc),
    "sec(%s)": (sec, V.sec),
    "cot(%s)": (cot, V.cot),
    "asin(%s)": (asin, V.asin),
    "acos(%s)": (acos, V.acos),
    "atan(%s)": (atan, V.atan),
}
UNARY_EXP = {"sqrt(%s)": F(1, 2), "1/(%s)": F(-1), "(%s)**2": F(2), "(%s)**3": F(3), "(%s)**F(1, 3)": F(1, 3), "(%s)**F(-3, 2)": F(-3, 2)}
BINARY = {
    "(%s) + (%s)": (operator.add, V.add),
    "(%s) - (%s)": (operator.sub, V.sub),
    "(%s) * (%s)": (operator.mul, V.mul),
    "(%s) / (%s)": (operator.truediv, V.div),
    "(%s) ** (%s)": (operator.pow, None),
}


def values(ex, envs=ENVS):
    return [V.ev(ex, v) for v in envs]


def defined_somewhere(vals):
    return any(v is not None and v[1] < 1e-6 for v in vals)


def has_inf(ex):
    n = ex.__class__.__name__
    if n in ("Infinity", "NegInfinity", "NaN"):
        return True
    if n == "Float":
        return ex.value != ex.value or ex.value in (float("inf"), float("-inf"))
    return any(has_inf(c) for c in ex.children())


def size(ex):
    return 1 + sum(size(c) for c in ex.children())


PRINCIPAL = {
    "asin": ("sin", lambda v: abs(v) <= 1.57),
    "acos": ("cos", lambda v: 0 <= v <= 3.14),
    "atan": ("tan", lambda v: abs(v) <= 1.57),
}


def in_principal_range(fn_template, ex, env):
    """asin(sin(u)) and friends are read on the principal branch (DESIGN, C01 scope)"""
    fn = fn_template.split("(")[0]
    if fn in PRINCIPAL:
        f, ok = PRINCIPAL[fn]
        if ex.__class__.__name__ == f:
            u = V.ev(ex.inner, env)
            return u is not None and ok(u[0])
    return True


def even_root_scope(ex, q, env):
    """(b**even)**q with a negative b and a non-integer q other than 1/even is outside the claimed scope
    (recorded as a known finding): simpy multiplies the exponents."""
    if q.denominator == 1:
        return True
    todo = [ex]
    while todo:
        t = todo.pop()
        n = t.__class__.__name__
        if n == "Prod":
            todo.extend(t.terms)
        elif n == "Power":
            b = V.ev(t.base, env)
            if b is not None and b[0] < 0:
                xx = t.exponent
                if not (xx.__class__.__name__ == "Rat" and xx.value * q == 1):
                    return False
    return True


def model_unary(tmpl, ex, vals, envs=ENVS):
    m = UNARY[tmpl][1]
    out = []
    q = UNARY_EXP.get(tmpl)
    for v, env in zip(vals, envs):
        if q is not None and not even_root_scope(ex, q, env):
            out.append(None)
        elif not in_principal_range(tmpl, ex, env):
            out.append(None)
        else:
            out.append(m(v))
    return out


def model_binary(tmpl, ea, va, eb, vb, envs=ENVS):
    m = BINARY[tmpl][1]
    if m is not None:
        return [m(p, q) for p, q in zip(va, vb)]
    bq = V.rational_of(eb)
    out = []
    for p, q, env in zip(va, vb, envs):
        if bq is not None and not even_root_scope(ea, bq, env):
            out.append(None)
        elif bq is None and ea.__class__.__name__ in ("Power", "Prod") and not even_root_scope(ea, F(1, 7), env):
            out.append(None)
        else:
            out.append(V.power(p, q, bq))
    return out


def tame(ex, env):
    """every subexpression has a positive value: nothing to lose by splitting roots, logs or powers"""
    v = V.ev(ex, env)
    if v is None or v[1] > 1e-6 or v[0] <= 0:
        return False
    return all(tame(c, env) for c in ex.children())


def mismatch(model, got, acc=None, operands=(), envs=ENVS):
    """None, or (index, model value, implementation value) of the first disagreement.

    Values are compared wherever both are defined. The implementation may lose a value only where some
    subexpression of an operand is not positive (splitting sqrt(a*b) is fine only for positive a, b)."""
    for i, (a, b) in enumerate(zip(model, got)):
        c = V.cmp(a, b)
        if c == V.DIFF:
            return i, a, b
        if a is not None and b is None and a[1] < 1e-6 and all(tame(o, envs[i]) for o in operands):
            return i, a, b
        if acc is not None:
            if c == V.SKIP:
                acc.skipped += 1
            else:
                acc.validated += 1
    return None
