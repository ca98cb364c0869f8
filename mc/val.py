"""Reference semantics: real arithmetic with a running error bound.

A value is a pair (v, err) with |true - v| <= err, or None when the expression has no real value
(division by zero, even root of a negative, log of a non-positive, ...).  A pair with err == inf means
"unknown": floating point cannot tell whether the value exists.

This module knows nothing about how simpy rewrites things.  `ev` only walks the public fields of an
expression (terms / base / exponent / inner / value / name).
"""
import math
from fractions import Fraction

EPS = 2.3e-16
INF = float("inf")
UNK = (0.0, INF)


def const(q):
    """exact rational -> value"""
    try:
        v = float(q)
    except OverflowError:
        return UNK
    if v == INF or v == -INF:
        return UNK
    if isinstance(q, float):
        return (v, 0.0)
    return (v, 0.0 if Fraction(v) == q else abs(v) * EPS)


PI = (math.pi, 2e-16)
EE = (math.e, 2e-16)


def fin(v, err):
    if v != v or v in (INF, -INF) or err != err:
        return UNK
    return (v, err)


def add(a, b):
    if a is None or b is None:
        return None
    v = a[0] + b[0]
    return fin(v, a[1] + b[1] + EPS * (abs(v) + max(abs(a[0]), abs(b[0]))))


def neg(a):
    return None if a is None else (-a[0], a[1])


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a is None or b is None:
        return None
    if a[1] == INF or b[1] == INF:
        return UNK
    v = a[0] * b[0]
    return fin(v, abs(a[0]) * b[1] + abs(b[0]) * a[1] + a[1] * b[1] + EPS * abs(v))


def inv(a):
    if a is None:
        return None
    v, e = a
    if v == 0 and e == 0:
        return None
    if abs(v) <= 4 * e or abs(v) < 1e-300:
        return UNK
    r = 1 / v
    return fin(r, e / (v * v) * 1.5 + EPS * abs(r))


def div(a, b):
    return mul(a, inv(b))


def ipow(a, n):
    """integer power"""
    if n == 0:
        return (1.0, 0.0)
    if a is None:
        return None
    if n < 0:
        return inv(ipow(a, -n))
    v, e = a
    if e == INF:
        return UNK
    try:
        r = v**n
        m = (abs(v) + e) ** (n - 1)
    except OverflowError:
        return UNK
    return fin(r, n * m * e + 4 * EPS * abs(r) * (1 if n < 50 else n))


def exp(a):
    if a is None:
        return None
    if a[1] > 1:
        return UNK
    try:
        r = math.exp(a[0])
    except OverflowError:
        return UNK
    return fin(r, r * (2 * a[1] + 2 * EPS))


def ln(a):
    if a is None:
        return None
    v, e = a
    if v <= 0 and -v > 4 * e:
        return None
    if v == 0 and e == 0:
        return None
    if v <= 4 * e:
        return UNK
    r = math.log(v)
    return fin(r, 1.5 * e / v + 2 * EPS * abs(r))


def qpow(a, q):
    """a ** q for a Fraction q. Odd denominators are real roots; even numerator over odd denominator of a
    negative base is left undefined (see DESIGN: simpy folds (-8)^(2/3) to -8^(2/3), pinned by its tests)."""
    if q.denominator == 1:
        return ipow(a, q.numerator)
    if a is None:
        return None
    v, e = a
    if v == 0 and e == 0:
        return (0.0, 0.0) if q > 0 else None
    if abs(v) <= 4 * e:
        return UNK
    s = 1.0
    if v < 0:
        if q.denominator % 2 == 0 or q.numerator % 2 == 0:
            return None
        s = -1.0
        v = -v
    f = float(q)
    try:
        r = v**f
    except OverflowError:
        return UNK
    return fin(s * r, abs(r) * (2 * abs(f) * e / v + 4 * EPS * (1 + abs(f * math.log(v)))))


def power(a, b, bq=None):
    """a ** b ; bq is the exact rational exponent when it is known to be rational"""
    if bq is not None:
        return qpow(a, bq)
    if a is None or b is None:
        return None
    v, e = a
    w, f = b
    if e == INF or f == INF:
        return UNK
    if e == 0 and v == 1:
        return (1.0, 0.0)
    if f == 0 and w == int(w) and abs(w) < 1e6:
        return ipow(a, int(w))
    if v <= 0:
        if -v > 4 * e or (v == 0 and e == 0):
            return None
        return UNK
    if v <= 4 * e:
        return UNK
    l = math.log(v)
    return exp(fin(w * l, abs(l) * f + abs(w) * 1.5 * e / v + 4 * EPS * abs(w * l)))


def vabs(a):
    return None if a is None else (abs(a[0]), a[1])


def sin(a):
    if a is None:
        return None
    if a[1] > 0.1 or abs(a[0]) > 1e8:
        return UNK
    return (math.sin(a[0]), a[1] + EPS * (1 + abs(a[0])))


def cos(a):
    if a is None:
        return None
    if a[1] > 0.1 or abs(a[0]) > 1e8:
        return UNK
    return (math.cos(a[0]), a[1] + EPS * (1 + abs(a[0])))


def tan(a):
    return div(sin(a), cos(a))


def sec(a):
    return inv(cos(a))


def csc(a):
    return inv(sin(a))


def cot(a):
    return div(cos(a), sin(a))


def _unit(a):
    """None / UNK / ok for an argument that must lie in [-1, 1]"""
    v, e = a
    if abs(v) > 1:
        return None if abs(v) - 1 > 4 * e + 1e-15 else UNK
    if e == 0 and abs(v) == 1:
        return a
    if 1 - abs(v) <= 4 * e + 1e-15:
        return UNK
    return a


def asin(a):
    if a is None:
        return None
    a = _unit(a)
    if a is None or a is UNK:
        return a
    v, e = a
    r = math.asin(v)
    return (r, (1.5 * e / math.sqrt(max(1 - v * v, 1e-30)) if e else 0.0) + 2 * EPS)


def acos(a):
    if a is None:
        return None
    a = _unit(a)
    if a is None or a is UNK:
        return a
    v, e = a
    r = math.acos(v)
    return (r, (1.5 * e / math.sqrt(max(1 - v * v, 1e-30)) if e else 0.0) + 4 * EPS)


def atan(a):
    if a is None:
        return None
    if a[1] == INF:
        return UNK
    return (math.atan(a[0]), a[1] + 2 * EPS)


FUNCS = {
    "sin": sin,
    "cos": cos,
    "tan": tan,
    "sec": sec,
    "csc": csc,
    "cot": cot,
    "asin": asin,
    "acos": acos,
    "atan": atan,
    "Abs": vabs,
}


class BadStructure(Exception):
    pass


def rational_of(e):
    """exact rational value of an expression that is a plain rational, else None"""
    if e.__class__.__name__ == "Rat":
        return e.value
    return None


def ev(e, env):
    """value of a simpy expression at env: {symbol name: value pair}"""
    n = e.__class__.__name__
    if n == "Symbol":
        return env[e.name]
    if n == "Rat":
        return const(e.value)
    if n == "Sum":
        acc = (0.0, 0.0)
        big = 0.0
        for t in e.terms:
            v = ev(t, env)
            if v is None:
                return None
            acc = add(acc, v)
        return acc
    if n == "Prod":
        acc = (1.0, 0.0)
        for t in e.terms:
            v = ev(t, env)
            if v is None:
                return None
            acc = mul(acc, v)
        return acc
    if n == "Power":
        b = ev(e.base, env)
        if e.exponent.__class__.__name__ == "Rat":
            return qpow(b, e.exponent.value)
        if e.exponent.__class__.__name__ == "Float" and e.exponent.value == e.exponent.value and abs(e.exponent.value) < 1e6 and e.exponent.value == int(e.exponent.value):
            return ipow(b, int(e.exponent.value))
        return power(b, ev(e.exponent, env))
    if n in FUNCS:
        return FUNCS[n](ev(e.inner, env))
    if n == "log":
        if e.base.__class__.__name__ == "E":
            return ln(ev(e.inner, env))
        return div(ln(ev(e.inner, env)), ln(ev(e.base, env)))
    if n == "Pi":
        return PI
    if n == "E":
        return EE
    if n == "Float":
        v = e.value
        if not isinstance(v, float):
            raise BadStructure("Float holding %r" % (v,))
        if v != v or v in (INF, -INF):
            return None
        return (v, abs(v) * EPS)
    if n in ("Infinity", "NegInfinity", "NaN"):
        return None
    raise BadStructure("unexpected node %s" % n)


SAME, DIFF, SKIP = "same", "diff", "skip"


def cmp(a, b, rtol=1e-9):
    """compare two values: SAME / DIFF / SKIP (undefined or inconclusive)"""
    if a is None or b is None:
        return SKIP
    err = a[1] + b[1]
    m = max(abs(a[0]), abs(b[0]))
    if err > 1e-5 * max(m, 1e-3) :
        return SKIP
    if abs(a[0] - b[0]) <= 8 * err + rtol * m + 1e-14:
        return SAME
    return DIFF


# ---- exact rational semantics -------------------------------------------------------------------


class NotRational(Exception):
    pass


def evq(e, env):
    """exact value of a rational-function expression at a rational point; None = undefined"""
    n = e.__class__.__name__
    if n == "Rat":
        return e.value
    if n == "Symbol":
        return env[e.name]
    if n == "Sum":
        acc = Fraction(0)
        for t in e.terms:
            v = evq(t, env)
            if v is None:
                return None
            acc += v
        return acc
    if n == "Prod":
        acc = Fraction(1)
        for t in e.terms:
            v = evq(t, env)
            if v is None:
                return None
            acc *= v
        return acc
    if n == "Power":
        if e.exponent.__class__.__name__ != "Rat" or e.exponent.value.denominator != 1:
            raise NotRational(n)
        b = evq(e.base, env)
        x = e.exponent.value.numerator
        if b is None:
            return None
        if b == 0 and x <= 0:
            return None
        return Fraction(b) ** x
    if n in ("Infinity", "NegInfinity", "NaN"):
        return None
    raise NotRational(n)
