"""Reference derivative: forward-mode differentiation of the structure, over the error-bounded reals of val.py.

A dual is a pair (value, derivative) of val pairs; either may be None (undefined)."""
from fractions import Fraction

from . import val as V

ZERO = (0.0, 0.0)
ONE = (1.0, 0.0)


def _isz(a):
    return a is not None and a == ZERO


def dmul(a, b):
    """product where an exact-zero derivative factor annihilates"""
    if _isz(a) or _isz(b):
        return ZERO
    return V.mul(a, b)


def dev(e, env, var):
    n = e.__class__.__name__
    if n == "Symbol":
        return env[e.name], (ONE if e.name == var else ZERO)
    if n in ("Rat", "Pi", "E", "Float", "Infinity", "NegInfinity", "NaN"):
        return V.ev(e, env), ZERO
    if n == "Sum":
        v, d = ZERO, ZERO
        for t in e.terms:
            a, b = dev(t, env, var)
            v, d = V.add(v, a), (b if _isz(d) else d if _isz(b) else V.add(d, b))
        return v, d
    if n == "Prod":
        v, d = ONE, ZERO
        for t in e.terms:
            a, b = dev(t, env, var)
            p, q = dmul(d, a), dmul(v, b)
            d = q if _isz(p) else p if _isz(q) else V.add(p, q)
            v = V.mul(v, a)
        return v, d
    if n == "Power":
        b, db = dev(e.base, env, var)
        x = e.exponent
        if x.__class__.__name__ == "Rat":
            q = x.value
            if q == 0:
                return ONE, ZERO
            return V.qpow(b, q), dmul(dmul(V.const(q), V.qpow(b, q - 1)), db)
        xv, dx = dev(x, env, var)
        v = V.power(b, xv)
        if _isz(dx):
            return v, dmul(dmul(xv, V.power(b, V.sub(xv, ONE))), db)
        # b^x (x' ln b + x b'/b)
        p = dmul(dx, V.ln(b))
        q = ZERO if _isz(db) else V.div(V.mul(xv, db), b)
        s = q if _isz(p) else p if _isz(q) else V.add(p, q)
        return v, dmul(v, s)
    if n == "log":
        u, du = dev(e.inner, env, var)
        if e.base.__class__.__name__ == "E":
            return V.ln(u), (ZERO if _isz(du) else V.div(du, u))
        w, dw = dev(e.base, env, var)
        lu, lw = V.ln(u), V.ln(w)
        v = V.div(lu, lw)
        d1 = ZERO if _isz(du) else V.div(V.div(du, u), lw)
        d2 = ZERO if _isz(dw) else V.neg(V.div(V.mul(v, V.div(dw, w)), lw))
        return v, (d2 if _isz(d1) else d1 if _isz(d2) else V.add(d1, d2))
    u, du = dev(e.inner, env, var)
    v = V.FUNCS[n](u)
    if _isz(du):
        return v, ZERO
    if u is None or v is None:
        return v, None
    if n == "sin":
        f = V.cos(u)
    elif n == "cos":
        f = V.neg(V.sin(u))
    elif n == "tan":
        f = V.ipow(V.sec(u), 2)
    elif n == "sec":
        f = V.mul(V.sec(u), V.tan(u))
    elif n == "csc":
        f = V.neg(V.mul(V.csc(u), V.cot(u)))
    elif n == "cot":
        f = V.neg(V.ipow(V.csc(u), 2))
    elif n in ("asin", "acos"):
        f = V.qpow(V.sub(ONE, V.ipow(u, 2)), Fraction(-1, 2))
        if n == "acos":
            f = V.neg(f)
    elif n == "atan":
        f = V.inv(V.add(ONE, V.ipow(u, 2)))
    elif n == "Abs":
        if abs(u[0]) <= 4 * u[1]:
            return v, None if u == ZERO else V.UNK
        f = (1.0 if u[0] > 0 else -1.0, 0.0)
    else:
        raise V.BadStructure(n)
    return v, dmul(f, du)
