"""Exact rational functions of one variable: an independent reference for division and partial fractions.

A polynomial is a tuple of Fractions, lowest degree first, without trailing zeros."""
from fractions import Fraction as Fr


class NotRational(Exception):
    pass


def trim(p):
    p = list(p)
    while p and p[-1] == 0:
        p.pop()
    return tuple(p)


def padd(a, b):
    n = max(len(a), len(b))
    return trim((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n))


def pneg(a):
    return tuple(-c for c in a)


def pmul(a, b):
    if not a or not b:
        return ()
    out = [Fr(0)] * (len(a) + len(b) - 1)
    for i, c in enumerate(a):
        if c:
            for j, d in enumerate(b):
                out[i + j] += c * d
    return trim(out)


def ppow(a, n):
    out = (Fr(1),)
    for _ in range(n):
        out = pmul(out, a)
    return out


def pdivmod(a, b):
    a = list(a)
    q = [Fr(0)] * max(0, len(a) - len(b) + 1)
    while len(a) >= len(b) and a:
        c = a[-1] / b[-1]
        k = len(a) - len(b)
        q[k] = c
        for i, d in enumerate(b):
            a[k + i] -= c * d
        a = list(trim(a))
    return trim(q), tuple(a)


def of(ex, var):
    """(numerator, denominator) of an expression in var with rational coefficients"""
    n = ex.__class__.__name__
    if n == "Symbol":
        if ex.name != var:
            raise NotRational(ex.name)
        return (Fr(0), Fr(1)), (Fr(1),)
    if n == "Rat":
        return trim((Fr(ex.value),)), (Fr(1),)
    if n == "Sum":
        num, den = (), (Fr(1),)
        for t in ex.terms:
            a, b = of(t, var)
            if b == den:
                num = padd(num, a)
            else:
                num, den = padd(pmul(num, b), pmul(a, den)), pmul(den, b)
        return num, den
    if n == "Prod":
        num, den = (Fr(1),), (Fr(1),)
        for t in ex.terms:
            a, b = of(t, var)
            num, den = pmul(num, a), pmul(den, b)
        return num, den
    if n == "Power" and ex.exponent.__class__.__name__ == "Rat" and ex.exponent.value.denominator == 1:
        k = int(ex.exponent.value)
        a, b = of(ex.base, var)
        if k < 0:
            if not a:
                raise NotRational("1/0")
            a, b, k = b, a, -k
        return ppow(a, k), ppow(b, k)
    raise NotRational(n)


def same(p, q):
    """a/b == c/d"""
    return pmul(p[0], q[1]) == pmul(q[0], p[1])


def split(ex, var):
    """(polynomial part, rest) of a sum, term by term"""
    terms = ex.terms if ex.__class__.__name__ == "Sum" else [ex]
    poly, rest = (), ((), (Fr(1),))
    for t in terms:
        a, b = of(t, var)
        if len(b) == 1:
            poly = padd(poly, tuple(c / b[0] for c in a))
        else:
            rest = padd(pmul(rest[0], b), pmul(a, rest[1])), pmul(rest[1], b)
    return poly, rest
