"""Exact multivariate polynomials over the rationals: an independent reference for expansion, division, ..."""
from fractions import Fraction


class NotPoly(Exception):
    pass


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def pvar(name):
    return {((name, 1),): Fraction(1)}


def padd(a, b):
    out = dict(a)
    for m, c in b.items():
        s = out.get(m, 0) + c
        if s:
            out[m] = s
        else:
            out.pop(m, None)
    return out


def mmul(m, n):
    d = dict(m)
    for v, k in n:
        d[v] = d.get(v, 0) + k
    return tuple(sorted((v, k) for v, k in d.items() if k))


def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            s = out.get(k, 0) + c * d
            if s:
                out[k] = s
            else:
                out.pop(k, None)
    return out


def ppow(a, n):
    out = pconst(1)
    for _ in range(n):
        out = pmul(out, a)
    return out


def of(ex):
    """polynomial denoted by an expression, whatever its shape"""
    n = ex.__class__.__name__
    if n == "Symbol":
        return pvar(ex.name)
    if n == "Rat":
        return pconst(ex.value)
    if n == "Sum":
        out = {}
        for t in ex.terms:
            out = padd(out, of(t))
        return out
    if n == "Prod":
        out = pconst(1)
        for t in ex.terms:
            out = pmul(out, of(t))
        return out
    if n == "Power" and ex.exponent.__class__.__name__ == "Rat":
        q = ex.exponent.value
        if q.denominator == 1 and q >= 0:
            return ppow(of(ex.base), int(q))
    raise NotPoly(n)


def monomial(ex):
    """(monomial, coefficient) of a term that is already a single monomial, else NotPoly"""
    n = ex.__class__.__name__
    if n == "Rat":
        return (), ex.value
    if n == "Symbol":
        return ((ex.name, 1),), Fraction(1)
    if n == "Power":
        q = ex.exponent.value if ex.exponent.__class__.__name__ == "Rat" else None
        if ex.base.__class__.__name__ == "Symbol" and q is not None and q.denominator == 1 and q > 1:
            return ((ex.base.name, int(q)),), Fraction(1)
        raise NotPoly(n)
    if n == "Prod":
        m, c = (), Fraction(1)
        for t in ex.terms:
            mm, cc = monomial(t)
            m, c = mmul(m, mm), c * cc
        return m, c
    raise NotPoly(n)


def expanded_form(ex):
    """dict of an expression that must be a sum of distinct monomials; NotPoly if it is not in that form"""
    terms = ex.terms if ex.__class__.__name__ == "Sum" else [ex]
    out = {}
    for t in terms:
        m, c = monomial(t)
        if m in out:
            raise NotPoly("repeated monomial")
        if c:
            out[m] = c
        elif len(terms) > 1:
            raise NotPoly("zero term")
    return out
