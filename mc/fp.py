"""Structural fingerprint of an expression: two expressions get the same fingerprint iff they have the same
node types, the same field values and the same term order. Independent of simpy's own == and repr."""
import hashlib


def key(e):
    n = e.__class__.__name__
    if n == "Symbol":
        return "s:" + e.name
    if n == "Rat":
        return "%d/%d" % (e.value.numerator, e.value.denominator)
    if n in ("Sum", "Prod"):
        return n[0] + "(" + ",".join([key(t) for t in e.terms]) + ")"
    if n == "Power":
        return "^(" + key(e.base) + "," + key(e.exponent) + ")"
    if n == "log":
        return "log(" + key(e.inner) + "," + key(e.base) + ")"
    if n == "Float":
        return "f:" + repr(e.value)
    if n in ("Pi", "E", "Infinity", "NegInfinity", "NaN"):
        return n
    if n == "Any_":
        return "any:" + e.key
    if hasattr(e, "inner"):
        return n + "(" + key(e.inner) + ")"
    return n + repr(e)


def ckey(e):
    """like key, but insensitive to the order of terms of sums and products"""
    n = e.__class__.__name__
    if n in ("Sum", "Prod"):
        return n[0] + "(" + ",".join(sorted([ckey(t) for t in e.terms])) + ")"
    if n == "Power":
        return "^(" + ckey(e.base) + "," + ckey(e.exponent) + ")"
    if n == "log":
        return "log(" + ckey(e.inner) + "," + ckey(e.base) + ")"
    if n not in ("Symbol", "Rat", "Float", "Pi", "E", "Any_") and hasattr(e, "inner"):
        return n + "(" + ckey(e.inner) + ")"
    return key(e)


def h64(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")
