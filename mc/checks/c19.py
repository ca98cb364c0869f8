"""C19: arithmetic on numbers is exact. Every pair of a grid of rationals (and boundary values beyond float precision)
under every operation and every call form, against exact fractions and an exact test for roots."""
import itertools
import math
import operator
from fractions import Fraction as Fr

from simpy.expr import Const

from mc import cval, fp, harness
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C19"
LEVEL = "model_checking"
RULE = (
    "state = (operation, operands, call form); transition = the operation on the real code; the result must be the exact "
    "fraction, or for an irrational root a product of rational powers whose q-th power is the exact fraction"
)
ASSUMPTIONS = ["(negative)^(even/odd) is not judged: the project's tests pin a sign convention of their own", "roots of negative numbers are read as principal values"]


def grid(n, d):
    s = {Fr(0)}
    for a in range(-n, n + 1):
        for b in range(1, d + 1):
            s.add(Fr(a, b))
    return sorted(s, key=lambda q: (abs(q.numerator) + q.denominator, q))


BIG = [
    Fr(2**53 - 1), Fr(2**53 + 1), Fr(-(2**53) - 1), Fr(2**64), Fr(10**40), Fr(10**40 + 1), Fr(-(10**40)), Fr(10**400), Fr(10**400 - 1), Fr(3**90), Fr(2**1100), Fr(1, 10**40), Fr(10**40 + 1, 10**40),
    Fr(1, 2**60 + 1), Fr(2**60, 3**40), Fr((10**20 + 1) ** 2), Fr((10**20 + 1) ** 2 - 1), Fr((10**13 + 7) ** 3), Fr((10**13 + 7) ** 3 + 1), Fr(7**30, (10**9 + 7) ** 2), Fr(1, 3**80), Fr(-(5**60), 2**61),
]
SMALL = [Fr(0), Fr(1), Fr(-1), Fr(2), Fr(-1, 3), Fr(7, 2)]
FLOATS = [0.5, -1.25, 3.0, 0.1, 1e-9, 12345.678]

BIN = {
    "+": (operator.add, lambda a, b: a + b, None),
    "-": (operator.sub, lambda a, b: a - b, None),
    "*": (operator.mul, lambda a, b: a * b, None),
    "/": (operator.truediv, lambda a, b: a / b, lambda a, b: b != 0),
}
RONLY = {
    "//": (operator.floordiv, lambda a, b: Fr(a // b), lambda a, b: b != 0),
    "%": (operator.mod, lambda a, b: a % b, lambda a, b: b != 0),
}
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def tasks(tier):
    n, d = (8, 5) if tier == "quick" else (16, 9)
    G = grid(n, d)
    out = [("pair", i, n, d) for i in range(len(G))]
    out += [("bigpair", i) for i in range(len(BIG))]
    out += [("root", i, n, d) for i in range(len(G))] + [("rootbig", i) for i in range(len(BIG))]
    out += [("nary", i) for i in range(len(SMALL))]
    out += [("float", i) for i in range(len(FLOATS))]
    out += [("cons",)]
    return out


def lit(q):
    return "Rat(%d)" % q.numerator if q.denominator == 1 else "Rat(%d, %d)" % (q.numerator, q.denominator)


def replay(key):
    return "from mc.ops import *\nprint(repr(%s))\n" % key


def is_exact(r, q):
    return r.__class__ is Rat and type(r.value) is Fr and r.value == q and type(r.value.numerator) is int


def attempt(acc, key, fn):
    acc.transitions += 1
    acc.state(fp.h64(key))
    try:
        with harness.limit(20):
            return True, fn()
    except Exception as ex:
        acc.violation(key, "raised %r" % (ex,), replay(key))
        return False, None


def expect(acc, key, fn, q):
    ok, r = attempt(acc, key, fn)
    if not ok:
        return
    if not is_exact(r, q):
        acc.violation(key, "is %r (%s), exactly it is %s" % (r, r.__class__.__name__, q), replay(key))
    else:
        acc.validated += 1


def forms(a, b):
    """every way a user can write the two operands"""
    out = [(lit(a), Rat(a), lit(b), Rat(b))]
    if b.denominator == 1:
        out.append((lit(a), Rat(a), "(%d)" % int(b), int(b)))
    else:
        out.append((lit(a), Rat(a), "F(%d, %d)" % (b.numerator, b.denominator), b))
    if a.denominator == 1:
        out.append(("(%d)" % int(a), int(a), lit(b), Rat(b)))
    else:
        out.append(("F(%d, %d)" % (a.numerator, a.denominator), a, lit(b), Rat(b)))
    return out


def pair(acc, a, b):
    for ta, oa, tb, ob in forms(a, b):
        for op, (f, ref, cond) in BIN.items():
            if cond is None or cond(a, b):
                expect(acc, "%s %s %s" % (ta, op, tb), lambda: f(oa, ob), ref(a, b))
        for op, f in CMP.items():
            key = "%s %s %s" % (ta, op, tb)
            ok, r = attempt(acc, key, lambda: f(oa, ob))
            if ok:
                if bool(r) != f(a, b):
                    acc.violation(key, "is %r, exactly it is %r" % (r, f(a, b)), replay(key))
                else:
                    acc.validated += 1
        if isinstance(oa, Rat):
            for op, (f, ref, cond) in RONLY.items():
                if cond(a, b):
                    expect(acc, "%s %s %s" % (ta, op, tb), lambda: f(oa, ob), ref(a, b))
    # the general constructors must agree with the shortcuts on numbers
    expect(acc, "Sum([%s, %s])" % (lit(a), lit(b)), lambda: Sum([Rat(a), Rat(b)]), a + b)
    expect(acc, "Prod([%s, %s])" % (lit(a), lit(b)), lambda: Prod([Rat(a), Rat(b)]), a * b)


def unary(acc, a):
    t, r = lit(a), Rat(a)
    expect(acc, "-%s" % t, lambda: -r, -a)
    expect(acc, "abs(%s)" % t, lambda: abs(r), abs(a))
    expect(acc, "Abs(%s)" % t, lambda: Abs(r), abs(a))
    expect(acc, "%s.numerator" % t, lambda: r.numerator, Fr(a.numerator))
    expect(acc, "%s.denominator" % t, lambda: r.denominator, Fr(a.denominator))
    if a:
        expect(acc, "%s.reciprocal()" % t, lambda: r.reciprocal(), 1 / a)
    for key, fn, want in (("%s.is_int" % t, lambda: r.is_int, a.denominator == 1), ("%s.is_subtraction" % t, lambda: r.is_subtraction, a < 0)):
        ok, v = attempt(acc, key, fn)
        if ok and v is not want:
            acc.violation(key, "is %r" % (v,), replay(key))
    for k in (-7, -3, -2, -1, 0, 1, 2, 3, 5, 12):
        if a == 0 and k < 0:
            continue
        want = a**k
        expect(acc, "%s**%d" % (t, k), lambda: r**k, want)
        expect(acc, "%s**Rat(%d)" % (t, k), lambda: r ** Rat(k), want)
        expect(acc, "Power(%s, Rat(%d))" % (t, k), lambda: Power(r, Rat(k)), want)
        if a.denominator == 1:
            expect(acc, "(%d)**Rat(%d)" % (int(a), k), lambda: int(a) ** Rat(k), want)


def iroot(n, k):
    """integer k-th root of n >= 0 if exact else None"""
    if n < 2:
        return n
    lo, hi = 1, 1 << (n.bit_length() // k + 1)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid**k <= n:
            lo = mid
        else:
            hi = mid - 1
    return lo if lo**k == n else None


def exact_root(a, p, q):
    """a**(p/q) as a Fraction if rational, None otherwise (a > 0)"""
    n, d = iroot(a.numerator, q), iroot(a.denominator, q)
    if n is None or d is None:
        return None
    return Fr(n, d) ** p


def power_factors(ex):
    """[(rational base, rational exponent)] of an irrational number built from rational powers, else None"""
    n = ex.__class__.__name__
    if n == "Rat":
        return [(ex.value, Fr(1))]
    if n == "Prod":
        out = []
        for t in ex.terms:
            f = power_factors(t)
            if f is None:
                return None
            out += f
        return out
    if n == "Power" and ex.base.__class__.__name__ == "Rat" and ex.exponent.__class__.__name__ == "Rat":
        return [(ex.base.value, ex.exponent.value)]
    return None


def has_float(ex):
    return ex.__class__.__name__ in ("Float", "Infinity", "NegInfinity", "NaN") or any(has_float(c) for c in ex.children())


def roots(acc, a, exps):
    r = Rat(a)
    for p, q in exps:
        x = Fr(p, q)
        if a == 0 and p < 0:
            continue
        fs = [("%s**Rat(%d, %d)" % (lit(a), p, q), lambda: r ** Rat(p, q)), ("%s**F(%d, %d)" % (lit(a), p, q), lambda: r ** x), ("Power(%s, F(%d, %d))" % (lit(a), p, q), lambda: Power(r, x))]
        if (p, q) == (1, 2):
            fs.append(("sqrt(%s)" % lit(a), lambda: sqrt(r)))
        for key, fn in fs:
            ok, got = attempt(acc, key, fn)
            if not ok:
                continue
            if has_float(got):
                acc.violation(key, "contains a float: %r" % (got,), replay(key))
                continue
            if a == 0:
                if not is_exact(got, Fr(0)):
                    acc.violation(key, "is %r, not 0" % (got,), replay(key))
                continue
            neg = a < 0
            if neg and q % 2 == 1 and p % 2 == 0:
                acc.note("not judged: negative base, even over odd")
                continue
            if neg and q % 2 == 0:
                # not real: must not become real, and keeps its principal value
                if abs(a.numerator) < 10**6 and a.denominator < 10**6:
                    want = complex(a) ** (p / q)
                    have = cval.ev(got, {})
                    if have is None or abs(have - want) > 1e-9 * abs(want):
                        acc.violation(key, "is %r = %r, principal value %r" % (got, have, want), replay(key))
                    else:
                        acc.validated += 1
                continue
            want = exact_root(abs(a), p, q)
            if want is not None:
                if neg:
                    want = -want
                if not is_exact(got, want):
                    acc.violation(key, "is %r, exactly it is %s" % (got, want), replay(key))
                else:
                    acc.validated += 1
                    acc.note("rational roots")
                continue
            fac = power_factors(got)
            if fac is None:
                acc.violation(key, "is %r, which is not a product of rational powers" % (got,), replay(key))
                continue
            if all(e.denominator == 1 for _, e in fac):
                acc.violation(key, "is the rational %r, but the root is irrational" % (got,), replay(key))
                continue
            # compare absolute values exactly: raise both to a power that clears all denominators
            m = q
            for _, e in fac:
                m = m * e.denominator // math.gcd(m, e.denominator)
            lhs = Fr(1)
            for b, e in fac:
                lhs *= abs(b) ** int(e * m)
            rhs = abs(a) ** int(x * m)
            sign = 1
            for b, e in fac:
                if b < 0:
                    if e.denominator % 2 == 0:
                        sign = 0
                    elif e.numerator % 2:
                        sign = -sign
            if lhs != rhs or sign != (-1 if neg else 1):
                acc.violation(key, "is %r, which is not the root" % (got,), replay(key))
            else:
                acc.validated += 1
                acc.note("irrational roots")


EXPS = [(p, q) for q in (2, 3, 4, 5, 6) for p in (-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 7) if math.gcd(p, q) == 1]


def run(task, acc):
    k = task[0]
    if k in ("pair", "root"):
        G = grid(task[2], task[3])
        a = G[task[1]]
        if k == "pair":
            unary(acc, a)
            for b in G:
                pair(acc, a, b)
        else:
            roots(acc, a, EXPS)
            # scaled squares, cubes, fourth powers: roots that exist
            for m in (2, 3, 4):
                roots(acc, abs(a) ** m * (-1 if a < 0 and m % 2 else 1), [e for e in EXPS if e[1] in (2, 3, 4, 6)])
    elif k == "bigpair":
        a = BIG[task[1]]
        unary(acc, a)
        for b in BIG + SMALL:
            pair(acc, a, b)
            pair(acc, b, a)
    elif k == "rootbig":
        a = BIG[task[1]]
        roots(acc, a, [e for e in EXPS if abs(e[0]) <= 3 and e[1] <= 4])
        for m in (2, 3):
            roots(acc, a**m, [(1, 2), (1, 3), (-1, 2), (2, 3), (3, 2), (-2, 3)])
    elif k == "nary":
        a = SMALL[task[1]]
        for rest in itertools.product(SMALL + [Fr(10**40), Fr(1, 10**20)], repeat=3):
            T = (a,) + rest
            names = ", ".join(lit(t) for t in T)
            expect(acc, "Sum([%s])" % names, lambda: Sum([Rat(t) for t in T]), sum(T))
            p = Fr(1)
            for t in T:
                p *= t
            expect(acc, "Prod([%s])" % names, lambda: Prod([Rat(t) for t in T]), p)
            # ... and as coefficients of a symbol
            key = "Sum([%s])" % ", ".join(lit(t) + "*x" for t in T)
            ok, r = attempt(acc, key, lambda: Sum([Rat(t) * x for t in T]))
            if ok:
                want = sum(T)
                if want == 0:
                    good = is_exact(r, Fr(0))
                elif want == 1:
                    good = r == x and r.__class__ is Symbol
                else:
                    good = r.__class__ is Prod and len(r.terms) == 2 and is_exact(r.terms[0], want) and r.terms[1] == x
                if not good:
                    acc.violation(key, "is %r, the coefficient is exactly %s" % (r, want), replay(key))
                else:
                    acc.validated += 1
    elif k == "float":
        floats(acc, FLOATS[task[1]])
    else:
        constructors(acc)


def floats(acc, f):
    for q in grid(6, 4):
        for op, (g, ref, cond) in BIN.items():
            for ta, oa, tb, ob, va, vb in (
                (repr(f), f, lit(q), Rat(q), f, float(q)),
                (lit(q), Rat(q), repr(f), f, float(q), f),
                ("Float(%r)" % f, Float(f), lit(q), Rat(q), f, float(q)),
                (lit(q), Rat(q), "Float(%r)" % f, Float(f), float(q), f),
            ):
                if op == "/" and vb == 0:
                    continue
                key = "%s %s %s" % (ta, op, tb)
                ok, r = attempt(acc, key, lambda: g(oa, ob))
                if not ok:
                    continue
                want = g(va, vb)
                v = V.ev(r, {}) if not isinstance(r, (int, float)) else None
                if v is None or not (abs(v[0] - want) <= 1e-15 * (abs(want) + abs(va) + abs(vb)) * 4):
                    acc.violation(key, "is %r, it should be about %r" % (r, want), replay(key))
                elif r.__class__ is not Float and want != 0 and not (op == "*" and want == va * vb and q == 1) and not (op == "+" and q == 0):
                    # multiplying by one, adding zero may keep either type; everything else is a decimal
                    acc.note("decimal result kept as %s" % r.__class__.__name__)
                else:
                    acc.validated += 1
        for op, g in CMP.items():
            key = "%s %s Float(%r)" % (lit(q), op, f)
            ok, r = attempt(acc, key, lambda: g(Rat(q), Float(f)))
            if ok and bool(r) != g(q, Fr(f)):
                acc.violation(key, "is %r" % (r,), replay(key))


def constructors(acc):
    for a in range(-12, 13):
        for b in list(range(-6, 0)) + list(range(1, 7)):
            expect(acc, "Rat(%d, %d)" % (a, b), lambda: Rat(a, b), Fr(a, b))
            expect(acc, "Rat(F(%d, %d))" % (a, b), lambda: Rat(Fr(a, b)), Fr(a, b))
            expect(acc, "Const(F(%d, %d))" % (a, b), lambda: Const(Fr(a, b)), Fr(a, b))
    for n in [0, 1, -1, 2**53 + 1, 10**40, -(10**400)]:
        expect(acc, "Rat(%d)" % n, lambda: Rat(n), Fr(n))
        expect(acc, "Const(%d)" % n, lambda: Const(n), Fr(n))
        expect(acc, "x - x + (%d)" % n, lambda: x - x + n, Fr(n))
        expect(acc, "x/x*(%d)" % n, lambda: x / x * n, Fr(n))
    for f in FLOATS + [1e300, -0.75]:
        ok, r = attempt(acc, "Const(%r)" % f, lambda: Const(f))
        if ok and not (r.__class__ is Float and r.value == f):
            acc.violation("Const(%r)" % f, "is %r" % (r,), replay("Const(%r)" % f))
