"""C08: factoring keeps the value and takes out every common factor.

All sums of two to four terms over an alphabet of coefficients and parts (powers, negative and fractional powers, sums,
functions, symbolic powers) are factored; value, exact polynomial, and what is left in the brackets are checked."""
import itertools
from fractions import Fraction as Fr

from mc import fp, harness
from mc import ops as O
from mc import poly, space
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C08"
LEVEL = "model_checking"
RULE = (
    "state = sum of the alphabet as built; transition = factor() on the real code; the result is compared by value at 6 points, by "
    "exact polynomial coefficients, and its brackets are searched for a factor (base to a power of the same sign) of all terms"
)
ASSUMPTIONS = ["equality of non-polynomials is judged at 6 fixed generic points", "common factors are variables, functions, sums and powers; common numbers are not required to be taken out"]
REPLAY = """from mc.ops import *
ex = %s
print(ex, "->", ex.factor())
"""
NS = dict(O.__dict__)
PARTS = [
    "Rat(1)", "x", "x**2", "x**3", "y", "x*y", "x**2*y", "x*y**3", "1/x", "1/x**2", "y/x", "sqrt(x)", "x**F(3, 2)", "1/sqrt(x)", "(x + 1)", "(x + 1)**2", "x*(x + 1)", "y/(x + 1)", "1/(x + 1)**2",
    "sin(x)", "x*sin(x)", "sin(x)**2", "e**x", "x*e**x", "x**y", "pi*x", "abs(x)", "log(x)*y", "(x + y)*(x - y)", "x*(x + y)*sin(y)",
]
COEF = ["Rat(1)", "Rat(-1)", "Rat(2)", "Rat(-6)", "Rat(1, 2)", "F(-3, 2)"]
PAT3 = [("1", "1", "1"), ("2", "-4", "6"), ("-1", "-2", "-3"), ("F(1, 2)", "3", "F(-5, 2)"), ("4", "6", "2")]
PAT4 = [("1", "1", "1", "1"), ("-2", "4", "-6", "8"), ("F(1, 3)", "1", "-1", "F(2, 3)")]
POLYS = [0, 1, 2, 3, 4, 5, 6, 7, 14, 15, 16, 28]


def tasks(tier):
    n = len(PARTS)
    out = [("pairs", i) for i in range(n)]
    out += [("triples", i, j, tier) for i in range(n) for j in range(i + 1, n) if tier != "quick" or (i + j) % 2 == 0]
    out += [("quads", i, tier) for i in range(n if tier != "quick" else len(POLYS))]
    out += [("floats", i) for i in range(n)]
    out += [("meeting", i, 16) for i in range(16)]
    return out


def factors(t):
    """{fingerprint of base: exponent} of one term, numbers left out"""
    out = {}
    for f in t.terms if t.__class__.__name__ == "Prod" else [t]:
        if f.__class__.__name__ in ("Rat", "Float"):
            continue
        b, q = f, Fr(1)
        if f.__class__.__name__ == "Power" and f.exponent.__class__.__name__ == "Rat":
            b, q = f.base, f.exponent.value
        if b.__class__.__name__ in ("Rat", "Float"):
            continue
        k = fp.ckey(b)
        out[k] = out.get(k, 0) + q
    return out


def common(s):
    """a factor all terms of a sum share"""
    fs = [factors(t) for t in s.terms]
    for k, q in fs[0].items():
        if all(k in f and f[k] != 0 and (f[k] > 0) == (q > 0) for f in fs[1:]):
            return k
    return None


def judge(acc, key, ex):
    if ex.__class__.__name__ != "Sum":
        acc.note("no sum")
        return
    acc.transitions += 1
    acc.state(fp.h64(fp.key(ex)))
    rep = REPLAY % key
    try:
        with harness.limit(20):
            r = ex.factor()
    except harness.CpuTimeout:
        acc.violation("(%s).factor()" % key, "did not return within 20 s of CPU time", rep)
        return
    except Exception as er:
        acc.violation("(%s).factor()" % key, "raised %r" % er, rep)
        return
    key = "(%s).factor()" % key
    try:
        want = poly.of(ex)
    except poly.NotPoly:
        want = None
    try:
        bad = O.mismatch(O.values(ex), O.values(r), acc, (ex,))
        if bad:
            i, a, b = bad
            acc.violation(key, "%r became %r: at %r %s instead of %s" % (ex, r, O.POINTS[i], b and b[0], a and a[0]), rep)
            return
        if want is not None:
            try:
                have = poly.of(r)
            except poly.NotPoly as er:
                acc.violation(key, "polynomial %r became %r, which is no polynomial" % (ex, r), rep)
                return
            if have != want:
                acc.violation(key, "polynomial %r became %r, a different one" % (ex, r), rep)
                return
            back = r.expand() if r.expandable() else r
            try:
                same = poly.expanded_form(back) == want
            except poly.NotPoly:
                same = False
            if not same:
                acc.violation(key, "%r expands to %r, not to the polynomial %r" % (r, back, ex), rep)
                return
            acc.validated += 2
    except Exception as er:
        acc.violation(key, "gives %r, which fails with %r" % (r, er), rep)
        return
    brackets = [t for t in (r.terms if r.__class__.__name__ == "Prod" else [r]) if t.__class__.__name__ == "Sum"]
    if common(ex) is not None:
        acc.note("with a common factor")
    for b in brackets:
        k = common(b)
        if k is not None:
            acc.violation(key, "gives %r, where all terms of %r share the factor %s" % (r, b, k), rep)
            return
        acc.validated += 1


def run(task, acc):
    P = {p: eval(p, NS) for p in PARTS}
    C = {c: eval(c, NS) for c in COEF}

    def one(names, coefs):
        key = " + ".join("%s*%s" % (c if c[0] in "RF" else "(%s)" % c, p) for c, p in zip(coefs, names))
        try:
            ex = Sum([(C[c] if c in C else eval(c, NS)) * P[p] for c, p in zip(coefs, names)])
        except Exception:
            acc.note("not constructible")
            return
        judge(acc, key, ex)

    if task[0] == "meeting":
        for t in list(space.meeting())[task[1] :: task[2]]:
            try:
                ex = eval(t, NS)
            except Exception:
                acc.note("not constructible")
                continue
            judge(acc, t, ex)
    elif task[0] == "pairs":
        i = task[1]
        for j in range(len(PARTS)):
            if j != i:
                for cs in itertools.product(COEF, repeat=2):
                    one((PARTS[i], PARTS[j]), cs)
        acc.sample("sums of %s and every other part" % PARTS[i])
    elif task[0] == "triples":
        _, i, j, tier = task
        for k in range(len(PARTS)):
            if k in (i, j):
                continue
            for n, pat in enumerate(PAT3):
                if tier == "quick" and (i + j + k + n) % 3:
                    continue
                one((PARTS[i], PARTS[j], PARTS[k]), pat)
    elif task[0] == "quads":
        _, i, tier = task
        pool = [PARTS[k] for k in POLYS] if tier == "quick" else PARTS
        for rest in itertools.combinations(pool, 3):
            if pool[i] in rest:
                continue
            for n, pat in enumerate(PAT4):
                one((pool[i],) + rest, pat)
    else:
        i = task[1]
        for j in range(len(PARTS)):
            for a, b in (("0.5", "2"), ("1.5", "3.0"), ("-2.0", "-0.25")):
                if i != j:
                    one((PARTS[i], PARTS[j]), (a, b))
