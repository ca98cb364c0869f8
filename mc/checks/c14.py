"""C14: coefficients of polynomials, division with remainder and partial fractions, against exact arithmetic."""
import itertools
from fractions import Fraction as Fr

import numpy as np
from simpy.polynomial import is_polynomial, polynomial_to_expr, rid_ending_zeros, to_const_polynomial
from simpy.transforms import Node, PartialFractions, PolynomialDivision

from mc import fp, harness
from mc import ops as O
from mc import poly as MP
from mc import rat1 as R
from mc import space
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C14"
LEVEL = "model_checking"
RULE = (
    "state = one polynomial (pair of polynomials, fraction) in one written form; transition = conversion, division or splitting by the real code; "
    "the result is compared exactly with univariate arithmetic over fractions"
)
ASSUMPTIONS = ["a fraction is offered to the steps as the constructors leave it (numeric factors of the denominator may move to the numerator)"]
NS = dict(O.__dict__)
CO = [Fr(0), Fr(1), Fr(-1), Fr(2), Fr(1, 2), Fr(-3)]
CO_D = [Fr(0), Fr(1), Fr(-1), Fr(2), Fr(1, 2)]
CO_B = [Fr(1), Fr(10**20), Fr(7, 3), Fr(-(2**53) - 1), Fr(3, 10**18)]
CO_L = [Fr(1), Fr(-1), Fr(2), Fr(-3), Fr(1, 2)]
NONPOLY = ["1/v", "sqrt(v)", "sin(v)", "e**v", "v**y", "v**v", "log(v)", "abs(v)", "v**Rat(5, 2)", "v**e", "sqrt(v + 1)", "1/(v + 1)", "v**Rat(1, 3)", "2**v", "v**-2", "v**Rat(-1, 2)", "1/(v**2 + 1)", "v**pi", "asin(v)", "tan(v)**2", "(v**2 + 1)**Rat(3, 2)", "y**v", "cos(v + 1)", "log(v, Rat(2))", "v**sqrt(2)"]


def q(c):
    return "Rat(%d, %d)" % (c.numerator, c.denominator) if c.denominator != 1 else "Rat(%d)" % c.numerator


def written(c, v):
    return " + ".join("%s*%s**%d" % (q(a), v, i) for i, a in enumerate(c))


def expr(c, v):
    out = Rat(0)
    for i, a in enumerate(c):
        if a:
            out = out + Rat(a.numerator, a.denominator) * v**i
    return out


def forms(c, v):
    """(text, value) of the same polynomial, or one derived from it, in several written forms"""
    n = v.name
    w = written(c, n)
    one = (Fr(1), Fr(1))
    yield w, c
    yield " + ".join(reversed(w.split(" + "))), c
    h = q(c[-1])
    for a in reversed(c[:-1]):
        h = "(%s)*%s + %s" % (h, n, q(a))
    yield h, c
    yield "(%s)*(%s + 1)" % (w, n), R.pmul(c, one)
    yield "(%s)*(%s + 1)*(%s - 2)**2" % (w, n, n), R.pmul(R.pmul(c, one), R.ppow((Fr(-2), Fr(1)), 2))
    yield "(%s)/3" % w, R.pmul(c, (Fr(1, 3),))
    yield "-(%s) + %s**6" % (w, n), R.padd(R.pneg(c), R.ppow((Fr(0), Fr(1)), 6))
    yield "(%s)*%s**2" % (w, n), R.pmul(c, (Fr(0), Fr(0), Fr(1)))
    yield "((%s)*2 + 1)*3 - %s" % (w, n), R.padd(R.pmul(R.padd(R.pmul(c, (Fr(2),)), (Fr(1),)), (Fr(3),)), (Fr(0), Fr(-1)))
    if len(c) <= 3:
        yield "(%s)**2" % w, R.ppow(c, 2)
        yield "(%s)**3 - (%s)" % (w, w), R.padd(R.ppow(c, 3), R.pneg(c))


def polys(co, deg):
    for n in range(deg + 1):
        for c in itertools.product(co, repeat=n + 1):
            if c[-1] != 0:
                yield c


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return space.stages(0, carry)
    if stage == 1:
        out = [("conv", name, i, 24) for name in ("x", "a", "t1") for i in range(24)]
        out += [("big", i, 4) for i in range(4)]
        out += [("div", 3 if tier == "quick" else 4, i, 96) for i in range(96)]
        out += [("pf", i, 32) for i in range(32)]
        out += [("non", i, 25) for i in range(25)]
        out += [("zeros",)]
        return out + [("space", t[1]) for t in space.stages(1, carry, thin=2 if tier == "quick" else 1)]
    return None


def bad_coeffs(got, want):
    """None if the array holds exactly these rational numbers"""
    if not isinstance(got, np.ndarray) or got.ndim != 1:
        return "not a one-dimensional array"
    if len(got) != len(want):
        return "%d coefficients, it has %d" % (len(got), len(want))
    for g, c in zip(got, want):
        if g.__class__.__name__ != "Rat" or not isinstance(g.value, (Fr, int)) or g.value != c:
            return "coefficients %s" % [str(e) for e in got]
    return None


def conv(acc, text, v, want):
    key = "to_const_polynomial(%s, %s)" % (text, v.name)
    acc.transitions += 1
    want = want or (Fr(0),)
    replay = "from mc.ops import *\nfrom simpy.polynomial import *\n%s = Symbol(%r)\nprint(%s)\n" % (v.name, v.name, key)
    ns = dict(NS)
    ns[v.name] = v
    try:
        with harness.limit(20):
            ex = eval(text, ns)
    except Exception as e:
        acc.note("not built")
        return
    acc.state(fp.h64(text))
    before = fp.key(ex)
    try:
        with harness.limit(20):
            got = to_const_polynomial(ex, v)
    except Exception as e:
        acc.violation(key, "raised %r, coefficients are %s" % (e, [str(c) for c in want]), replay)
        return
    bad = bad_coeffs(got, want)
    if bad:
        acc.violation(key, "gives %s, coefficients are %s" % (bad, [str(c) for c in want]), replay)
        return
    if is_polynomial(ex, v) is not True:
        acc.violation(key, "converted, but is_polynomial says no", replay)
        return
    back = polynomial_to_expr(got, v)
    try:
        a = R.of(back, v.name)
    except R.NotRational:
        a = None
    if a is None or not R.same(a, (R.trim(want), (Fr(1),))):
        acc.violation(key, "back as an expression it is %r" % (back,), replay)
        return
    if bad_coeffs(to_const_polynomial(back, v), want) or bad_coeffs(got, want):
        acc.violation(key, "there and back and there again gives other coefficients", replay)
        return
    if fp.key(ex) != before:
        acc.violation(key, "changed its argument", replay)
        return
    acc.validated += 1


def run(task, acc):
    kind = task[0]
    if kind == "gen":
        return space.run_gen(task, acc)
    if kind == "conv":
        v = Symbol(task[1])
        L = list(polys(CO, 3 if task[1] == "x" else 2))
        for c in L[task[2] :: task[3]]:
            for text, want in forms(c, v):
                conv(acc, text, v, R.trim(want))
        acc.sample(text)
    elif kind == "big":
        for c in list(polys(CO_B, 2))[task[1] :: task[2]]:
            for text, want in forms(c, x):
                conv(acc, text, x, R.trim(want))
    elif kind == "zeros":
        for n in range(6):
            for c in itertools.product((0, 1, -1), repeat=n):
                acc.transitions += 1
                acc.state(fp.h64(repr(c)))
                got = list(rid_ending_zeros(np.array([Rat(a) for a in c])))
                want = list(R.trim(c))
                if len(got) != len(want) or any(g.__class__.__name__ != "Rat" or g.value != a for g, a in zip(got, want)):
                    acc.violation("rid_ending_zeros(%r)" % (c,), "gives %r" % (got,), "")
                else:
                    acc.validated += 1
                if n:
                    e = polynomial_to_expr(np.array([Rat(a) for a in c]), x)
                    if not R.same(R.of(e, "x"), (R.trim([Fr(a) for a in c]), (Fr(1),))):
                        acc.violation("polynomial_to_expr(%r)" % (c,), "is %r" % (e,), "")
    elif kind == "non":
        nonpoly(acc, task)
    elif kind == "space":
        for t in task[1]:
            in_space(acc, t)
    elif kind == "div":
        division(acc, task)
    elif kind == "pf":
        fractions(acc, task)


def nonpoly(acc, task):
    for name in ("x", "a"):
        v = Symbol(name)
        ns = dict(NS, v=v)
        for t in NONPOLY[task[1] :: task[2]]:
            for shape in ("N", "N + v", "1 + 2*v + N", "v**2 - N", "N*(v + 1)", "3*N", "N*v**3", "N**2*v", "(N + 1)**2", "(N + v)*(N + 1)", "y*N + 1", "N*(v**2 + v)/5"):
                if t == "abs(v)" and "**2" in shape:
                    continue
                acc.transitions += 1
                text = shape.replace("N", "(%s)" % t)
                ex = eval(text, ns)
                try:
                    n, d = R.of(ex, name)
                    if not R.pdivmod(n, d)[1]:
                        continue  # it is one after all
                except R.NotRational:
                    pass
                acc.state(fp.h64(fp.key(ex)))
                if refused_rightly(ex, v):
                    continue
                key = "is_polynomial(%s, v=%s)" % (text, name)
                try:
                    with harness.limit(20):
                        r = is_polynomial(ex, v)
                except Exception as e:
                    r = e
                if r is not False:
                    acc.violation(key, "gives %r, it is no polynomial" % (r,), "from mc.ops import *\nfrom simpy.polynomial import *\nv = Symbol(%r)\nprint(is_polynomial(%s, v))\n" % (name, text))
                else:
                    acc.validated += 1


def refused_rightly(ex, v):
    """the shape collapsed into a polynomial, e.g. sqrt(v)**2"""
    return ex.__class__.__name__ in ("Rat", "Symbol") or not any(s.name == v.name for s in ex.symbols())


def in_space(acc, t):
    ex = space.build(t)
    acc.state(fp.h64(fp.key(ex)))
    acc.transitions += 1
    key = "to_const_polynomial(%s, x)" % t
    replay = "from mc.ops import *\nfrom simpy.polynomial import *\nprint(%s)\n" % key
    try:
        with harness.limit(20):
            got = to_const_polynomial(ex, x)
    except AssertionError:
        got = None
    except Exception as e:
        acc.violation(key, "raised %r" % e, replay)
        return
    if is_polynomial(ex, x) is not (got is not None):
        acc.violation(key, "is_polynomial disagrees", replay)
        return
    try:
        n, d = R.of(ex, "x")
        want = tuple(c / d[0] for c in n) if len(d) == 1 else None
        if want is None and not R.pdivmod(n, d)[1] and got is not None:
            want = R.pdivmod(n, d)[0]
    except R.NotRational:
        want = None
    if want is not None:
        bad = "refused" if got is None else bad_coeffs(got, want or (Fr(0),))
        if bad:
            acc.violation(key, "%s; coefficients are %s" % (bad, [str(c) for c in want]), replay)
        else:
            acc.validated += 1
        return
    if got is None:
        acc.validated += 1
        return
    vals = O.values(ex)
    if any(O_contains(c, "x") for c in got):
        acc.violation(key, "a coefficient contains x: %s" % [str(c) for c in got], replay)
        return
    for i, env in enumerate(O.ENVS):
        s = V.const(0)
        for k, c in enumerate(got):
            s = V.add(s, V.mul(V.ev(c, env), V.ipow(V.ev(x, env), k))) if s is not None and V.ev(c, env) is not None else None
        if s is not None and V.cmp(vals[i], s) == V.DIFF:
            acc.violation(key, "coefficients %s have another value at %r" % ([str(c) for c in got], O.POINTS[i]), replay)
            return
    acc.validated += 1


def O_contains(ex, name):
    return hasattr(ex, "symbols") and any(s.name == name for s in ex.symbols())


def frac_parts(acc, ex, want, key):
    """numerator and denominator as the code splits them, or None"""
    n, d = ex.numerator_denominator
    try:
        a, b = R.of(n, "x"), R.of(d, "x")
    except R.NotRational:
        acc.violation(key + ".numerator_denominator", "is (%r, %r)" % (n, d), "")
        return None
    if len(a[1]) != 1 or len(b[1]) != 1 or not R.same((R.pmul(a[0], b[1]), R.pmul(a[1], b[0])), want):
        acc.violation(key + ".numerator_denominator", "is (%r, %r)" % (n, d), "")
        return None
    return tuple(c / a[1][0] for c in a[0]), tuple(c / b[1][0] for c in b[0])


DIV_FORMS = ["(%s)/(%s)", "(%s)*(x + 1)/(%s)", "x*(%s)/(%s)"]


def division(acc, task):
    deg = task[1]
    N = list(polys(CO_D[:4], deg)) if deg > 3 else list(polys(CO_D[:4], 2)) + [c for c in polys(CO_D[:3], 3) if len(c) == 4]
    D = [d for d in polys(CO_D, 2) if len(d) > 1] + [(Fr(1), Fr(0), Fr(0), Fr(1)), (Fr(-1), Fr(1), Fr(0), Fr(2)), (Fr(0), Fr(1), Fr(0), Fr(1))]
    ne = {}
    for d in D:
        de = expr(d, x)
        for c in N[task[2] :: task[3]]:
            if c not in ne:
                ne[c] = expr(c, x)
            one_division(acc, ne[c] / de, (c, d), "(%s)/(%s)" % (written(c, "x"), written(d, "x")))
    # factored numerators and denominators
    small = list(polys([Fr(0), Fr(1), Fr(-2)], 2))
    for c in small[task[2] % len(small) :: task[3]]:
        for d in small:
            if len(d) < 2:
                continue
            for e1 in ((Fr(1), Fr(1)), (Fr(0), Fr(1)), (Fr(3), Fr(0), Fr(1))):
                for e2 in ((Fr(1),), (Fr(1), Fr(1)), (Fr(-1), Fr(2)), (Fr(0), Fr(0), Fr(1))):
                    key = "(%s)*(%s)/((%s)*(%s))" % (written(c, "x"), written(e1, "x"), written(d, "x"), written(e2, "x"))
                    ex = expr(c, x) * expr(e1, x) / (expr(d, x) * expr(e2, x))
                    one_division(acc, ex, (R.pmul(c, e1), R.pmul(d, e2)), key)


def one_division(acc, ex, want, key):
    acc.state(fp.h64(fp.key(ex)))
    acc.transitions += 1
    replay = "from mc.ops import *\nfrom simpy.transforms import *\nn = Node(%s, x)\nt = PolynomialDivision()\nprint(t.check(n))\nt.forward(n)\nprint(n.children)\n" % key
    if ex.__class__.__name__ != "Prod":
        return
    nd = frac_parts(acc, ex, want, key)
    if nd is None:
        return
    n, d = nd
    node = Node(ex, x)
    t = PolynomialDivision()
    try:
        with harness.limit(20):
            ok = t.check(node)
    except Exception as e:
        acc.violation("division: " + key, "check raised %r" % e, replay)
        return
    if bool(ok) != (len(n) >= len(d)) and (len(d) > 1 or len(n) < len(d)):
        acc.violation("division: " + key, "offered: %r, degrees are %d and %d" % (ok, len(n) - 1, len(d) - 1), replay)
        return
    if not ok:
        acc.validated += 1
        return
    try:
        with harness.limit(20):
            t.forward(node)
    except Exception as e:
        acc.violation("division: " + key, "raised %r" % e, replay)
        return
    if not node.children:  # nothing was divided
        if len(d) == 1:
            acc.validated += 1
        else:
            acc.violation("division: " + key, "has no outcome", replay)
        return
    child = node.children[0]
    try:
        p, rest = R.split(child.expr, "x")
    except R.NotRational:
        acc.violation("division: " + key, "gives %r" % (child.expr,), replay)
        return
    wq, wr = R.pdivmod(n, d)
    if len(node.children) != 1 or child.var.name != "x" or p != wq or not R.same(rest, (wr, d)):
        acc.violation("division: " + key, "gives %r, quotient is %s and remainder %s" % (child.expr, [str(c) for c in wq], [str(c) for c in wr]), replay)
        return
    acc.validated += 1


def fractions(acc, task):
    lin = [(b, a) for a in CO_L for b in [Fr(0)] + CO_L]
    pairs = list(itertools.product(lin, lin))
    nums = [(Fr(1),), (Fr(-2),), (Fr(0), Fr(1)), (Fr(1), Fr(1)), (Fr(3), Fr(-2)), (Fr(1, 2), Fr(5))]
    for d1, d2 in pairs[task[1] :: task[2]]:
        a, b = expr(d1, x), expr(d2, x)
        for nu in nums:
            for form in ("prod", "expanded", "square", "cube"):
                key = "(%s)/((%s)*(%s))" % (written(nu, "x"), written(d1, "x"), written(d2, "x"))
                den, want = a * b, R.pmul(d1, d2)
                if form == "expanded":
                    den = expr(want, x)
                    key = "(%s)/(%s)" % (written(nu, "x"), written(want, "x"))
                elif form == "square":
                    den, want = den * a, R.pmul(want, d1)
                    key = "(%s)/((%s)**2*(%s))" % (written(nu, "x"), written(d1, "x"), written(d2, "x"))
                elif form == "cube":
                    if d1[0] != 1 or nu[0] != 1:
                        continue
                    den, want = (a**2 + 1) * b, R.pmul(R.padd(R.pmul(d1, d1), (Fr(1),)), d2)
                    key = "(%s)/(((%s)**2 + 1)*(%s))" % (written(nu, "x"), written(d1, "x"), written(d2, "x"))
                one_fraction(acc, expr(nu, x) / den, (nu, want), key)


def one_fraction(acc, ex, want, key):
    acc.transitions += 1
    acc.state(fp.h64(fp.key(ex)))
    if ex.__class__.__name__ != "Prod":
        return
    nd = frac_parts(acc, ex, want, key)
    if nd is None:
        return
    n, d = nd
    de = ex.numerator_denominator[1]
    replay = "from mc.ops import *\nfrom simpy.transforms import *\nn = Node(%s, x)\nt = PartialFractions()\nprint(t.check(n))\nt.forward(n)\nprint(n.children)\n" % key
    node = Node(ex, x)
    t = PartialFractions()
    try:
        with harness.limit(20):
            ok = t.check(node)
            if ok:
                t.forward(node)
    except Exception as e:
        acc.violation("partial fractions: " + key, "raised %r" % e, replay)
        return
    # must be offered for a proper fraction whose denominator is written as two different linear factors
    if not ok and len(n) <= 2 and len(d) == 3 and de.__class__.__name__ == "Prod" and len(de.terms) == 2:
        f = [R.of(q, "x")[0] for q in de.terms]
        if all(len(q) == 2 for q in f) and f[0][0] * f[1][1] != f[1][0] * f[0][1]:
            acc.violation("partial fractions: " + key, "not split", replay)
            return
    if not ok:
        acc.validated += 1
        return
    if len(n) >= len(d):
        acc.violation("partial fractions: " + key, "an improper fraction was split", replay)
        return
    if not node.children:
        acc.violation("partial fractions: " + key, "has no outcome", replay)
        return
    child = node.children[0]
    try:
        got = R.of(child.expr, "x")
        dens = [R.of(s, "x") for s in (child.expr.terms if child.expr.__class__.__name__ == "Sum" else [child.expr])]
    except R.NotRational:
        acc.violation("partial fractions: " + key, "gives %r" % (child.expr,), replay)
        return
    if len(node.children) != 1 or child.var.name != "x" or not R.same(got, (n, d)):
        acc.violation("partial fractions: " + key, "gives %r, which is not equal" % (child.expr,), replay)
        return
    if any(len(s[1]) >= len(d) or len(s[0]) >= len(s[1]) for s in dens):
        acc.violation("partial fractions: " + key, "gives %r, which is not simpler" % (child.expr,), replay)
        return
    acc.validated += 1
    acc.sample("%s = %r" % (key, child.expr))
