"""C06: expanding multiplies everything out and keeps the value.

All products, quotients, powers and nestings (two levels) of 12 sums, plus every expression reachable by two
operations. Polynomial results are compared exactly, coefficient by coefficient, with an independent polynomial
arithmetic; all results by value and by shape (no product or integer power of a sum left)."""
import itertools

from mc import fp, harness, poly
from mc import ops as O
from mc import space
from mc.ops import *  # noqa: F401,F403

ID = "C06"
LEVEL = "model_checking"
RULE = (
    "state = expression with products/powers of sums (all combinations of 12 sums in 17 shapes, two nesting levels, plus "
    "the two-operation space); transition = one expansion on the implementation, checked by value, shape and, for polynomials, exact coefficients"
)
ASSUMPTIONS = ["equality of non-polynomial functions is judged at 6 fixed generic points"]
REPLAY = """from mc.ops import *
ex = %(t)s
r = ex.expand() if ex.expandable() else ex
print(ex, "->", r)
for p, env in zip(POINTS, ENVS):
    print(p, V.ev(ex, env), V.ev(r, env))
"""

S = {
    "(x + 1)": x + 1,
    "(x - y)": x - y,
    "(x + y + 1)": x + y + 1,
    "(2*x - 3)": 2 * x - 3,
    "(x**2 - y/2)": x**2 - y / 2,
    "(x*y + z - 2)": x * y + z - 2,
    "(x + pi)": x + pi,
    "(sin(x) + 1)": sin(x) + 1,
    "(e**x - y)": e**x - y,
    "(sqrt(x) + 1)": sqrt(x) + 1,
    "(1/x + y)": 1 / x + y,
    "(log(x) + cos(y))": log(x) + cos(y),
}
SHAPES1 = ["%s**2", "%s**3", "%s**4", "%s**-2", "%s**-3", "x*%s", "-3*%s", "x*%s**2/y", "%s/(x*y)", "1/(x*%s)", "sin(x*%s)", "e**(y*%s)", "sqrt(x*%s)", "(%s)**F(1, 2)*%s"]
SHAPES2 = ["%s*%s", "%s/%s", "1/(%s*%s)", "%s**2*%s", "%s**2*%s**2", "%s**2/%s", "%s*(1 + %s*x)", "(x*%s + %s)**2", "%s + y*%s", "log(%s*%s)", "(%s*%s + 1)**2", "(%s*%s)**2 + x", "2**(%s*%s)"]
SHAPES3 = ["%s*%s*%s", "%s*(%s + x*%s)", "(%s*%s + %s)**2", "%s*%s/%s", "%s**2*%s**2*%s", "cos(%s*(%s - y*%s))"]
RATIONAL = ["(x + 1)", "(x - y)", "(x + y + 1)", "(2*x - 3)", "(x**2 - y/2)", "(x*y + z - 2)"]


def traces(tier):
    for sh in SHAPES1:
        for s in S:
            yield sh % ((s,) * sh.count("%s"))
    for sh in SHAPES2:
        for a, b in itertools.product(S, S):
            yield sh % (a, b)
    names = list(S)
    pick = names if tier != "quick" else RATIONAL + ["(sin(x) + 1)", "(1/x + y)"]
    for sh in SHAPES3:
        for c in itertools.product(pick, repeat=3):
            yield sh % c
    # plain polynomial powers, all small shapes
    for s in RATIONAL:
        for n in range(2, 8 if tier == "quick" else 11):
            yield "%s**%d" % (s, n)
            yield "%s**-%d" % (s, n)
            yield "x**2*%s**%d" % (s, n)
    # high powers of short sums, one at a time and in products that add up to one
    for s in ["(x + 1)", "(x - y)", "(2*x - 3)", "(x**2 - y/2)", "(x + pi)", "(sin(x) + 1)", "(1/x + y)"]:
        for n in range(8, 17 if tier == "quick" else 25):
            yield "%s**%d" % (s, n)
            yield "%s**-%d" % (s, n)
            yield "x*%s**%d + %s" % (s, n, s)
        yield "%s**5*%s**4" % (s, s)
        yield "(%s**4 + x)**3" % s
    for s in ["(x + y + 1)", "(x*y + z - 2)"]:
        for n in range(8, 11 if tier == "quick" else 14):
            yield "%s**%d" % (s, n)
            yield "1/%s**%d" % (s, n)
    for a, b in itertools.product(RATIONAL, RATIONAL):
        for i, j in itertools.product((1, 2, 3), (1, 2, 3)):
            yield "%s**%d*%s**%d" % (a, i, b, j)
    # long sums, high powers
    mono = ["x", "-2*y", "z/3", "1", "x*y", "y**2", "x**3"]
    top = 5 if tier == "quick" else 7
    for k in range(2, top + 1):
        for c in itertools.combinations(mono, k):
            sm = "(" + " + ".join(c) + ")"
            for n in range(2, 6 if k < 5 else 5):
                yield "%s**%d" % (sm, n)
            yield "%s**-3" % sm
            yield "%s*(%s)*(x - z)" % (sm, " + ".join(c[::-1] + ("5",)))


def multiplied_out(r):
    n = r.__class__.__name__
    if n == "Prod" and any(t.__class__.__name__ == "Sum" for t in r.terms):
        return False
    if (
        n == "Power"
        and r.base.__class__.__name__ == "Sum"
        and r.exponent.__class__.__name__ == "Rat"
        and r.exponent.value.denominator == 1
        and abs(r.exponent.value) > 1
    ):
        return False
    return all(multiplied_out(c) for c in r.children())


def check(acc, t):
    try:
        ex = space.build(t)
    except Exception:
        acc.note("not buildable")
        return
    if not isinstance(ex, Expr) or O.has_inf(ex):
        return
    acc.state(fp.h64(fp.key(ex)))
    acc.transitions += 1
    before = fp.key(ex)
    try:
        with harness.limit(40):
            r = ex.expand() if ex.expandable() else ex
    except harness.CpuTimeout:
        acc.violation(t, "expansion did not return within 40 s of CPU time", REPLAY % {"t": t})
        return
    except Exception as e_:
        acc.violation(t, "expanding %r raised %r" % (ex, e_), REPLAY % {"t": t})
        return
    if fp.key(ex) != before:
        acc.violation(t, "expanding changed the expression it was called on", REPLAY % {"t": t})
        return
    if not multiplied_out(r):
        acc.violation(t, "expanding %r gives %r, which still has a product or power of a sum" % (ex, r), REPLAY % {"t": t})
        return
    try:
        p = poly.of(ex)
    except poly.NotPoly:
        p = None
    if p is not None:
        try:
            q = poly.expanded_form(r)
        except poly.NotPoly as e_:
            acc.violation(t, "expanding the polynomial %r gives %r, not a sum of distinct monomials (%s)" % (ex, r, e_), REPLAY % {"t": t})
            return
        if p != q:
            acc.violation(t, "expanding the polynomial %r gives %r: wrong coefficients" % (ex, r), REPLAY % {"t": t})
        try:
            again = r.expand() if r.expandable() else r
            if fp.ckey(again) != fp.ckey(r):
                acc.violation(t, "expanding %r gives %r, and expanding that again %r" % (ex, r, again), REPLAY % {"t": t})
                return
        except Exception as e_:
            acc.violation(t, "expanding %r gives %r, and expanding that again raises %r" % (ex, r, e_), REPLAY % {"t": t})
            return
        acc.validated += 1
        acc.note("exact polynomial comparisons")
        return
    if r is ex:
        return
    bad = O.mismatch(O.values(ex), O.values(r), acc, (ex,))
    if bad:
        i, a, b = bad
        acc.violation(t, "expanding %r gives %r; values at %s are %s and %s" % (ex, r, O.POINTS[i], a and a[0], b and b[0]), REPLAY % {"t": t})


def stage_tasks(tier, stage, carry):
    tasks = space.stages(stage, carry, thin=2 if tier == "quick" else 1)
    if stage == 1:
        ts = sorted(set(traces(tier)) | set(space.meeting()))
        n = 128
        tasks += [("chk", ts[i::n]) for i in range(n)]
    return tasks


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    for t in task[1]:
        check(acc, t)
    acc.sample("expand " + (task[1][-1] if task[1] else "-"))
