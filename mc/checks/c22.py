"""C22: product-to-sum rewriting keeps the value.

Every product of up to three sine/cosine powers over a set of arguments, exponents and constant factors."""
import itertools

from mc import fp, harness
from mc import ops as O
from mc import space
from mc.ops import *  # noqa: F401,F403
from simpy.simplify.product_to_sum import product_to_sum, product_to_sum_unit

ID = "C22"
LEVEL = "model_checking"
RULE = (
    "state = a constant times up to three (four when thorough) powers of sine and cosine; transition = one product-to-sum "
    "rewriting by the implementation, compared by value with the product"
)
ASSUMPTIONS = ["equality of functions is judged at 6 fixed generic points"]
REPLAY = """from mc.ops import *
from simpy.simplify.product_to_sum import product_to_sum, product_to_sum_unit
ex = %(t)s
r = %(f)s(ex)
print(ex, "->", r)
for p, env in zip(POINTS, ENVS):
    print(p, V.ev(ex, env), V.ev(r, env))
"""
ARGS = ["x", "2*x", "3*x", "y", "x + y", "x/2 - 1"]


def traces(tier):
    f1 = ["%s(%s)" % (f, a) for f in ("sin", "cos") for a in ARGS]
    pw = [t + q for t in f1 for q in ("", "**2", "**3", "**4", "**5")]
    consts = ["", "2*", "-3*", "F(1, 2)*", "pi*", "sqrt(2)*"]
    for k in consts:
        for t in pw:
            yield k + t
        for a, b in itertools.combinations_with_replacement(f1, 2):
            yield "%s%s*%s" % (k, a, b)
    for a, b in itertools.combinations([t for t in pw if t[-1] not in "45"] if tier == "quick" else pw, 2):
        yield "%s*%s" % (a, b)
        yield "-2*%s*%s" % (a, b)
    small = [t for t in pw if t[-1] not in "45"]
    pick = [t for t in small if "(x)" in t or "(2*x)" in t or "(y)" in t]
    for c in itertools.combinations(pick if tier == "quick" else small, 3):
        yield "%s*%s*%s" % c
    if tier != "quick":
        for c in itertools.combinations(pick, 4):
            yield "%s*%s*%s*%s" % c
    # other arguments: shifted, negative, with functions, products and powers in them
    odd = ["x + pi/4", "1 - 2*x", "x*y", "x**2", "sqrt(x)", "pi*x", "log(x)", "x/3 + y/2", "1", "x - y", "sin(x)", "e**x"]
    f2 = ["%s(%s)" % (f, a) for f in ("sin", "cos") for a in odd]
    for a, b in itertools.combinations_with_replacement(f2 + ["sin(x)", "cos(x)"], 2):
        yield "%s*%s" % (a, b)
        yield "%s**2*%s" % (a, b)
        yield "F(-2, 3)*%s**3*%s**2" % (a, b)
    # high powers and many factors
    for t in f1[:2] + f1[6:9] + ["sin(1 - 2*x)"]:
        for n in range(6, 13 if tier == "quick" else 20):
            yield "%s**%d" % (t, n)
            yield "5*%s**%d*cos(y)" % (t, n)
    many = ["sin(x)", "cos(x)", "sin(2*x)", "cos(y)", "sin(x + y)", "cos(3*x)", "sin(z)"]
    for n in range(4, 8):
        for c in itertools.combinations(many, n):
            yield "*".join(c)
            yield "-2*" + "*".join(c[::-1])
            yield "*".join((c[0] + "**2",) + c[1:])
            yield "e*" + "*".join(c[:-1] + (c[-1] + "**3",))


def sums(tier):
    prods = ["sin(x)*cos(2*x)", "cos(x)*sin(2*x)", "sin(x)**2", "cos(x)**2", "sin(x)*sin(y)", "cos(x)*cos(y)", "sin(3*x)", "cos(2*x)", "x*sin(x)*cos(x)", "sin(x)**3", "sin(x)*cos(x)**2", "Rat(1)"]
    cs = ["", "-1*", "2*", "F(1, 3)*"]
    items = [c + p for c in cs for p in prods]
    for a, b in itertools.combinations(items, 2):
        yield "%s + %s" % (a, b)
    for a, b, c in itertools.combinations(items[: (24 if tier == "quick" else 48)], 3):
        yield "%s + %s + %s" % (a, b, c)


def trig_factors(ex):
    """number of sines and cosines multiplied (numbers left out), 0 if there is another factor"""
    n = 0
    for t in ex.terms if ex.__class__.__name__ == "Prod" else [ex]:
        k = 1
        if t.__class__.__name__ in ("Rat", "Float", "Pi", "E"):
            continue
        if t.__class__.__name__ == "Power":
            if t.exponent.__class__.__name__ != "Rat":
                return 0
            if t.base.__class__.__name__ in ("Rat", "Pi", "E"):
                continue
            if t.exponent.value.denominator != 1 or t.exponent.value < 1:
                return 0
            t, k = t.base, t.exponent.value
        if t.__class__.__name__ not in ("sin", "cos"):
            return 0
        if not t.symbols():
            continue  # a constant factor such as sin(1)
        n += k
    return n


def tasks(tier):
    a = list(traces(tier))
    b = list(sums(tier))
    return [("unit", a[i::96]) for i in range(96)] + [("sum", b[i::32]) for i in range(32)]


def run(task, acc):
    fn = product_to_sum_unit if task[0] == "unit" else product_to_sum
    fname = fn.__name__
    for t in task[1]:
        ex = space.build(t)
        if task[0] == "sum" and ex.__class__.__name__ != "Sum":
            continue
        acc.state(fp.h64(fp.key(ex)))
        acc.transitions += 1
        key = "%s(%s)" % (fname, t)
        rep = REPLAY % {"t": t, "f": fname}
        try:
            with harness.limit(60):
                r = fn(ex)
        except harness.CpuTimeout:
            acc.violation(key, "did not return within 60 s of CPU time", rep)
            continue
        except Exception as e_:
            acc.violation(key, "%s of %r raised %r" % (fname, ex, e_), rep)
            continue
        if r is None:
            if task[0] == "unit" and trig_factors(ex) > 1:
                acc.violation(key, "%r is a product of sines and cosines, but is not rewritten" % ex, rep)
                continue
            acc.note("not rewritten")
            continue
        if not isinstance(r, Expr):
            acc.violation(key, "%s of %r gives %r, not an expression" % (fname, ex, r), rep)
            continue
        bad = O.mismatch(O.values(ex), O.values(r), acc, ())
        if bad:
            i, a, b = bad
            acc.violation(key, "%s turns %r into %r; values at %s are %s and %s" % (fname, ex, r, O.POINTS[i], a and a[0], b and b[0]), rep)
    acc.sample("%s of %s" % (fname, task[1][-1]))
