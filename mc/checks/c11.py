"""C11: the advertised families of integrals are solved.

Every member of each family, over its whole (small) parameter range, is given to the integrator with a virtual clock; it
must return an answer within the bound on search cycles. Families are stated below; each is closed under its parameters,
so that giving up on one member shows.
What the integrator cannot do at all (csc, cot^2, log^2, 1/(x^2 + 4), x*atan(x), (x + 1)^-2, ...) is not among them."""
import itertools

from mc import fp, harness, integ, intspace
from mc.checks import c09, c12
from mc.ops import *  # noqa: F401,F403

ID = "C11"
LEVEL = "model_checking"
RULE = "state = member of a family (family, parameters, name of the variable); transition = one search cycle of its search; it must end with an answer within %d cycles"
CAP = 40
RULE = RULE % CAP
ASSUMPTIONS = ["bounded liveness: an answer within %d cycles of the search, on the virtual clock" % CAP]
REPLAY = """from mc import env; env.install()
from mc import integ
from mc.ops import *
%(v)s = Symbol(%(v)r)
r = integ.search(%(t)s, %(v)s, cap=%(cap)d, budget=None, ids=(%(id)d,))
print("answer:", r.answer, r.error, "clock reads:", r.reads)
"""

ARGS = ["x", "2*x", "3*x", "-x", "x/2", "x + 1", "2*x - 3", "1 - x", "pi*x", "-2*x/3 + 1", "y*x", "x + y"]
COEF = ["1", "2", "-3", "F(1, 2)", "F(-2, 5)", "pi", "y"]


def poly(cs):
    return " + ".join("%d*x**%d" % (c, k) for k, c in enumerate(cs))


def irreducible(p, q):
    return p * p - 4 * q < 0


def families(tier):
    quick = tier == "quick"
    fam = {}

    def add(name, items):
        fam[name] = list(items)

    add("powers", ["(%s)*x**F(%d, %d)" % (c, n, d) for d in (1, 2, 3) for n in range(-7, 8) for c in ("1", "-5", "F(2, 3)")] + ["x**y", "x**pi", "x**(y + 1)", "x**(-y)"])
    add("polynomials", [poly(c) for c in itertools.product((-2, 0, 1, 3), repeat=4) if any(c)])
    add("powers of linear", ["(%s)**F(%d, %d)" % (a, n, d) for a in ARGS for n, d in ((2, 1), (3, 1), (5, 1), (-1, 1), (1, 2), (-1, 2), (3, 2), (1, 3), (-2, 3))])
    add("linear over linear", ["(%d*x + %d)/(%d*x + %d)" % (a, b, c, d) for a in (0, 1, -2) for b in (1, -3, 5) for c in (1, 2, -3) for d in (1, 4, -5)])
    add("power over linear", ["x**%d/(x + %d)" % (n, a) for n in range(1, 5) for a in (1, 2, -3, 5)])
    add("two linear factors", ["(%s)/((x + %d)*(x + %d))" % (n, a, b) for n in ("1", "x", "3*x - 2") for a, b in itertools.combinations((-4, -2, -1, 1, 3, 5), 2)])
    add("two linear factors, expanded", ["(%s)/(x**2 + %d*x + %d)" % (n, a + b, a * b) for n in ("1", "-5", "y") for a, b in itertools.combinations((-4, -2, -1, 1, 3, 5), 2)])
    add("irreducible quadratic", ["1/(x**2 + %d*x + %d)" % (p, q) for p in range(-5, 6) for q in range(1, 15) if p and irreducible(p, q)])
    add("arctangent", ["%s/(%d*x**2 + 1)" % (c, a) for a in (1, 2, 3, 4, 5, 9, 16) for c in COEF] + ["x/(%d*x**2 + %d)" % (a, b) for a in (1, 2, 4) for b in (1, 3, -5)])
    add("arcsine", ["%s/sqrt(1 - %d*x**2)" % (c, a) for a in (1, 2, 3, 4, 5, 9, 16) for c in COEF] + ["x/sqrt(%d - %d*x**2)" % (b, a) for a in (1, 4) for b in (1, 3, 9)])
    add("exponentials", ["%s**(%s)" % (b, a) for b in ("e", "2", "10", "y") for a in ARGS if not (b == "y" and "y" in a)] + ["e**(%s)*(%s)" % (a, c) for a in ARGS for c in COEF])
    add("power times exponential", ["x**%d*e**(%s)" % (n, a) for n in (1, 2, 3) for a in ("x", "-x", "2*x", "x/2", "-3*x", "x + 1", "pi*x")])
    add("power times sine", ["x**%d*%s(%s)" % (n, f, a) for n in (1, 2, 3) for f in ("sin", "cos") for a in ("x", "2*x", "x/2", "3*x", "pi*x")])
    add("exponential times sine", ["e**(%d*x)*%s(%d*x)" % (a, f, b) for a in (1, 2, -1, -3) for b in (1, 2, 3) for f in ("sin", "cos")])
    add("logarithms", ["log(%s)" % a for a in ARGS] + ["x**F(%d, %d)*log(x)" % (n, d) for n, d in ((-1, 1), (-2, 1), (-3, 1), (-4, 1), (1, 2), (-1, 2), (1, 3), (3, 2))])
    for f in ("sin", "cos", "tan", "sec", "cot"):
        add(f, ["%s(%s)" % (f, a) for a in ARGS] + ["(%s)*%s(%s)" % (c, f, a) for c in COEF[1:] for a in ("x", "2*x - 3")])
    add("squares", ["%s(%s)**2" % (f, a) for f in ("sin", "cos", "tan", "sec", "csc") for a in ARGS])
    add("sin^m cos^n", ["sin(x)**%d*cos(x)**%d" % (m, n) for m in range(5) for n in range(5) if m + n])
    add("sin^m cos^n of 2x", ["sin(2*x)**%d*cos(2*x)**%d" % (m, n) for m in range(4) for n in range(4) if m + n])
    add("tan^m sec^n", ["tan(x)**%d*sec(x)**%d" % (m, n) for m in range(5) for n in (0, 2) if m + n] + ["tan(x)**%d*sec(x)**%d" % (m, n) for m in (1, 3) for n in (1, 3)])
    add("sec tan", ["sec(%s)*tan(%s)" % (a, a) for a in ARGS] + ["csc(%s)*cot(%s)" % (a, a) for a in ARGS])
    add("sin(ax) cos(bx)", ["%s(%d*x)*%s(%d*x)" % (f, a, g, b) for f in ("sin", "cos") for g in ("sin", "cos") for a in (1, 2, 3, 5) for b in (1, 2, 4)])
    add("inverse trigonometric", ["%s(%s)" % (f, a) for f in ("asin", "acos", "atan") for a in ARGS])
    add("substitution x^n", ["%d*x**%d*%s" % (c, n - 1, g.replace("u", "x**%d" % n)) for c in (1, 5) for n in (2, 3, 4) for g in ("e**(u)", "sin(u)", "cos(u)", "1/(u + 1)", "sqrt(u + 1)", "(u + 1)**7", "e**(-u)", "cos(3*u)")])
    add("substitution f'", ["cos(x)*e**sin(x)", "sin(x)*e**cos(x)", "e**x/(e**x + 1)", "e**x*cos(e**x)", "sec(x)**2*e**tan(x)", "e**sqrt(x)/sqrt(x)", "cos(sqrt(x))/sqrt(x)", "sin(x)/cos(x)**3", "cos(x)/sin(x)**4", "sin(x)/(1 + cos(x))", "atan(x)/(1 + x**2)", "asin(x)/sqrt(1 - x**2)", "e**(1/x)/x**2", "sin(1/x)/x**2", "cos(x)*sin(x)**5", "cos(x)*sqrt(sin(x))", "sec(x)**2*tan(x)**5", "sec(x)**2/tan(x)", "(2*x + 3)*(x**2 + 3*x)**4"])
    add("x times root", ["x**%d*sqrt(%s)" % (n, a) for n in (1, 2) for a in ("x + 1", "x - 4", "2*x + 1", "3 - x")] + ["x**%d/sqrt(%s)" % (n, a) for n in (1, 2) for a in ("x + 1", "x - 4", "2*x + 1")])
    q = ["F(1, 2)", "F(-2, 3)", "F(5, 2)", "F(3, 4)", "F(-1, 3)", "F(7, 5)"]
    add("irreducible quadratic, fractions", ["1/(%s*x**2 + %s*x + %s)" % (a, b, c) for a in ("F(1)", "F(1, 2)", "F(3)", "F(-2)") for b in q for c in ("F(1)", "F(5, 2)", "F(9, 4)", "F(-3)") if eval(b) ** 2 - 4 * eval(a) * eval(c) < 0])
    add("two linear factors, fractions", ["(%s)/((x + %s)*(x + %s))" % (n, a, b) for n in ("1", "x", "3*x - 2") for a, b in itertools.combinations(q, 2)])
    add("two linear factors, coefficients", ["(%s)/((%d*x + %d)*(%d*x + %d))" % (n, k, a, l, b) for n in ("1", "x") for k in (2, 3, -1) for l in (1, 5) for a, b in ((1, 3), (-2, 1), (1, -4)) if (k, l, a) != (2, 1, -2)])
    add("arctangent, fractions", ["%s/(%s*x**2 + 1)" % (c, a) for a in ("F(1, 2)", "F(1, 4)", "F(9, 4)", "F(3, 5)") for c in ("1", "F(2, 5)", "pi", "y")])
    add("symbolic coefficients", ["1/(x + y)", "1/(y*x + 1)", "y*x**2 + y", "x**2*y/(x + 1)", "e**(y*x)*x", "x*sin(y*x)", "x**2*cos(y*x)", "e**(y*x)*sin(x)", "log(x + y)", "log(y*x)", "sqrt(x + y)", "1/sqrt(y*x + 1)", "(x + y)**5", "y**x", "sin(y*x + 1)**2", "tan(y*x)", "sec(y*x)**2"])
    add("products of sums", ["(x + %d)**%d*(x - %d)" % (a, n, b) for a in (1, 2) for n in (1, 2, 3, 5) for b in (1, 3)] + ["x*(x + 1)**%d" % n for n in (2, 3, 4, 7, -1)])
    add("power over linear, coefficients", ["x**%d/(%d*x + %d)" % (n, k, a) for n in range(1, 6) for k in (2, -3) for a in (1, -4)])
    add("power over quadratic", ["x**%d/(x**2 + %d)" % (n, a) for n in range(1, 6) for a in (1, -1)] + ["x**%d/(x**2 + %d)" % (n, a) for n in (1, 3, 5) for a in (2, 4, -4)])
    add("exponential times sine, shifted", ["e**(%s)*%s(%s)" % (a, f, b) for a in ("x/2", "pi*x", "x + 1", "2*x - 1") for f in ("sin", "cos") for b in ("x/3", "x", "2*x + 1")])
    add("polynomial times exponential", ["(%s)*e**(%s)" % (p, a) for p in ("x + 1", "x**2 - 3", "x**2 + x", "2*x - F(1, 2)") for a in ("x", "2*x", "-x", "x/3")])
    add("polynomial times sine", ["(%s)*%s(%s)" % (p, f, a) for p in ("x + 1", "x**2 - 3", "x**2 + x", "2*x - F(1, 2)") for a in ("x", "2*x", "x/3", "x + 1") for f in ("sin", "cos")])
    add("logarithm to a base", ["log(x, 2)", "log(x, 10)", "log(2*x + 1, 10)"])
    add("roots", ["1/(x**2*sqrt(1 - x**2))", "1/sqrt(x**2 + 1)", "x*(x + 1)**F(1, 3)", "x**3/sqrt(x**2 + 1)", "x*sqrt(1 - x**2)", "x/(x+1)**F(1, 3)", "x/sqrt(1 - x**2)"])
    add("substitution of exponentials", ["(e**x + 1)**2", "(e**x + e**(-x))**2", "2**x*e**x", "2**x*x", "e**x*(e**x + 1)**4", "e**x*2**(3*x)", "e**x*sqrt(1 + e**x)", "x*3**(2*x)", "x*e**(x**2)"])
    add("substitution of trigonometric functions", ["(sin(x) + cos(x))**2", "1/cos(x)", "1/cos(x)**2", "1/sin(x)**2", "cos(x)/(1 + sin(x)**2)", "csc(x)**2*cot(x)", "sec(x)*tan(x)**3", "sin(x)**2*cos(2*x)", "sin(x)*e**(cos(x))", "sin(x)*log(cos(x))", "sin(x)/(2 + cos(x))", "sin(x)/sqrt(cos(x))", "tan(x)*log(cos(x))", "x*sec(x)**2"])
    add("substitution of inverse functions", ["asin(2*x)/sqrt(1 - 4*x**2)", "atan(x)**2/(1 + x**2)", "e**atan(x)/(1 + x**2)"])
    add("logarithms by parts", ["log(2*x)/x", "log(x + 1)/x**2", "log(x**2 + 1)"])
    add("high powers", ["%s(x)**%d" % (f, n) for f in ("sin", "cos", "tan") for n in range(5, 9)])
    add("linear over x^2 + 1", ["(%d*x + %d)/(x**2 + 1)" % (a, b) for a in (1, 2, -3) for b in (0, 1, -2)])
    add("sums", ["(%s) + (%s)" % p for p in itertools.combinations(["x**2", "3/x", "sin(2*x)", "e**(-x)", "log(x)", "1/(x + 1)", "tan(x)", "x*e**x", "atan(x)", "y", "sec(x)**2"], 2)])
    return fam


NAMES = ["x", "t", "theta", "A", "z"]


def tasks(tier):
    out = []
    items = [(name, t) for name, L in families(tier).items() for t in L]
    seen = set()
    uniq = []
    for name, t in items:
        if t not in seen:
            seen.add(t)
            uniq.append((name, t))
    m = 128
    return [(tuple(uniq[i::m]), tier == "quick", i) for i in range(m)]


def run(task, acc):
    L, quick, off = task
    for i, (name, t) in enumerate(L):
        names = ["x", NAMES[1 + (i + off) % (len(NAMES) - 1)]] if quick else NAMES
        for v in names:
            ex = c12.named(t, v)
            if ex is None:
                acc.note("not constructible")
                continue
            acc.state(fp.h64(name + t + v))
            r = integ.search(ex, Symbol(v), cap=CAP, cpu=60, budget=30, ids=((i + off + len(v)) % 2,))
            acc.transitions += r.reads
            key = "integrate(%s, %s)" % (intspace.linear(t, v) if v != "x" else t, v)
            rep = REPLAY % {"t": intspace.linear(t, v) if v != "x" else t, "v": v, "cap": CAP, "id": (i + off + len(v)) % 2}
            if r.error is not None:
                acc.violation(key, "family '%s': raised %r" % (name, r.error), rep)
            elif r.answer is None:
                acc.violation(key, "family '%s': not solved (%d cycles)" % (name, r.reads - 1), rep)
            else:
                acc.validated += 1
                acc.note("cycles needed: %s" % ("1" if r.reads <= 2 else "2-5" if r.reads <= 6 else "6-15" if r.reads <= 16 else "16+"))
        acc.sample("%s: %s" % (name, t))
