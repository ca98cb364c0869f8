"""C26: infinity stands for a limit.

All operations up to depth two on infinity, numbers and constants, compared with extended real arithmetic, where an
indeterminate form has no value; and definite integrals with infinite bounds: whatever number comes out must be the value
of the convergent improper integral, found by numeric integration over exponentially growing intervals."""
import ast
import itertools
import math
import re

from mc import fp, harness, integ, intspace, quad
from mc import ops as O
from mc import val as V
from mc.checks import c09
from mc.ops import *  # noqa: F401,F403

ID = "C26"
LEVEL = "model_checking"
RULE = (
    "state = expression of infinity and numbers / (integrand, unbounded interval); transition = one operation or integration on the "
    "real code, compared with extended real arithmetic or with the numeric improper integral"
)
ASSUMPTIONS = [
    "x^0, 1^x, division by zero and 0 times something indeterminate follow the project's conventions and are not judged",
    "convergence is judged by how the integrand decays between e^20 and e^30; where that is unclear nothing is claimed",
]
INF, IND = math.inf, "indeterminate"
NS = dict(O.__dict__)


# ---- extended arithmetic: a float (maybe infinite), IND, or None (not judged)

def eadd(a, b):
    if a is None or b is None:
        return None
    if IND in (a, b):
        return IND
    r = a + b
    return IND if r != r else r


def emul(a, b):
    if a is None or b is None:
        return None
    if IND in (a, b):
        return None if 0 in (a, b) else IND
    r = a * b
    return IND if r != r else r


def epow(a, b):
    if a is None or b is None:
        return None
    if b == 0 or a == 1 or b == IND and a == 0:
        return None
    if IND in (a, b):
        return IND
    if a == 0:
        return 0.0 if b > 0 else None
    if abs(b) == INF:
        m = abs(a)
        if m == 1:
            return IND
        big = (m > 1) == (b > 0)
        if not big:
            return 0.0
        return INF if a > 0 else IND
    if a < 0 and b != int(b):
        # the root of a negative number, and of -inf, is not real: not judged
        return None
    try:
        return float(a) ** b
    except OverflowError:
        return None


def efn(n, a):
    if a is None:
        return None
    if a == IND:
        return IND
    if n == "abs":
        return abs(a)
    if n == "atan":
        return math.atan(a)
    if n == "log":
        return INF if a == INF else math.log(a) if a > 0 else IND if a == -INF else None
    if abs(a) == INF:
        return IND
    return getattr(math, n)(a)


def evx(e, at=None):
    """the value with the variable at +-infinity, or of the constant expression as it stands"""
    n = e.__class__.__name__
    if n == "Symbol":
        return at
    if n in ("Rat", "Float"):
        try:
            v = float(e.value)
        except OverflowError:
            v = math.copysign(1e300, e.value.numerator > 0 or -1)
        if v == 0 and e.value != 0:
            v = math.copysign(1e-300, e.value.numerator > 0 or -1)
        return IND if v != v else v
    if n in ("Pi", "E"):
        return float(e.value)
    if n in ("Infinity", "NegInfinity"):
        return INF if n == "Infinity" else -INF
    if n == "NaN":
        return IND
    if n in ("Sum", "Prod"):
        out = 0.0 if n == "Sum" else 1.0
        for t in e.terms:
            out = (eadd if n == "Sum" else emul)(out, evx(t, at))
        return out
    if n == "Power":
        b, p = evx(e.base, at), evx(e.exponent, at)
        # left as it is: no claim about a limit
        return None if at is None and (INF in (b, p) or -INF in (b, p)) else epow(b, p)
    if n == "log":
        a, b = efn("log", evx(e.inner, at)), efn("log", evx(e.base, at))
        return emul(a, epow(b, -1))
    if n == "Abs":
        return efn("abs", evx(e.inner, at))
    if n in ("sin", "cos", "tan", "atan", "asin", "acos"):
        try:
            return efn(n, evx(e.inner, at))
        except ValueError:
            return None
    return None


ATOM = {
    "inf": INF, "-inf": -INF, "Rat(0)": 0.0, "Rat(1)": 1.0, "Rat(-1)": -1.0, "Rat(2)": 2.0, "Rat(-3)": -3.0, "F(1, 2)": 0.5, "F(-2, 3)": -2 / 3, "Float(0.5)": 0.5, "Float(-2.0)": -2.0,
    "Float(3.5)": 3.5, "pi": math.pi, "e": math.e, "sqrt(2)": math.sqrt(2), "-pi": -math.pi, "e**2": math.e**2, "Rat(10**30)": 1e30,
    # stand-ins on the same side of 1
    "Rat(10**30 + 1, 10**30)": 1 + 2.3e-16, "Rat(10**30 - 1, 10**30)": 1 - 1.2e-16,
}
UN = {
    "-(%s)": lambda a: emul(a, -1.0), "abs(%s)": lambda a: efn("abs", a), "sqrt(%s)": lambda a: epow(a, 0.5), "(%s)**2": lambda a: epow(a, 2), "(%s)**3": lambda a: epow(a, 3), "1/(%s)": lambda a: epow(a, -1),
    "(%s)**-2": lambda a: epow(a, -2), "(%s)**F(-1, 3)": lambda a: epow(a, -1 / 3), "e**(%s)": lambda a: epow(math.e, a), "2**(%s)": lambda a: epow(2.0, a), "F(1, 3)**(%s)": lambda a: epow(1 / 3, a),
    "log(%s)": lambda a: efn("log", a), "atan(%s)": lambda a: efn("atan", a), "sin(%s)": lambda a: efn("sin", a), "cos(%s)": lambda a: efn("cos", a), "(%s)*pi": lambda a: emul(a, math.pi), "pi - (%s)": lambda a: eadd(math.pi, emul(-1.0, a)),
    "log(%s, Rat(2))": lambda a: emul(efn("log", a), 1 / math.log(2)),
}
BIN = {
    "(%s) + (%s)": eadd, "(%s) - (%s)": lambda a, b: eadd(a, emul(-1.0, b)), "(%s)*(%s)": emul, "(%s)/(%s)": lambda a, b: emul(a, epow(b, -1)), "(%s)**(%s)": epow,
}


def lift(t):
    """F(1, 2) and the like are plain fractions in Python; make them expressions"""
    return "Rat(0) + (%s)" % t if t.startswith("F(") else t


def monstrous(t):
    """a number is to be raised to a power in the billions: nobody can compute that"""
    if "10**30" not in t and "10**400" not in t:
        return False
    for n in ast.walk(ast.parse(t, mode="eval")):
        if not (isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow)) or isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant) and n.left.value == 10:
            continue
        if monstrous(ast.unparse(n.right)) or monstrous(ast.unparse(n.left)):
            return True
        try:
            with harness.limit(10):
                p = eval(ast.unparse(n.right), NS)
                b = Rat(0) + eval(ast.unparse(n.left), NS)
        except Exception:
            continue
        p = evx(p) if isinstance(p, Expr) else float(p)
        if p is None or p == IND or abs(p) == INF or abs(p) < 1e6:
            continue
        inside = [b] + (list(b.terms) if isinstance(b, Prod) else [])
        inside += [q.base for q in inside if isinstance(q, Power)]
        if any(isinstance(q, Rat) and q.value not in (0, 1, -1) for q in inside):
            return True
        ends = [evx(b, INF), evx(b, -INF)] if b.has(Symbol) else []
        if any(v is not None and v != IND and abs(v) != INF and abs(v) not in (0, 1) for v in ends):
            return True
    return False


def judge(acc, t, want, direct=False):
    if monstrous(t):
        acc.note("a power nobody can compute")
        return None
    acc.transitions += 1
    rep = "from mc.ops import *\nprint(%s)\n" % t
    try:
        with harness.limit(10):
            r = eval(t, NS)
    except Exception as ex:
        if isinstance(ex, OverflowError) and "10**400" in t and not direct:
            acc.note("a decimal (0.0, from 1/inf) with a number beyond the range of decimals: not claimed")
        elif want is not None:
            acc.violation(t, "raised %r" % ex, rep)
        return None
    if not isinstance(r, Expr):
        return None
    acc.state(fp.h64(t))
    got = evx(r)
    if "10**400" in t and got is not None and want is not None and (want == IND or abs(want) != INF) and got != INF and got != -INF:
        got = None  # stand-ins say nothing about finite values
    if want is None or got is None:
        acc.skipped += 1
        return r
    if want == IND:
        if got != IND:
            acc.violation(t, "is indeterminate, but became %r" % r, rep)
        else:
            acc.validated += 1
    elif got == IND:
        acc.note("limit not given")
    elif got != want and not (abs(got) != INF and abs(want) != INF and abs(got - want) <= 1e-9 * (1 + abs(want))):
        acc.violation(t, "is %r, the limit is %r" % (r, want), rep)
    else:
        acc.validated += 1
    return r


def tame(v):
    return v is None or v == IND or abs(v) == INF or abs(v) < 1e40 and (v == 0 or abs(v) > 1e-40)


def arithmetic(acc, a, deep):
    va = ATOM[a]
    one = {}

    def add(t, v):
        r = judge(acc, t, v)
        if r is not None and v is not None and tame(v):
            one[t] = v

    for u, f in UN.items():
        add(u % lift(a), f(va))
    for b in ATOM:
        for o, f in BIN.items():
            if "inf" in a or "inf" in b:
                add(o % (lift(a), lift(b)), f(va, ATOM[b]))
    for t, v in one.items():
        if "inf" not in t:
            continue
        for u, f in UN.items():
            judge(acc, u % ("(" + t + ")"), f(v))
        for b in ATOM:
            for o, f in BIN.items():
                judge(acc, o % (t, lift(b)), f(v, ATOM[b]))
                if deep or b in ("inf", "-inf", "pi", "Rat(2)"):
                    judge(acc, o % (lift(b), t), f(ATOM[b], v))
    # the same infinite things against each other, twice built
    L = [p for p in one.items() if "inf" in p[0]][:: 1 if deep else 3]
    for (t, v), (u, w) in itertools.product(L, L):
        judge(acc, "(%s) - (%s)" % (t, u), eadd(v, emul(-1.0, w)))
        judge(acc, "(%s)/(%s)" % (t, u), emul(v, epow(w, -1)))
    acc.sample("arithmetic of %s" % a)


def inserting(acc, u, deep):
    """infinity put in for the variable of an expression"""
    def form(t, *a):
        return t % tuple("(" + b + ")" for b in a)

    first = [form(p, "x") for p in UN]
    L = [form(u, t) for t in ["x"] + first]
    L += [form(o, form(u, "x"), lift(b)) for o in BIN for b in ATOM if "inf" not in b] + [form(o, lift(b), form(u, "x")) for o in BIN for b in ATOM if "inf" not in b]
    L += [form(o, form(u, "x"), t) for o in BIN for t in first]
    if deep:
        L += [form(v, t) for t in L for v in UN]
    for t in L:
        if monstrous(t):
            acc.note("a power nobody can compute")
            continue
        with harness.limit(20):
            try:
                T = eval(t, NS)
            except (ValueError, ZeroDivisionError, NotImplementedError, OverflowError):
                continue
        if not isinstance(T, Expr) or not T.has(Symbol):
            continue
        for name, v in (("inf", INF), ("-inf", -INF)):
            want = evx(T, v)
            for how in ("subs({'x': %s})", "evalf({'x': %s})"):
                k = "(%s).%s" % (t, how % name)
                acc.transitions += 1
                acc.state(fp.h64(k))
                rep = "from mc.ops import *\nprint(%s)\n" % k
                try:
                    with harness.limit(10):
                        r = eval("T." + how % name, dict(NS, T=T))
                except Exception as ex:
                    if want == IND and "evalf" in how and isinstance(ex, ValueError):
                        acc.validated += 1  # refused
                    elif want is not None:
                        acc.violation(k, "raised %r" % ex, rep)
                    continue
                got = evx(r)
                if want is None or got is None:
                    acc.skipped += 1
                elif want == IND:
                    if got != IND:
                        acc.violation(k, "is indeterminate, but became %r" % r, rep)
                    else:
                        acc.validated += 1
                elif got == IND:
                    acc.note("limit not given")
                elif got != want and not (abs(got) != INF and abs(want) != INF and abs(got - want) <= 1e-9 * (1 + abs(want))):
                    acc.violation(k, "is %r, the limit is %r" % (r, want), rep)
                else:
                    acc.validated += 1
    acc.sample("infinity put into %s" % form(u, "x"))


def ordering(acc):
    for n in (1, 2, 3, 10, 11, 10**17, 10**17 + 1, 10**400, 10**400 + 1):
        odd = n % 2 == 1
        for t, w in (("(-inf)**Rat(%d)", -INF if odd else INF), ("inf**Rat(%d)", INF), ("(-inf)**Rat(-%d)", 0.0), ("inf**Rat(-%d)", 0.0), ("(-inf)/Rat(%d)", -INF), ("inf - Rat(%d)", INF), ("Rat(-%d)*inf", -INF), ("(-inf)*Rat(-1, %d)", INF)):
            judge(acc, t % n, w, True)
    big = {"Rat(10**400)": 1e300, "Rat(-10**400)": -1e300, "Rat(1, 10**400)": 1e-300, "Rat(-1, 10**400)": -1e-300, "Rat(10**400 + 1, 10**400)": 1 + 2.3e-16, "Rat(10**400 - 1, 10**400)": 1 - 1.2e-16}
    for (t, v), (u, w), (o, f) in itertools.product(big.items(), (("inf", INF), ("(-inf)", -INF)), BIN.items()):
        judge(acc, o % (t, u), f(v, w), True)
        judge(acc, o % (u, t), f(w, v), True)
    L = [("inf", INF), ("-inf", -INF), ("-(-inf)", INF), ("2*inf", INF), ("-inf - 1", -INF), ("abs(-inf)", INF)] + [(t, v) for t, v in ATOM.items() if t[0] in "RF" and t[1] != "(" and "10**" not in t] + [("Rat(10**400)", 10**400), ("Rat(-10**400)", -(10**400)), ("Float(1e300)", 1e300)]
    for (t, v), (u, w) in itertools.product(L, L):
        for op, f in (("<", lambda p, q: p < q), ("<=", lambda p, q: p <= q), (">", lambda p, q: p > q), (">=", lambda p, q: p >= q), ("==", lambda p, q: p == q), ("!=", lambda p, q: p != q)):
            k = "(%s) %s (%s)" % (t, op, u)
            acc.transitions += 1
            acc.state(fp.h64(k))
            try:
                got = eval(k, NS)
            except Exception as ex:
                acc.violation(k, "raised %r" % ex, "from mc.ops import *\nprint(%s)\n" % k)
                continue
            if got is not f(v, w):
                acc.violation(k, "is %r" % (got,), "from mc.ops import *\nprint(%s)\n" % k)
            else:
                acc.validated += 1


# ---- improper integrals

def tail(ex, sign, start):
    """the integral from start to sign*inf: ('conv', value, error), ('div', sign) or None when unclear"""
    env = integ.env_for(ex)

    def f(t):
        env["x"] = (t, 1e-15 * abs(t))
        return V.ev(ex, env)

    def g(s):
        w = math.exp(s)
        v = f(start + sign * (w - 1))
        return None if v is None else (v[0] * w, min(v[1] * w, 1e300))

    def bad(v):
        return v is None or v[0] != v[0] or abs(v[0]) == INF or not v[1] < 1e299

    last = [g(s) for s in (20.0, 22.0, 24.0, 26.0, 28.0, 30.0)]
    if any(bad(v) for v in last):
        # grows too fast to be followed that far?
        for win in ((3.0, 3.5, 4.0, 4.5, 5.0, 5.5), (1.5, 1.7, 1.9, 2.1, 2.3, 2.5)):
            last = [g(s) for s in win]
            if any(bad(v) for v in last):
                continue
            lows = [abs(v[0]) - v[1] for v in last]
            if lows[0] > 1 and all(q > 2 * p for p, q in zip(lows, lows[1:])) and len({v[0] > 0 for v in last}) == 1:
                return ("div", 1 if last[0][0] > 0 else -1)
        return None
    mags = [abs(v[0]) + v[1] for v in last]
    lows = [abs(v[0]) - v[1] for v in last]
    if all(q >= 0.97 * p and q > 1e-8 for p, q in zip(lows, lows[1:])) and len({v[0] > 0 for v in last}) == 1:
        return ("div", 1 if last[0][0] > 0 else -1)
    if not all(q <= 0.75 * p + 1e-200 for p, q in zip(mags, mags[1:])):
        return None
    # a slow but sure decay: integrate far out, the rest is below mags[-1] times the geometric sum
    out = err = 0.0
    for k in range(30):
        r = quad.integral(g, float(k), k + 1.0, 7)
        if r is None:
            return None
        out += r[0]
        err += r[1]
    ratio = max(mags[-1], 1e-200) / max(mags[-2], 1e-200)
    rest = mags[-1] * 2 / (1 - min(ratio, 0.9))
    if ratio > 0.4 and not all(p > 0 and abs(q / p - ratio) < 0.01 for p, q in zip(mags, mags[1:])):
        return None
    if ratio > 1e-3:
        # algebraic decay: extrapolate the tail c*e^(-q s)
        q = -math.log(ratio) / 2
        rest_est = last[-1][0] / q
        out += rest_est
        rest = abs(rest_est) * 1e-3
    return ("conv", out, err + rest + 1e-9 * (1 + abs(out)))


def improper(ex, a, b):
    """bounds are numbers or +-INF, a < b"""
    parts = []
    if a == -INF and b == INF:
        parts = [tail(ex, -1, 0.0), tail(ex, 1, 0.0)]
    elif b == INF:
        parts = [tail(ex, 1, a)]
    else:
        parts = [tail(ex, -1, b)]
    if any(p is None for p in parts):
        return None
    if any(p[0] == "div" for p in parts):
        s = {p[1] for p in parts if p[0] == "div"}
        return ("div", s.pop() if len(s) == 1 else 0)
    return ("conv", sum(p[1] for p in parts), sum(p[2] for p in parts))


BOUND = {"Rat(0)": 0.0, "Rat(1)": 1.0, "Rat(2)": 2.0, "F(1, 2)": 0.5, "pi": math.pi, "e": math.e, "Rat(4)": 4.0, "Rat(-1)": -1.0, "Rat(-3)": -3.0, "inf": INF, "-inf": -INF}
PAIRS = [(a, "inf") for a in ("Rat(0)", "Rat(1)", "Rat(2)", "F(1, 2)", "pi", "e", "Rat(4)", "Rat(-1)")] + [("-inf", b) for b in ("Rat(-1)", "Rat(0)", "Rat(-3)", "Rat(2)")] + [("-inf", "inf")]
QUICK = [("Rat(1)", "inf"), ("Rat(0)", "inf"), ("Rat(2)", "inf"), ("-inf", "Rat(-1)"), ("-inf", "Rat(0)"), ("-inf", "inf")]
# no limit at infinity whatever the numbers say
WAVES = ["sin(x)", "cos(x)", "sin(2*x)", "cos(x/2)", "cos(pi*x)", "sin(3*x - 1)", "x*sin(x)", "x*cos(x)", "sin(x)*cos(x)", "sin(x) + cos(x)", "sin(x)**3", "sin(x)*cos(2*x)", "cos(x)**3", "e**x*sin(x)", "x**2*cos(x)", "y*sin(x)", "pi*cos(x)", "sin(x) + e**(-x**2)*x"]


def integrands(tier):
    out = []
    for c in ("1", "-3", "F(1, 2)", "pi", "y", "-sqrt(2)"):
        out += ["(%s)*x**F(%d, %d)" % (c, p, q) for p, q in ((0, 1), (1, 1), (2, 1), (3, 1), (-1, 1), (-2, 1), (-3, 1), (-4, 1), (-1, 2), (1, 2), (-3, 2), (-5, 2), (1, 3), (-1, 3), (-4, 3), (-5, 3))]
    for k in ("1", "-1", "2", "-3", "F(1, 2)", "pi", "-e", "y", "-y"):
        out += ["%s**((%s)*x)" % (b, k) for b in ("e", "2", "F(1, 2)") if b != "F(1, 2)" or k[0] not in "F"]
        out += ["x*e**((%s)*x**2)" % k, "x**2*e**((%s)*x**3)" % k, "e**((%s)*x)*sin(x)" % k, "e**((%s)*x)*cos(2*x)" % k, "x*e**((%s)*x)" % k]
    out += ["x**pi", "x**(-pi)", "x**(-e)", "(x + 1)**(-pi)", "pi/x - 2*pi/(2*x + 1)", "x**pi - (x + 1)**pi", "(x + pi)**-1 - 2/(2*x + pi)", "1/(x + e)", "y/x - y/(x + 1)"]
    out += ["1/(x + %d)" % a for a in (1, 2, 5)] + ["1/(%d*x + %d)" % (a, b) for a in (2, 3) for b in (1, 5)] + ["1/(x + %d)**%d" % (a, n) for a in (1, 2) for n in (2, 3)]
    out += ["1/x - 1/(x + 1)", "1/x - 2/(2*x + 1)", "2/(2*x + 1) - 3/(3*x + 1)", "1/x + 1/(x + 1)", "1/x - 2/(x + 1)", "1/x - 1/(x + 1) + e**(-x)", "x - x**2", "x - 1/x", "x**2 - x**3 + x", "sqrt(x) - 1/sqrt(x)"]
    out += ["1/((x + %d)*(x + %d))" % (a, b) for a, b in itertools.combinations((1, 2, 3, 5), 2)] + ["x/((x + %d)*(x + %d))" % (a, b) for a, b in ((1, 2), (1, 3))]
    out += ["1/(x**2 + 1)", "1/(4*x**2 + 1)", "3/(2*x**2 + 1)", "1/(x**2 + 2*x + 2)", "1/(x**2 - 4*x + 5)", "x/(x**2 + 1)", "x/(x**2 + 4)", "x/(x**2 + 1)**2", "x/sqrt(x**2 + 1)", "x**3/(x**4 + 1)", "x/(x**4 + 1)", "x**2/(x**3 + 5)**2", "(x + 1)/(x**2 + 1)", "(x**2 + 2)/(x**2 + 1)", "y/(x**2 + 1)", "pi*x/(x**2 + 1)"]
    out += ["atan(x)", "atan(x)/(1 + x**2)", "1/(1 + x**2) + 1/x**2", "log(x)", "log(x)/x", "log(x)/x**2", "log(x)/x**3", "e**(-x) + 1/x**2", "e**(-x) - 1/x", "e**(-x) - e**(-2*x)", "e**x - e**(-x)", "e**x + e**(-x)", "e**(1/x)/x**2", "sin(1/x)/x**2", "cos(1/x)/x**2", "e**(-sqrt(x))/sqrt(x)", "1/(sqrt(x)*(x + 1))", "1/(x*log(x)**2)", "e**x/(1 + e**x)", "e**(-x)/(1 + e**(-x))", "e**(-x)/(1 + e**(-x))**2", "sec(x)**2", "abs(x)", "tan(x)", "1", "0", "pi", "y", "x**y"]
    if tier != "quick":
        out += intspace.ATOMS + intspace.MORE + intspace.families()
    return list(dict.fromkeys(out))


REPLAY = """from mc import env; env.install()
from mc import integ
from mc.checks import c26
from mc.ops import *
r = integ.search(%(t)s, (x, %(a)s, %(b)s), cap=%(cap)d)
print("answer:", r.answer, r.error, "value:", r.answer is not None and c26.evx(c26.plain(r.answer)))
"""


def plain(ans):
    """the answer with numbers for its parameters"""
    env = integ.env_for(ans)
    return ans.subs({k: Float(float(v[0])) for k, v in env.items() if k in integ.fsyms(ans)}) if integ.fsyms(ans) else ans


def integral(acc, t, pairs, cap, wave=False):
    ex = c09.build(t) if t not in ("0", "1") else Rat(int(t))
    if ex is None:
        return
    for a, b in pairs:
        va, vb = BOUND[a], BOUND[b]
        flip = va > vb
        if re.search(r"F\(-?[15], 3\)", t) and min(va, vb) < 0:
            continue  # an even power of an odd root of a negative number: the project has a sign convention of its own
        if wave:
            want = ("div", 0)
        else:
            want = improper(ex, min(va, vb), max(va, vb))
        key = "integrate(%s, (x, %s, %s))" % (t, a, b)
        rep = REPLAY % {"t": t if t not in ("0", "1") else "Rat(%s)" % t, "a": a, "b": b, "cap": cap}
        A, B = eval("Rat(0) + (%s)" % a, NS), eval("Rat(0) + (%s)" % b, NS)
        r = integ.search(ex, (x, A, B), cap=cap, cpu=60)
        acc.transitions += 1
        acc.state(fp.h64(key))
        if r.error is not None:
            if isinstance(r.error, harness.CpuTimeout):
                acc.note("slow")
                return
            acc.violation(key, "raised %r" % (r.error,), rep)
            continue
        if r.answer is None:
            acc.note("not solved")
            return
        if want is None:
            acc.note("convergence unclear")
            continue
        try:
            v = evx(plain(r.answer))
        except Exception as e_:
            acc.violation(key, "the answer %r cannot be evaluated: %r" % (r.answer, e_), rep)
            continue
        if v is None or v == IND:
            acc.note("no value given")
            continue
        if want[0] == "div" and re.search(r"\*\*\(\(?-?y|\*\*y", t):
            acc.note("depends on the parameter's sign")
            continue
        if want[0] == "div":
            if abs(v) != INF:
                acc.violation(key, "diverges, but the answer %r is the number %r" % (r.answer, v), rep)
            elif not wave and want[1] and (v > 0) != ((want[1] > 0) != flip):
                acc.violation(key, "diverges to %s, but the answer is %r" % ("-inf" if (want[1] > 0) == flip else "inf", r.answer), rep)
            elif not wave and not want[1] or wave:
                acc.violation(key, "has no limit, but the answer is %r" % (r.answer,), rep)
            else:
                acc.validated += 1
            continue
        w = -want[1] if flip else want[1]
        if abs(v) == INF or abs(v - w) > want[2] + 1e-8 * (1 + abs(w)):
            acc.violation(key, "the answer %r has the value %r, the integral is %r" % (r.answer, v, w), rep)
        else:
            acc.validated += 1
            acc.note("convergent, right value")
    acc.sample("improper integrals of %s" % t)


def tasks(tier):
    quick = tier == "quick"
    L = integrands(tier)
    pairs = QUICK if quick else PAIRS
    pairs = pairs + [(b, a) for a, b in pairs[:: 3 if quick else 1]]
    out = [("arith", a, not quick) for a in ATOM] + [("order",)] + [("insert", u, not quick) for u in UN]
    out += [("waves", tuple(WAVES[i::6]), tuple(PAIRS[::2] if quick else PAIRS)) for i in range(6)]
    n = 64
    out += [("improper", tuple(L[i::n]), tuple(pairs)) for i in range(n)]
    return out


def run(task, acc):
    if task[0] == "arith":
        arithmetic(acc, task[1], task[2])
    elif task[0] == "insert":
        inserting(acc, task[1], task[2])
    elif task[0] == "order":
        ordering(acc)
    else:
        for t in task[1]:
            integral(acc, t, task[2], 20, task[0] == "waves")
