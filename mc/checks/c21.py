"""C21: equality is an equivalence that arithmetic respects.

All pairs of a few thousand expressions are compared in both directions; each expression is also built twice and compared
with its twin, alone and inside every operation; equality classes are compared with structure and value."""
from mc import fp, harness
from mc import ops as O
from mc import space
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C21"
LEVEL = "model_checking"
RULE = (
    "state = expression; transition = one comparison (ordered pair) or one operation on an expression and its twin; "
    "symmetry, reflexivity, agreement with structure for exact expressions, equal values of equal expressions, congruence"
)
ASSUMPTIONS = ["decimals equal to an exact number compare equal to it (both ways) but are not interchangeable with it in functions"]
NS = dict(O.__dict__)
EXTRA = [
    "Symbol('e')", "Symbol('pi')", "Symbol('X')", "Symbol('xx')", "Symbol('x1')", "z", "x + y + z", "x + z", "y + z", "x*y*z", "x*z", "x*y*z*2", "x*y + z", "x*y + x*z", "log(x, Rat(3))", "log(x, y)", "log(y, x)", "log(x + 1, Rat(2))",
    "sin(x) + cos(x)", "sin(x) + cos(x) + 1", "sin(x)*cos(x)", "sin(cos(x))", "cos(sin(x))", "sin(x)**2 + cos(x)**2", "x**y", "y**x", "x**(y + 1)", "x**(y*z)", "Rat(10**40)", "Rat(10**40 + 1)", "Rat(2**53)", "Rat(2**53 + 1)", "Rat(1, 3)", "Rat(2, 6)",
    "Rat(3)*x + 2", "Rat(2)*x + 3", "(x + 1)*(y + 1)", "x*y + x + y + 1", "sqrt(2)", "sqrt(3)", "sqrt(2)*x", "2**x", "3**x", "e**x", "Symbol('e')**x", "pi*x", "Symbol('pi')*x", "abs(x + y)", "abs(x - y)", "abs(x)*y", "x/(y + 1)", "1/(x*(y + 1))", "(x + 1)**2", "(x + 1)**3", "(y + 1)**2",
]
FLOATS = ["Float(2.0)", "Float(0.5)", "Float(3.141592653589793)", "Float(2.718281828459045)", "Float(1e300)", "Float(-0.5)", "x**2.0", "x + 0.5", "inf", "-inf", "Rat(2)", "Rat(1, 2)", "pi", "e", "x**2", "x + F(1, 2)", "Rat(0)", "Float(0.0)", "Infinity()", "NegInfinity()"]
# numbers that are close to each other without being equal
NEAR = ["Float(%r)" % v for v in (0.0, 5e-324, 1e-300, 1e-17, 1e-13, 1e-9, 2e-9, 0.1, 0.1 + 1e-16, 0.30000000000000004, 0.3, 1.0, 1.0 + 2**-52, 1.0 + 3e-13, 1.0 + 6e-13, 1.0 + 1e-9, 1.0 - 2**-53, 1 / 3, 1e15, 1e15 + 0.125, 2.0**53, 2.0**53 + 2, 1e16, 1e16 + 2, 1e16 + 400, 1e300, 1e300 * (1 + 2**-52), -1.0, -1.0 - 3e-13)]
NEAR += ["Rat(%d, %d)" % v for v in ((0, 1), (1, 10**9), (1, 10**13), (1, 10**17), (1, 10), (3, 10), (1, 3), (1, 1), (10**13 + 3, 10**13), (10**9 + 1, 10**9), (10**20 + 1, 10**20), (10**16, 1), (10**16 + 1, 1), (10**16 + 400, 1), (2**53, 1), (2**53 + 1, 1), (2**53 + 2, 1), (10**300, 1), (-1, 1), (10**300 + 1, 10**300))]
NEAR += ["Rat(%d, %d)" % v.as_integer_ratio() for v in (0.1, 0.3, 1 / 3, 1e-9)]
NEARPY = [0, 1, 0.1, 0.3, 0.1 + 0.2, 1.0, 1.0 + 3e-13, F(1, 10), F(3, 10), F(1, 3), 1 / 3, 2**53, 2**53 + 1, 10**16, 1e16, 10**16 + 400]
WRAPS = ["(%s)*x", "x + (%s)", "x**(%s)", "sin((%s)*x)"]
PY = [0, 1, -1, 2, 3, F(1, 2), F(-2, 3), 0.5, 2.0, 10**40]
UN = ["-(%s)", "abs(%s)", "sqrt(%s)", "1/(%s)", "(%s)**2", "e**(%s)", "log(%s)", "sin(%s)", "cos(%s)", "tan(%s)", "asin(%s)", "atan(%s)", "log(%s, Rat(2))", "sec(%s)"]
CACHE = {}


def exact(ex):
    return ex.__class__.__name__ != "Float" and all(exact(c) for c in ex.children())


def huge(ex):
    """2**(10**40) is not to be computed"""
    return ex.__class__.__name__ == "Rat" and abs(ex.value) > 10**6 or any(huge(c) for c in ex.children())


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return space.stages(0, carry)
    if stage == 1:
        seen = {}
        for out in carry:
            for h, t in out:
                seen.setdefault(h, t)
        l1 = space.layer1()
        for h in l1:
            seen.pop(h, None)
        rest = sorted(seen.values(), key=lambda t: (len(t), t))
        n = 2600 if tier == "quick" else 12000
        step = max(1, len(rest) // n)
        L = EXTRA + sorted(l1.values(), key=lambda t: (len(t), t)) + rest[::step][:n]
        m = 96
        CACHE["list"] = L
        return [("rows", i, m) for i in range(m)] + [("twin", i, m) for i in range(m)] + [("floats",), ("python",), ("near", "%s")] + [("near", w) for w in WRAPS]
    return None


def objs():
    if "objs" not in CACHE:
        CACHE["objs"] = [eval(t, NS) for t in CACHE["list"]]
        CACHE["ckey"] = [fp.ckey(o) for o in CACHE["objs"]]
    return CACHE["objs"], CACHE["ckey"], CACHE["list"]


def eq(acc, ka, a, kb, b):
    """a == b as a bool; None after reporting a crash"""
    acc.transitions += 1
    try:
        r = a == b
        n = a != b
    except Exception as ex:
        acc.violation("%s == %s" % (ka, kb), "raised %r" % ex, rep("%s == %s" % (ka, kb)))
        return None
    if (r is not True and r is not False) or n is not (not r):
        acc.violation("%s == %s" % (ka, kb), "== is %r and != is %r" % (r, n), rep("%s == %s" % (ka, kb)))
        return None
    return r


def rep(key):
    return "from mc.ops import *\nprint(%s)\n" % key


def pair(acc, ka, a, ca, kb, b, cb):
    ab = eq(acc, ka, a, kb, b)
    ba = eq(acc, kb, b, ka, a)
    if ab is None or ba is None:
        return
    key = "%s == %s" % (ka, kb)
    if ab is not ba:
        acc.violation(key, "is %r, the other way round it is %r" % (ab, ba), rep("%s, %s == %s" % (key, kb, ka)))
    elif ab and ca != cb and exact(a) and exact(b):
        acc.violation(key, "holds, but the expressions differ: %s and %s" % (ca, cb), rep(key))
    elif not ab and ca == cb:
        acc.violation(key, "fails for the same expression", rep(key))
    else:
        acc.validated += 1


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    if task[0] == "rows":
        ex, ck, names = objs()
        for i in range(task[1], len(ex), task[2]):
            acc.state(fp.h64(ck[i]))
            for j in range(i, len(ex)):
                pair(acc, names[i], ex[i], ck[i], names[j], ex[j], ck[j])
        acc.sample("%s compared with every other expression" % names[task[1]])
    elif task[0] == "twin":
        ex, ck, names = objs()
        for i in range(task[1], len(ex), task[2]):
            a, t = ex[i], names[i]
            try:
                b = eval(t, NS)
            except Exception:
                continue
            pair(acc, t, a, ck[i], t, b, fp.ckey(b))
            # the twin built from rebuilt parts and in other orders
            for u in UN:
                both(acc, u % t, lambda o: UNARY[u][0](o) if u in UNARY else eval(u % "o_", dict(NS, o_=o)), a, b)
            for o in ("x + 1", "y", "Rat(-2, 3)", "sin(x)"):
                other = eval(o, NS)
                for tmpl, (f, _) in BINARY.items():
                    if "**" in tmpl and huge(a):
                        continue
                    both(acc, tmpl % (t, o), lambda q: f(q, other), a, b)
                    both(acc, tmpl % (o, t), lambda q: f(other, q), a, b)
    elif task[0] == "floats":
        L = FLOATS + EXTRA[:6]
        for t in L:
            a = eval(t, NS)
            acc.state(fp.h64(fp.key(a)))
            for u in L:
                b = eval(u, NS)
                ab = eq(acc, t, a, u, b)
                ba = eq(acc, u, b, t, a)
                key = "%s == %s" % (t, u)
                if ab is None or ba is None:
                    continue
                if ab is not ba:
                    acc.violation(key, "is %r, the other way round it is %r" % (ab, ba), rep("%s, %s == %s" % (key, u, t)))
                    continue
                if ab and t != u:
                    va, vb = O.values(a), O.values(b)
                    if any(V.cmp(p, q) == V.DIFF or (p is None) != (q is None) for p, q in zip(va, vb)):
                        acc.violation(key, "holds, but the values differ", rep(key))
                if ab:
                    for v in L:
                        c = eval(v, NS)
                        if eq(acc, u, b, v, c) and not eq(acc, t, a, v, c):
                            acc.violation("%s == %s == %s" % (t, u, v), "is not transitive", rep("%s, %s == %s, %s == %s" % (key, u, v, t, v)))
                acc.validated += 1
    elif task[0] == "near":
        near(acc, task[1])
    else:
        for t in EXTRA + ["Rat(%d)" % n for n in (0, 1, -1, 2, 3)] + ["Rat(1, 2)", "Rat(-2, 3)", "Float(0.5)", "Float(2.0)", "pi", "e", "x", "inf"]:
            a = eval(t, NS)
            for v in PY:
                ab = eq(acc, t, a, repr(v), v)
                ba = eq(acc, repr(v), v, t, a)
                want = a.__class__.__name__ in ("Rat", "Float") and a.value == v
                if ab is not None and ba is not None and (ab is not ba or ab is not want):
                    acc.violation("%s == %r" % (t, v), "is %r, the other way round %r" % (ab, ba), rep("%s == %r" % (t, v)))
                else:
                    acc.validated += 1


def near(acc, wrap):
    """numbers are equal exactly when their exact values are, alone and inside expressions; so equality is transitive"""
    L = [(wrap % t, eval(t, NS)) for t in NEAR]
    L = [(t, n, n if wrap == "%s" else eval(t, NS)) for t, n in L]
    for t, m, a in L:
        acc.state(fp.h64("near " + t))
        for u, n, b in L:
            r = eq(acc, t, a, u, b)
            if r is None:
                continue
            want = F(m.value) == F(n.value)
            if r is not want:
                if want and wrap != "%s" and m.__class__ is not n.__class__:
                    continue  # a decimal and an exact number inside an expression: see ASSUMPTIONS
                if not want and wrap == "x**(%s)" and F(m.value) in (0, 1) and F(n.value) in (0, 1):
                    continue
                acc.violation("%s == %s" % (t, u), "is %r for %s numbers" % (r, "equal" if want else "different"), rep("%s == %s" % (t, u)))
            else:
                acc.validated += 1
        if wrap != "%s":
            continue
        for v in NEARPY:
            for r in (eq(acc, t, a, repr(v), v), eq(acc, repr(v), v, t, a)):
                if r is not None and r is not (F(m.value) == F(v)):
                    acc.violation("%s == %r" % (t, v), "is %r" % r, rep("%s == %r, %r == %s" % (t, v, v, t)))
                elif r is not None:
                    acc.validated += 1


def both(acc, key, f, a, b):
    try:
        with harness.limit(10):
            p = f(a)
    except Exception:
        p = None
    try:
        with harness.limit(10):
            q = f(b)
    except Exception:
        q = None
    if (p is None) != (q is None):
        acc.violation(key, "works for one of two equal operands only", rep(key))
        return
    if p is None:
        return
    r = eq(acc, key, p, key, q)
    if r is False:
        if O.has_inf(p) and p != p:
            return
        acc.violation(key, "is %r and %r for two equal operands, which are not equal" % (p, q), rep(key))
    elif r:
        acc.validated += 1
