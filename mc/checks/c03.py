"""C03: expressions never change, and answers do not depend on what was asked before.

Explicit-state exploration of operation histories on shared objects: every sequence of two (three) operations on an
expression, a part of it, an expression containing it and the previous result. After every step all live expressions
are compared with their fingerprint, and each answer with the one given in a newly forked process that did nothing else."""
import os
import pickle

from simpy import latex
from simpy.polynomial import to_const_polynomial
from simpy.regex import Any_, any_, count, eq, replace, replace_class
from simpy.simplify import expand_logs, pythagorean_simplification, simplify
from simpy.simplify.product_to_sum import product_to_sum
from simpy.utils import count_symbols, eq_with_var

import simpy.expr as X
from mc import env as W
from mc import fp, harness, integ
from mc import ops as O
from mc.ops import *  # noqa: F401,F403

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "state = the live expressions of a history (an expression, its parts, expressions sharing it, previous results); transition = one public operation "
    "on one of them; after each, every live expression must have its fingerprint and the answer must equal the one from a fresh process"
)
ASSUMPTIONS = ["one answer per operation and expression: the fresh process has the same clock and identifiers"]
NS = dict(O.__dict__)
w = Symbol("w")
POOL = [
    "(x + 1)**2*(x - y)", "sin(x)**2 + cos(x)**2 + y", "x**2 + 3*x + 2*x*y", "2*sin(x)*cos(y)*x", "e**(x + y)*x/2", "log(x*y**2) + log(x)", "(x**2 + x)/(x + 1)",
    "sqrt(x**2 + y) - 1/(x**2 + y)", "tan(x)*sec(x) + 1", "sin(x)*cos(x)*(x + y)**3", "6*x**2*y + 4*x*y + 2*y", "Symbol('e')**x + e**x", "Rat(3, 4)*pi + sqrt(2)*x",
    "abs(x - y)**3 + log(x, y)", "1 - sin(x)**2", "asin(x) + acos(y)*x", "Float(1.5)*x + x*y*pi", "(x + y)*(x - y)/(x*y)", "x**y + y**x + 2**x", "1 + tan(x + y)**2",
    "-x + sin(-x) - y", "Symbol('pi')*x + pi*x**2", "x", "Rat(5, 6)", "2*(x + 1)", "sqrt(x)*x**Rat(3, 2)*y", "x**2*sin(x) + 3*x**2", "cos(2*x) + cos(x)*x",
]


def ints(ex, lim):
    r = integ.search(ex, lim, cap=40, budget=None) if not isinstance(lim, tuple) else integ.search(ex, lim, cap=40, budget=None)
    if r.error is not None:
        raise r.error
    return r.answer


OPS = {
    "repr(E)": repr,
    "latex(E)": lambda E: E.latex(),
    "E.symbols()": lambda E: sorted(s.name for s in E.symbols()),
    "E.expandable()": lambda E: E.expandable(),
    "E.expand()": lambda E: E.expand(),
    "E.diff(x)": lambda E: E.diff(x),
    "E.diff(y)": lambda E: E.diff(y),
    "E.subs({'x': 2})": lambda E: E.subs({"x": Rat(2)}),
    "E.subs({'x': 3, 'y': w})": lambda E: E.subs({"x": Rat(3), "y": w}),
    "E.subs({'y': x + 1})": lambda E: E.subs({"y": x + 1}),
    "E.evalf({'x': 0.5, 'y': 2})": lambda E: E.evalf({"x": 0.5, "y": 2}),
    "E.evalf({'x': 1.5, 'y': 3})": lambda E: E.evalf({"x": 1.5, "y": 3}),
    "nesting(E)": lambda E: X.nesting(E),
    "nesting(E, x)": lambda E: X.nesting(E, x),
    "nesting(E, y)": lambda E: X.nesting(E, y),
    "simplify(E)": simplify,
    "expand_logs(E)": expand_logs,
    "pythagorean_simplification(E)": pythagorean_simplification,
    "product_to_sum(E)": product_to_sum,
    "E.factor()": lambda E: E.factor(),
    "E.numerator_denominator": lambda E: E.numerator_denominator,
    "E.contains(x), E.contains(w)": lambda E: (E.contains(x), E.contains(w)),
    "E.has(sin), E.has(Power)": lambda E: (E.has(X.sin), E.has(X.Power)),
    "count(E, x), count(E, 2)": lambda E: (count(E, x), count(E, Rat(2)), count_symbols(E)),
    "replace(E, x, w)": lambda E: replace(E, x, w),
    "replace(E, y, sin(x))": lambda E: replace(E, y, sin(x)),
    "replace_class(E, [tan, sec])": lambda E: replace_class(E, [X.tan, X.sec], [lambda t: sin(t) / cos(t), lambda t: 1 / cos(t)]),
    "remove_const_factor(E)": lambda E: X.remove_const_factor(E),
    "to_const_polynomial(E, x)": lambda E: list(to_const_polynomial(E, x)),
    "eq(E, sin(any_)**2 + cos(any_)**2, up_to_sum)": lambda E: matched(eq(E, sin(any_) ** 2 + cos(any_) ** 2, up_to_sum=True)),
    "eq(E, x*sin(any_), up_to_factor)": lambda E: matched(eq(E, sin(any_), up_to_factor=True)),
    "eq_with_var((E, x), (E with w, w))": lambda E: eq_with_var((E, x), (replace(E, x, w), w)),
    "E == x + 1, E == E": lambda E: (E == x + 1, E == E, E == Rat(5, 6), E != x),
    "E + x": lambda E: E + x,
    "x*E": lambda E: x * E,
    "E - E, E/E": lambda E: (E - E, E / E),
    "E**2": lambda E: E**2,
    "-E": lambda E: -E,
    "sqrt(E)": lambda E: sqrt(E),
    "sin(E)": lambda E: sin(E),
    "log(E)": lambda E: log(E),
    "abs(E)": lambda E: abs(E),
    "E + (x + 1)*2": lambda E: E + (x + 1) * 2,
    "hash-like: len, iter": lambda E: (len(E), [fp.key(t) for t in E]),
    "E.children()": lambda E: [fp.key(t) for t in E.children()],
    "is_subtraction": lambda E: (E.is_subtraction, E.is_int),
}
SLOW = {
    "integrate(E, x)": lambda E: ints(E, x),
    "integrate(E, (x, 1, 2))": lambda E: ints(E, (x, Rat(1), Rat(2))),
    "integrate(E, y)": lambda E: ints(E, y),
}
ALL = dict(OPS)
ALL.update(SLOW)
TARGETS = {
    "E": lambda E: E,
    "part of E": lambda E: max(E.children(), key=lambda p: len(fp.key(p))) if E.children() else E,
    "E + z": lambda E: E + z,
    "z*E": lambda E: z * E,
    "cos(E)": lambda E: cos(E),
}
BASE = {}


def matched(r):
    return (r["success"], norm(r.get("matches")), norm(r.get("factor")), norm(r.get("rest")))


def is_expr(r):
    return isinstance(r, X.Expr)


def norm(r):
    if is_expr(r):
        return fp.key(r)
    if isinstance(r, (list, tuple)):
        return [norm(a) for a in r]
    if isinstance(r, dict):
        return {k: norm(v) for k, v in r.items()}
    return repr(r)


def perform(op, ex):
    """(comparable answer, answer)"""
    try:
        with W.World():
            with harness.limit(30):
                r = ALL[op](ex)
    except harness.CpuTimeout:
        return "did not end", None
    except RecursionError:
        return "RecursionError", None
    except Exception as e:
        return "raised " + e.__class__.__name__, None
    return norm(r), r


def build(s):
    return eval(s, NS)


def pristine(fn):
    """fn() in a forked process that does nothing else"""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(fn())
            while data:
                data = data[os.write(wr, data) :]
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(buf)


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return [("base", i, t) for i in range(len(POOL)) for t in (TARGETS if tier != "quick" else ("E", "z*E" if i % 2 else "part of E"))]
    if stage == 1:
        for out in carry:
            BASE.update(dict(out))
        out = []
        for i in range(len(POOL)):
            for t in TARGETS if tier != "quick" else ("E", "z*E" if i % 2 else "part of E"):
                out.append(("two", i, t, tier))
            out.append(("prev", i, tier))
            out.append(("cross", i, tier))
        if tier != "quick":
            out += [("three", i, k) for i in range(len(POOL)) for k in range(8)]
        return out
    return None


def base(task, acc):
    _, i, t = task
    res = []
    for op in ALL:
        if op in SLOW and t != "E":
            continue

        def go():
            ex = TARGETS[t](build(POOL[i]))
            return fp.key(ex), perform(op, ex)[0]

        res.append(((i, t, op), pristine(go)))
        acc.transitions += 1
    acc.out = res


class Live:
    """the live expressions of one history and their fingerprints"""

    def __init__(self):
        self.l = []

    def add(self, name, ex):
        if is_expr(ex):
            self.l.append((name, ex, fp.key(ex)))
        elif isinstance(ex, (tuple, list)):
            for e in ex:
                self.add(name, e)

    def changed(self):
        for name, ex, k in self.l:
            if fp.key(ex) != k:
                return name, k, fp.key(ex)


def steps(acc, s, hist, live, history):
    """history: (op, object, baseline or None); runs them in order on live objects"""
    done = []
    r = None
    for tname, op, ex, want in history:
        done.append("%s of %s" % (op, tname))
        acc.transitions += 1
        got, r = perform(op, ex)
        key = "%s: %s" % (s, "; then ".join(done))
        replay = "from mc.checks.c03 import *\n# with E = %s, run in this order: %s\n" % (s, done)
        ch = live.changed()
        if ch:
            acc.violation(key, "%s was %s and is %s" % ch, replay)
            return None
        if want is not None and got != want:
            acc.violation(key, "the answer is %s, in a fresh process %s" % (str(got)[:300], str(want)[:300]), replay)
            return None
        live.add("the answer of step %d" % len(done), r)
        acc.validated += 1
    acc.state(fp.h64(s + repr(done)))
    return r


def run(task, acc):
    if task[0] == "base":
        return base(task, acc)
    i = task[1]
    s = POOL[i]
    if task[0] == "two":
        t1 = task[2]
        seconds = ["E"] if task[-1] == "quick" else list(TARGETS)
        for op1 in OPS if t1 != "E" else ALL:
            for t2 in seconds:
                for op2 in OPS:
                    # op1 on t1, op2 on t2: both contain, or are part of, the same object E
                    E = build(s)
                    live = Live()
                    obj = {t: TARGETS[t](E) for t in {t1, t2}}
                    live.add("E", E)
                    for n, o in obj.items():
                        live.add(n, o)
                    steps(acc, s, None, live, [(t1, op1, obj[t1], BASE[i, t1, op1][1]), (t2, op2, obj[t2], BASE[i, t2, op2][1])])
                    if op1 in SLOW and op2 not in ("repr(E)", "E.diff(x)", "E.expand()", "simplify(E)", "E.factor()"):
                        break
        acc.sample("%s: %d first operations on %s, %d second ones on each of %s" % (s, len(OPS), t1, len(OPS), seconds))
    elif task[0] == "prev":
        # the second operation on the answer of the first; the answer on a newly built copy of it is the reference
        for op1 in OPS:
            E = build(s)
            _, r0 = perform(op1, E)
            if not is_expr(r0):
                continue
            for op2 in OPS:
                E = build(s)
                live = Live()
                live.add("E", E)
                r = perform(op1, E)[1]
                live.add("its answer", r)
                copy = rebuilt(r)
                want = perform(op2, copy)[0] if copy is not None else None
                key = "%s: %s; then %s of the answer" % (s, op1, op2)
                acc.transitions += 2
                got, r2 = perform(op2, r)
                live.add("second answer", r2)
                # and the first again
                again = perform(op1, E)[0]
                ch = live.changed()
                if ch:
                    acc.violation(key, "%s was %s and is %s" % ch, "")
                elif want is not None and got != want:
                    acc.violation(key, "is %s, for a new copy of the answer %s" % (str(got)[:300], str(want)[:300]), "")
                elif again != BASE[i, "E", op1][1]:
                    acc.violation(key + "; then the first again", "is %s, before it was %s" % (again, BASE[i, "E", op1][1]), "")
                else:
                    acc.validated += 2
                    acc.state(fp.h64(key))
    elif task[0] == "cross":
        # the same and every other operation on other expressions before
        n = len(POOL)
        for d in range(0, n, 2 if task[-1] == "quick" else 1):
            j = (i + d) % n
            E, F = build(s), build(POOL[j])
            live = Live()
            live.add("E", E)
            live.add("F", F)
            for op in OPS:
                steps(acc, "E = %s, F = %s" % (s, POOL[j]), None, live, [("F", op, F, BASE[j, "E", op][1]), ("E", op, E, BASE[i, "E", op][1])])
            for nm, o in (("E + F", lambda: E + F), ("E*F", lambda: E * F), ("E/F", lambda: E / F), ("E == F", lambda: E == F), ("E - F", lambda: E - F)):
                try:
                    r1, r2 = norm(o()), norm(o())
                except Exception:
                    continue
                acc.transitions += 1
                fresh = pristine(lambda: norm(eval(nm, {"E": build(s), "F": build(POOL[j])}))) if task[-1] != "quick" or d % 8 == 0 else r1
                ch = live.changed()
                if ch or not r1 == r2 == fresh:
                    acc.violation("E = %s, F = %s, after all operations on both: %s" % (s, POOL[j], nm), "is %s, then %s, in a fresh process %s, changed: %s" % (r1, r2, fresh, ch), "")
                else:
                    acc.validated += 1
    elif task[0] == "three":
        k = task[2]
        names = list(OPS)
        for op1 in names[k::8]:
            for op2 in names:
                for op3 in names:
                    E = build(s)
                    C = z * E
                    live = Live()
                    live.add("E", E)
                    live.add("z*E", C)
                    steps(acc, s, None, live, [("E", op1, E, BASE[i, "E", op1][1]), ("z*E", op2, C, BASE[i, "z*E", op2][1]), ("E", op3, E, BASE[i, "E", op3][1])])


def rebuilt(ex):
    """a new copy from the constructors, if they keep the structure"""
    from mc.checks.c16 import ref_replace

    def leaf(e):
        n = e.__class__.__name__
        if n == "Symbol":
            return X.Symbol(e.name)
        if n == "Rat":
            return Rat(e.value.numerator, e.value.denominator)
        return e

    try:
        c = ref_replace(ex, lambda n: not n.children(), leaf)
    except Exception:
        return None
    return c if fp.key(c) == fp.key(ex) else None
