"""C31: what symbols are called makes no difference.

Every expression program is run with its symbols under other names, one-to-one: what is built, and what every operation
makes of it, must be what it is under the old names with the names exchanged, up to the order of terms. Searches for
integrals included: what is solved under one name is solved under all."""
import itertools

from mc import fp, harness, integ, intspace, space
from mc import ops as O
from mc.ops import *  # noqa: F401,F403
from simpy import regex
from simpy.polynomial import is_polynomial, to_const_polynomial
from simpy.simplify import expand_logs, pythagorean_simplification, simplify, trig_simplify
from simpy.simplify.product_to_sum import product_to_sum
from simpy.simplify.simplify import rewrite_as_one_fraction
from simpy.utils import eq_with_var

ID = "C31"
LEVEL = "model_checking"
RULE = "state = one expression program under one set of names; transition = one operation under these names, compared with the same under the names x, y, z"
ASSUMPTIONS = ["the order in which terms are written depends on names and is not compared", "searches that ran into the time limit are not compared"]
REPLAY = """from mc.ops import *
from mc.checks.c31 import *
for names in (%r, %r):
    print(names, show(apply(%r, %r, names)))
"""
FIRST = ("x", "y", "z")
NAMES = [("y", "x", "z"), ("b", "a", "c"), ("xx", "x", "xxx"), ("theta", "x2", "x_1"), ("u", "v", "w"), ("n", "s", "i"), ("z", "y", "x"), ("S", "D", "I"), ("y", "z", "x"), ("a", "aa", "b"), ("X", "x", "Y"), ("in", "o", "g"), ("T", "time", "t"), ("x", "X", "y"), ("x", "y", "X")]
FEW = [0, 2, 3, 4]



def space_of(names):
    ns = dict(space.NS)
    ns.update(zip(FIRST, map(Symbol, names)))
    return ns


def matched(r):
    return (bool(r.success), dict(r.matches or {})) if hasattr(r, "matches") else r


def same_up_to(e, X_):
    other = Symbol("q_7")
    f = e.subs({X_.name: other})
    return [bool(eq_with_var((e, X_), (f, other))), bool(eq_with_var((e, X_), (f + 1, other))), bool(eq_with_var((f, other), (e, X_)))]


OPS = {
    "build": lambda e, X_, Y_, Z_: e,
    "expand": lambda e, X_, Y_, Z_: e.expand() if e.expandable() else e,
    "diff x": lambda e, X_, Y_, Z_: e.diff(X_),
    "diff y": lambda e, X_, Y_, Z_: e.diff(Y_),
    "simplify": lambda e, X_, Y_, Z_: simplify(e),
    "logs": lambda e, X_, Y_, Z_: expand_logs(e),
    "trig": lambda e, X_, Y_, Z_: trig_simplify(e) if e.has(TrigFunction) else None,
    "pythagorean": lambda e, X_, Y_, Z_: pythagorean_simplification(e) if e.has(TrigFunction) else None,
    "sum": lambda e, X_, Y_, Z_: product_to_sum(e) if e.has(TrigFunction) else None,
    "factor": lambda e, X_, Y_, Z_: e.factor() if isinstance(e, Sum) else None,
    "fraction": lambda e, X_, Y_, Z_: rewrite_as_one_fraction(e) if isinstance(e, Sum) else None,
    "subs": lambda e, X_, Y_, Z_: e.subs({X_.name: Y_ + 1, Y_.name: 2 * X_}),
    "put in": lambda e, X_, Y_, Z_: [e.subs({v.name: Rat(5, 3)}) for v in (X_, Y_, Z_)],
    "swap": lambda e, X_, Y_, Z_: e.subs({X_.name: Y_, Y_.name: X_}),
    "value": lambda e, X_, Y_, Z_: e.subs({X_.name: Rat(2, 3), Y_.name: Rat(3), Z_.name: Rat(1, 2)}),
    "count": lambda e, X_, Y_, Z_: [regex.count(e, X_), regex.count(e, Y_), regex.count(e, X_ + Y_), regex.count(e, X_**2)],
    "replace": lambda e, X_, Y_, Z_: [regex.replace(e, X_, Y_**2), regex.replace(e, Y_, sin(X_)), regex.replace(e, X_ * Y_, Z_)],
    "symbols": lambda e, X_, Y_, Z_: {s.name for s in e.symbols()},
    "contains": lambda e, X_, Y_, Z_: [bool(e.contains(v)) for v in (X_, Y_, Z_)],
    "nesting": lambda e, X_, Y_, Z_: [nesting(e), nesting(e, X_), nesting(e, Y_)],
    "constant factor": lambda e, X_, Y_, Z_: list(remove_const_factor(e, include_factor=True)),
    "polynomial": lambda e, X_, Y_, Z_: [list(to_const_polynomial(e, v)) if is_polynomial(e, v) else None for v in (X_, Y_)],
    "up to the variable": lambda e, X_, Y_, Z_: same_up_to(e, X_),
    "integral": lambda e, X_, Y_, Z_: integral(e, X_),
    "area": lambda e, X_, Y_, Z_: integral(e, (X_, Rat(1), Rat(2))),
    "area to a symbol": lambda e, X_, Y_, Z_: integral(e, (X_, Rat(1, 2), Z_)),
}
SEARCHES = ["integral", "area", "area to a symbol"]
QUICK_OPS = [o for o in OPS if o not in SEARCHES]


class Unknown(Exception):
    pass


def integral(e, how):
    r = integ.search(e, how)
    if r.struck or isinstance(r.error, harness.CpuTimeout):
        raise Unknown()
    if r.error is not None:
        raise r.error
    return r.answer


def rk(r, names):
    """canonical form with the names exchanged for their places"""
    if isinstance(r, Expr):
        n = type(r).__name__
        if n == "Symbol":
            return "s:%s" % (names.index(r.name) if r.name in names else r.name)
        if n in ("Sum", "Prod"):
            return n[0] + "(" + ",".join(sorted(rk(t, names) for t in r.terms)) + ")"
        if n == "Power":
            return "^(" + rk(r.base, names) + "," + rk(r.exponent, names) + ")"
        if n == "log":
            return "log(" + rk(r.inner, names) + "," + rk(r.base, names) + ")"
        if r.children():
            return n + "(" + ",".join(rk(c, names) for c in r.children()) + ")"
        return fp.key(r)
    if isinstance(r, (list, tuple)):
        return "[" + ",".join(rk(q, names) for q in r) + "]"
    if isinstance(r, (set, frozenset)):
        return "{" + ",".join(sorted("s:%s" % (names.index(q) if q in names else q) for q in r)) + "}"
    if isinstance(r, dict):
        return "{" + ",".join(sorted(str(k) + ":" + rk(q, names) for k, q in r.items())) + "}"
    return repr(r)


def apply(t, op, names):
    """(canonical form, result)"""
    try:
        with harness.limit(20):
            e = eval(t, space_of(names))
    except Exception as err:
        return "refused", err
    if not isinstance(e, Expr) or O.has_inf(e):
        return "refused", e
    try:
        if op in SEARCHES:
            r = OPS[op](e, *map(Symbol, names))
        else:
            with harness.limit(20):
                r = OPS[op](e, *map(Symbol, names))
    except (Unknown, harness.CpuTimeout):
        return None, "out of time"
    except Exception as err:
        return "raised " + type(err).__name__, err
    return rk(r, names), r


def show(kr):
    try:
        return repr(kr[1])[:200]
    except Exception as err:
        return "something that cannot be shown (%s)" % type(err).__name__


def judge(acc, t, ops, sets):
    for op in ops:
        a = apply(t, op, FIRST)
        if a[0] is None:
            acc.skipped += 1
            continue
        acc.state(fp.h64(t + op))
        if a[0] == "refused":
            if op != "build":
                return
        if a[1] is None and op not in SEARCHES:
            continue
        for names in sets:
            acc.transitions += 1
            acc.state(fp.h64(t + op + repr(names)))
            b = apply(t, op, names)
            if b[0] is None:
                acc.skipped += 1
            elif a[0] != b[0]:
                acc.violation("%s of %s" % (op, t), "with %s: %s; with %s: %s" % (" ".join(FIRST), show(a), " ".join(names), show(b)), REPLAY % (FIRST, names, t, op))
                break
            else:
                acc.validated += 1


PARAM = [
    "x*y", "sin(x*y)", "e**(x*y)", "x**y", "1/(x**2 + y**2)", "1/(x + y)", "x*e**(y*x)", "log(x*y)", "1/(y**2 - x**2)", "sin(y)*cos(x)", "sqrt(x + y)", "y*sin(x) + x*cos(y)", "1/sqrt(y**2 - x**2)", "(x + y)**2*x",
    "x**2*y**3", "1/(x*(x + y))", "cos(y*x + 1)", "e**y*x", "y/x + x/y", "log(x + y)", "x**2*sin(y*x)", "atan(x*y)", "1/(1 + y*x)", "tan(y*x)", "sin(x)**2*y", "sec(x*y)**2", "2**x*y", "(x + y)*(x - y)", "sin(x + y)*cos(x - y)",
    "e**x*sin(y*x)", "x*y*z", "x**2 + y*x + z", "z*sin(y*x)", "1/(x + y + z)", "sqrt(x*z)/y", "(x + y)*(x + z)", "x/(y + z)", "e**(x + y + z)", "log(x)*y + z", "cos(z)*sin(x)", "y**x*z", "x*log(z*x)", "1/((x + 1)*(y + 1))", "z/(y*x**2)", "asin(x/y)", "abs(x)*y",
]


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return space.stages(0, carry)
    if stage > 1:
        return None
    quick = tier == "quick"
    few = [NAMES[i] for i in FEW] if quick else NAMES
    tasks = []
    for i, t in enumerate(space.stages(1, carry, thin=16 if quick else 2)):
        tasks.append(("chk", t[1], QUICK_OPS, few[i % len(few) :: len(few)] if quick else few))
    l1 = sorted(set(space.layer1().values()) | set(PARAM), key=lambda t: (len(t), t))
    meet = list(space.meeting())[:: 8 if quick else 1]
    n = 64
    tasks += [("chk", l1[i::n], QUICK_OPS, NAMES) for i in range(n)]
    tasks += [("chk", meet[i::n], QUICK_OPS, few) for i in range(n)]
    ints = intspace.integrands(tier)
    if quick:
        ints = ints[::5]
    # an infinite bound or a parameter: the names of both matter
    tasks += [("chk", [t], SEARCHES, NAMES) for t in PARAM]
    tasks += [("chk", ints[i::96], SEARCHES[:1], few[:2] if quick else few) for i in range(96)]
    return tasks


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    for t in task[1]:
        judge(acc, t, task[2], task[3])
    acc.sample("%s under %d sets of names" % (task[1][-1] if task[1] else "-", len(task[3]) + 1))
