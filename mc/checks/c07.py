"""C07: simplification never changes the value of an expression.

The public simplifications are run on every expression of a bounded space aimed at their rewriting rules: all sums of
up to three terms over 30 trigonometric terms with coefficients, all products of trigonometric powers, logarithms of
products, powers, quotients and sums, those nested inside other functions, and everything reachable by two operations."""
import itertools

from mc import fp, harness
from mc import ops as O
from mc import space
from mc.ops import *  # noqa: F401,F403
from simpy.simplify import expand_logs, pythagorean_simplification, simplify, trig_simplify

ID = "C07"
LEVEL = "model_checking"
RULE = (
    "state = expression built from the alphabet of trigonometric terms, logarithms and operations; transition = one "
    "simplification run by the implementation, compared by value at 6 points with the expression it was given"
)
ASSUMPTIONS = [
    "equality of functions is judged at 6 fixed generic points, wherever both sides have a real value",
    "splitting a logarithm or root may lose the value where an argument is negative; it may not change it",
]
OPS = {
    "simplify": lambda ex: ex.simplify(),
    "expand_logs": expand_logs,
    "trig_simplify": lambda ex: trig_simplify(ex)[0],
    "pythagorean_simplification": pythagorean_simplification,
}
REPLAY = """from mc.ops import *
from simpy.simplify import *
ex = %(t)s
r = %(op)s(ex)
if isinstance(r, tuple): r = r[0]
print(ex, "->", r)
for p, env in zip(POINTS, ENVS):
    print(p, V.ev(ex, env), V.ev(r, env))
"""

T = [
    "sin(x)**2", "cos(x)**2", "tan(x)**2", "sec(x)**2", "csc(x)**2", "cot(x)**2", "Rat(1)", "x", "sin(x)", "sin(x)*cos(x)", "sec(x)*tan(x)",
    "sin(x)**3", "cos(x)**4", "sec(x)**4", "tan(x)**4", "1/sin(x)", "1/cos(x)**2", "sin(x)/cos(x)", "sin(y)**2", "cos(y)**2", "sin(2*x)", "cos(2*x)",
    "x*sin(x)**2", "x*cos(x)**2", "log(x)", "log(x*y)", "sin(x)**2*cos(x)**2", "tan(x)**2*sec(x)**2", "csc(x)*cos(x)", "tan(x)**3*sec(x)",
]
CORE = T[:6] + ["sin(x)*cos(x)", "cos(x)**4", "sec(x)**4", "tan(x)**4", "1/cos(x)**2", "sin(y)**2", "x*sin(x)**2", "x*cos(x)**2", "log(x*y)"]
C = ["", "-1*", "2*", "-3*", "y*"]
FN = ["sin", "cos", "tan", "sec", "csc", "cot"]
LOGS = ["x", "y", "x**2", "y**3", "1/x", "sqrt(x)", "(x + 1)", "(x*y + x)", "2*x", "sin(x)", "sec(x)", "cot(y)", "e**x", "2**y", "abs(x)", "abs(x*y)", "abs(y**2*x)", "abs(x*y - x)", "x**y"]
WRAPS = ["sqrt(%s)", "e**(%s)", "1/(%s)", "x*(%s)", "(%s)**2", "log(%s)", "2**(%s)", "(%s)/(1 + (%s))"]


def sums(tier):
    terms = [c + t for t in T for c in C]
    for t in terms:
        yield t
    if tier == "quick":
        a = [c + t for t in CORE for c in ("", "-1*", "2*")]
        for p in itertools.combinations(a, 2):
            yield "Sum([%s, %s])" % p
        for p in itertools.product([c + t for t in CORE for c in ("", "-1*")], [t for t in T if t not in CORE]):
            yield "Sum([%s, %s])" % p
        b = [c + t for t in CORE for c in ("", "-1*")]
        for p in itertools.combinations(b, 2):
            yield "Sum([Rat(1), %s, %s])" % p
            yield "Sum([x, %s, %s])" % p
    else:
        for p in itertools.combinations(terms, 2):
            yield "Sum([%s, %s])" % p
        b = [c + t for t in T for c in ("", "-1*", "2*")]
        for k in ("Rat(1)", "Rat(-2)", "x"):
            for p in itertools.combinations(b, 2):
                yield "Sum([%s, %s, %s])" % (k, p[0], p[1])
        b = [c + t for t in CORE for c in ("", "-1*")]
        for p in itertools.combinations(b, 4):
            yield "Sum([%s, %s, %s, %s])" % p


def products(tier):
    atoms = ["%s(%s)%s" % (f, a, q) for f in FN for a in ("x", "2*x") for q in ("", "**2", "**-1", "**-2")]
    extra = ["x", "Rat(-2)", "sqrt(x)", "sin(y)", "(x + sin(x))"]
    for p in itertools.combinations(atoms, 2):
        yield "%s*%s" % p
    small = ["%s(x)%s" % (f, q) for f in FN for q in ("", "**2", "**-1")]
    for p in itertools.combinations(small if tier != "quick" else small[::2] + ["sin(x)", "sec(x)"], 2):
        for k in extra:
            yield "%s*%s*%s" % (k, p[0], p[1])


def logs(tier):
    for a in LOGS:
        yield "log(%s)" % a
        yield "log(%s, Rat(2))" % a
        yield "x*log(%s) - 1" % a
        for b in LOGS:
            yield "log((%s)*(%s))" % (a, b)
            yield "log((%s)/(%s))" % (a, b)
            yield "log((%s) + (%s))" % (a, b)
            yield "log((%s)*(%s), Rat(3))" % (a, b)
            yield "log(%s) - log(%s)" % (a, b)
            yield "sin(log((%s)*(%s)))*y" % (a, b)
            yield "log(abs((%s)*(%s)))" % (a, b)


def nested(tier):
    base = ["1 - sin(x)**2", "1 + tan(x)**2", "sec(x)**2 - 1", "cos(2*x)**2 + sin(2*x)**2", "y*sin(x)**2 + y*cos(x)**2 + x", "1/sin(x)", "sin(x)/cos(x)",
            "4 - 4*cos(x)**2", "csc(x)**2 - 1", "1 + cot(y)**2", "log(x*y)", "sec(x)**2 + tan(x)**2", "2*cos(x)*sin(2*x)/3 - cos(2*x)*sin(x)/3", "1/x + 1/sin(x)"]
    for b in base:
        for w in WRAPS:
            yield w.replace("%s", "(" + b + ")")
        for c in base:
            yield "(%s)*(%s)" % (b, c)
            yield "(%s)/(%s)" % (b, c)
            yield "(%s) + (%s)" % (b, c)
            if tier != "quick":
                for w in WRAPS:
                    yield w.replace("%s", "(%s)*(%s)" % (b, c))


def stage_tasks(tier, stage, carry):
    tasks = space.stages(stage, carry, thin=8 if tier == "quick" else 1)
    if stage == 1:
        seen = set()
        ts = []
        for t in itertools.chain(nested(tier), logs(tier), products(tier), sums(tier), space.meeting()):
            if t not in seen:
                seen.add(t)
                ts.append(t)
        n = 256
        tasks = [("chk", ts[i::n]) for i in range(n)] + tasks
    return tasks


def check(acc, t, ex, op):
    acc.transitions += 1
    key = "%s(%s)" % (op, t)
    try:
        with harness.limit(30):
            r = OPS[op](ex)
    except harness.CpuTimeout:
        acc.violation(key, "did not return within 30 s of CPU time", REPLAY % {"t": t, "op": op})
        return
    except (ArithmeticError, ValueError) as e_:
        if O.defined_somewhere(O.values(ex)):
            acc.violation(key, "%s of %r raised %r" % (op, ex, e_), REPLAY % {"t": t, "op": op})
        return
    except Exception as e_:
        acc.violation(key, "%s of %r raised %r" % (op, ex, e_), REPLAY % {"t": t, "op": op})
        return
    if r is ex:
        acc.note("left unchanged")
        return
    bad = O.mismatch(O.values(ex), O.values(r), acc, (ex,))
    if bad:
        i, a, b = bad
        acc.violation(
            key,
            "%s turns %r into %r; values at %s are %s and %s" % (op, ex, r, O.POINTS[i], a and a[0], b and b[0]),
            REPLAY % {"t": t, "op": op},
        )


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    for t in task[1]:
        try:
            ex = space.build(t)
        except Exception:
            acc.note("not buildable")
            continue
        acc.state(fp.h64(fp.key(ex)))
        for op in OPS:
            if op == "pythagorean_simplification" and "**2" not in t:
                continue
            check(acc, t, ex, op)
    acc.sample("simplify " + (task[1][-1] if task[1] else "-"))
