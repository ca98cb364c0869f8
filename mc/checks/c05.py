"""C05: the derivative of an expression is its derivative.

Every expression reachable by two operations (and 3- and 4-factor products, and second derivatives of the first layer)
is differentiated by the implementation; the result is compared with forward-mode (dual number) differentiation of
the same structure."""
import itertools

from mc import dual as D
from mc import fp, harness
from mc import ops as O
from mc import space
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C05"
LEVEL = "model_checking"
RULE = (
    "state = reachable expression; transition = one differentiation by the implementation with respect to x, y or an "
    "absent variable, compared at 6 points with dual-number differentiation"
)
ASSUMPTIONS = [
    "equality of functions is judged at 6 fixed generic points",
    "f(x)^g(x) is documented as unsupported and may raise NotImplementedError",
]
REPLAY = """from mc.ops import *
from mc import dual as D
ex = %(t)s
d = diff(ex, %(v)s)
print(ex, "->", d)
for p, env in zip(POINTS, ENVS):
    print(p, V.ev(d, env), D.dev(ex, env, %(v)r)[1])
"""
VARS = {"x": x, "y": y, "w": Symbol("w")}


def has_both(ex, name):
    """a power whose base and exponent both depend on the variable"""
    if ex.__class__.__name__ == "Power" and mentions(ex.base, name) and mentions(ex.exponent, name):
        return True
    return any(has_both(c, name) for c in ex.children())


def mentions(ex, name):
    if ex.__class__.__name__ == "Symbol":
        return ex.name == name
    return any(mentions(c, name) for c in ex.children())


def check(acc, t, ex, vname):
    """one differentiation; returns the derivative or None"""
    acc.transitions += 1
    key = "diff(%s, %s)" % (t, vname)
    try:
        with harness.limit(20):
            d = diff(ex, VARS[vname])
    except NotImplementedError:
        if not has_both(ex, vname):
            acc.violation(key, "raised NotImplementedError although base and exponent do not both depend on it", REPLAY % {"t": t, "v": vname})
        else:
            acc.note("unsupported f^g")
        return None
    except harness.CpuTimeout:
        acc.violation(key, "did not return within 20 s of CPU time", REPLAY % {"t": t, "v": vname})
        return None
    except (ArithmeticError, ValueError) as ex_:
        model = [D.dev(ex, env, vname)[1] for env in O.ENVS]
        if O.defined_somewhere(model):
            acc.violation(key, "raised %r" % ex_, REPLAY % {"t": t, "v": vname})
        return None
    except Exception as ex_:
        acc.violation(key, "raised %r" % ex_, REPLAY % {"t": t, "v": vname})
        return None
    if not mentions(ex, vname):
        vals = O.values(d)
        if any(v is not None and abs(v[0]) > 8 * v[1] + 1e-12 for v in vals):
            acc.violation(key, "derivative of an expression without the variable is %r" % d, REPLAY % {"t": t, "v": vname})
        acc.validated += 1
        return None
    model = []
    for env in O.ENVS:
        v, dv = D.dev(ex, env, vname)
        model.append(dv if v is not None else None)
    bad = O.mismatch(model, O.values(d), acc, (ex,))
    if bad:
        i, a, b = bad
        acc.violation(
            key,
            "d/d%s %r = %r, but at %s the derivative is %s and the result's value is %s" % (vname, ex, d, O.POINTS[i], a and a[0], b and b[0]),
            REPLAY % {"t": t, "v": vname},
        )
        return None
    return d


def bare(acc, t, ex):
    """without a variable: the only symbol's derivative, or a refusal"""
    names = sorted(fsyms(ex))
    acc.transitions += 1
    key = "diff(%s)" % t
    rep = "from mc.ops import *\nprint(diff(%s))\n" % t
    try:
        with harness.limit(20):
            d = diff(ex)
    except (ValueError, NotImplementedError) as ex_:
        if len(names) == 1 and not has_both(ex, names[0]):
            try:
                ex.diff(VARS[names[0]])
            except (ArithmeticError, ValueError):
                return
            acc.violation(key, "refused: %r" % ex_, rep)
        else:
            acc.validated += 1
        return
    except Exception as ex_:
        acc.violation(key, "raised %r" % ex_, rep)
        return
    if len(names) != 1:
        acc.violation(key, "the variable is unclear, but the answer is %r" % d, rep)
    elif fp.ckey(d) != fp.ckey(ex.diff(VARS[names[0]])):
        acc.violation(key, "is %r, with the variable named it is %r" % (d, ex.diff(VARS[names[0]])), rep)
    else:
        acc.validated += 1


def fsyms(ex):
    if ex.__class__.__name__ == "Symbol":
        return {ex.name}
    return set().union(*[fsyms(c) for c in ex.children()]) if ex.children() else set()


FACTORS = ["x", "(x + 1)", "x**2", "y", "sin(x)", "cos(2*x)", "e**x", "e**(x*y)", "log(x)", "sqrt(x)", "1/(x + 1)", "abs(x)", "tan(x)", "x**y", "2**x", "atan(x)"]


PAIRED = [
    "x", "y", "Rat(2)", "Rat(3, 2)", "pi", "E()", "x + 1", "x + y", "2*x", "x**2", "x**2 + 1", "x*y", "1/x", "x - 1",
    "sqrt(x)", "e**x", "2**x", "sin(x) + 2", "abs(x)", "log(x)", "atan(x)", "y**2", "x**y", "Rat(-1, 3)",
]
PAIRS = ["Power(%s, %s)", "log(%s, %s)", "(%s) / (%s)"]
AROUND = ["%s", "sin(%s)", "atan(%s)", "log(%s)", "(%s)**2", "e**(%s)", "x*(%s)", "abs(%s)", "1/(1 + %s)", "log(3, %s)"]


def pair_texts(tier):
    for pat in PAIRS:
        for a in PAIRED:
            for b in PAIRED:
                for out in AROUND if tier != "quick" or pat[0] != "(" else AROUND[:1]:
                    yield out % (pat % (a, b))


def stage_tasks(tier, stage, carry):
    tasks = space.stages(stage, carry, thin=1)
    if stage == 1:
        tasks += [("prod", k, 32, 3) for k in range(32)]
        tasks += [("prod", k, 64, 4) for k in range(64 if tier != "quick" else 16)]
        if tier != "quick":
            tasks += [("prod", k, 128, 5) for k in range(128)]
        tasks += [("pair", tier, k, 32) for k in range(32)]
        meet = list(space.meeting())
        tasks += [("chk", meet[k::32]) for k in range(32)]
        tasks += [("second", tuple(sorted(space.layer1().values())[k::16])) for k in range(16)]
    return tasks


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    if task[0] == "chk":
        for t in task[1]:
            try:
                ex = space.build(t)
            except Exception:
                acc.note("refused")  # whether a value may be refused is another property
                continue
            if not isinstance(ex, Expr) or O.has_inf(ex):
                continue
            acc.state(fp.h64(fp.key(ex)))
            check(acc, t, ex, "x")
            check(acc, t, ex, "y")
            check(acc, t, ex, "w")
            bare(acc, t, ex)
        acc.sample("d/dx, d/dy, d/dw of " + (task[1][-1] if task[1] else "-"))
        return
    if task[0] == "pair":
        for i, t in enumerate(pair_texts(task[1])):
            if i % task[3] != task[2]:
                continue
            try:
                ex = space.build(t)
            except Exception:
                acc.note("pair refused")  # whether a value may be refused is another property
                continue
            if O.has_inf(ex):
                continue
            acc.state(fp.h64(fp.key(ex)))
            for v in ("x", "y"):
                check(acc, t, ex, v)
        return
    if task[0] == "prod":
        _, part, n, r = task
        objs = {t: space.build(t) for t in FACTORS}
        for i, combo in enumerate(itertools.combinations_with_replacement(FACTORS, r)):
            if i % n != part:
                continue
            combo = combo[i % r:] + combo[: i % r]
            t = "Prod([%s])" % ", ".join(combo)
            ex = Prod([objs[c] for c in combo])
            acc.state(fp.h64(fp.key(ex)))
            check(acc, t, ex, "x")
            if "y" in t:
                check(acc, t, ex, "y")
        return
    if task[0] == "second":
        for t in task[1]:
            ex = space.build(t)
            for v in ("x", "y"):
                try:
                    with harness.limit(20):
                        d = diff(ex, VARS[v])
                except Exception:
                    continue
                if O.has_inf(d):
                    continue
                for w in ("x", "y"):
                    d2 = check(acc, "diff(%s, %s)" % (t, v), d, w)
                    if d2 is not None and w == v and not O.has_inf(d2):
                        check(acc, "diff(diff(%s, %s), %s)" % (t, v, w), d2, w)
