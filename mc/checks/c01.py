"""C01: building an expression never changes its value.

Breadth-first search over programs of public operations. A state is the structure of the expression reached
(fingerprint), a transition applies one real operation to real operands, the oracle is real arithmetic on the
operands' values (val.py). Because every transition is checked from the operands' own values, merging states with
equal structure loses nothing."""
from mc import fp, harness
from mc import ops as O
from mc import val as V
from mc.ops import *  # noqa: F401,F403  (traces are evaluated in this namespace)

ID = "C01"
LEVEL = "model_checking"
RULE = (
    "state = structure of a reachable expression; transition = one public operation (11 atoms, 19 unary, 5 binary "
    "operators, plus n-ary families) executed on the implementation and compared with real arithmetic at 6 points; "
    "inconclusive = undefined or ill-conditioned at that point"
)
ASSUMPTIONS = [
    "real-valued semantics with odd roots of negatives; values at 6 fixed generic points stand for equality of functions",
    "inverse trig of trig is read on the principal branch; fractional powers of even powers on non-negative bases",
]

def _apply(acc, name, fn, model, operands):
    acc.transitions += 1
    try:
        with harness.limit(20):
            r = fn()
    except harness.CpuTimeout:
        acc.violation(name, "did not return within 20 s of CPU time", REPLAY % {"t": name})
        return None
    except (ArithmeticError, ValueError) as ex:
        # an operation without a real value may also be refused
        if O.defined_somewhere(model):
            acc.violation(name, "raised %s: %s" % (type(ex).__name__, ex), REPLAY % {"t": name})
        else:
            acc.note("refused undefined operation")
        return None
    except Exception as ex:
        acc.violation(name, "raised %s: %s" % (type(ex).__name__, ex), REPLAY % {"t": name})
        return None
    try:
        got = O.values(r)
    except Exception as ex:
        acc.violation(name, "result is not a well-formed expression: %r" % ex, REPLAY % {"t": name})
        return None
    bad = O.mismatch(model, got, acc, operands)
    if bad:
        i, a, b = bad
        acc.violation(
            name,
            "%s = %s, but at x,y,z=%s real arithmetic gives %s and the expression's value is %s"
            % (name, _r(r), POINTS[i], a and a[0], b and b[0]),
            REPLAY % {"t": name},
        )
        return None
    return r


def _r(r):
    try:
        return repr(r)
    except Exception as ex:
        return "<repr failed: %r>" % ex


REPLAY = """from mc.ops import *
r = %(t)s
print(r)
for p, env in zip(POINTS, ENVS):
    print(p, V.ev(r, env))
"""


def build(trace):
    return eval(trace, globals())


def unary(acc, t, ex, vals, found):
    for tmpl, (f, m) in UNARY.items():
        name = tmpl % t
        if skip_known(tmpl, ex):
            continue
        model = O.model_unary(tmpl, ex, vals)
        r = _apply(acc, name, lambda: f(ex), model, (ex,))
        if r is not None:
            _found(acc, name, r, found)


def skip_known(tmpl, ex):
    # atan(cot u) = 1/u is pinned by the project's tests and wrong: a known finding, checked on its own in task "known"
    return tmpl.startswith("atan") and ex.__class__.__name__ == "cot"


def binary(acc, ta, ea, va, tb, eb, vb, found):
    for tmpl, (f, m) in BINARY.items():
        name = tmpl % (ta, tb)
        model = O.model_binary(tmpl, ea, va, eb, vb)
        r = _apply(acc, name, lambda: f(ea, eb), model, (ea, eb))
        if r is not None:
            _found(acc, name, r, found)


def _found(acc, name, r, found):
    k = fp.key(r)
    h = fp.h64(k)
    acc.state(h)
    if h not in found and not O.has_inf(r):
        if O.defined_somewhere(O.values(r)):
            found[h] = name


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return [("L1",), ("known",)] + [("nary", k, 48) for k in range(48)] + [("pairs", k, 16, tier) for k in range(16)]
    if stage == 1:
        seen = {fp.h64(fp.key(a)) for a in ATOMS.values()}
        l1 = []
        for out in carry:
            for h, t in out:
                if h not in seen:
                    seen.add(h)
                    l1.append(t)
        l1.sort(key=lambda t: (len(t), t))
        _state["l1"] = l1
        n = 64
        return [("L2", l1[i::n]) for i in range(n)]
    if stage == 2:
        seen = set()
        l2 = []
        for out in carry:
            for h, t in out:
                if h not in seen:
                    seen.add(h)
                    l2.append(t)
        l2.sort(key=lambda t: (len(t), t))
        l1 = _state["l1"]
        tasks = []
        if tier == "quick":
            # every unary operation on a fixed third of the layer-2 states, pairs of the simplest layer-1 states
            l2 = l2[::3]
            l1 = l1[:60]
        n = 128
        tasks += [("U3", l2[i::n]) for i in range(n)]
        tasks += [("P2", l1[i::n], l1) for i in range(min(n, len(l1)))]
        return tasks
    return None


_state = {}


def run(task, acc):
    kind = task[0]
    found = {}
    if kind == "L1":
        atoms = [(t, a, O.values(a)) for t, a in ATOMS.items()]
        for t, ex, v in atoms:
            acc.state(fp.h64(fp.key(ex)))
            unary(acc, t, ex, v, found)
            for tb, eb, vb in atoms:
                binary(acc, t, ex, v, tb, eb, vb, found)
        acc.out = list(found.items())
    elif kind == "L2":
        atoms = [(t, a, O.values(a)) for t, a in ATOMS.items()]
        for t in task[1]:
            ex = build(t)
            v = O.values(ex)
            unary(acc, t, ex, v, found)
            for tb, eb, vb in atoms:
                binary(acc, t, ex, v, tb, eb, vb, found)
                binary(acc, tb, eb, vb, t, ex, v, found)
        acc.out = list(found.items())
        acc.sample(task[1][0] + " -> e.g. " + (acc.out[-1][1] if acc.out else "-"))
    elif kind == "U3":
        for t in task[1]:
            ex = build(t)
            unary(acc, t, ex, O.values(ex), found)
        acc.sample("unary layer over " + task[1][-1] if task[1] else "-")
    elif kind == "P2":
        others = []
        for t in task[2]:
            ex = build(t)
            others.append((t, ex, O.values(ex)))
        for t in task[1]:
            ex = build(t)
            v = O.values(ex)
            for tb, eb, vb in others:
                binary(acc, t, ex, v, tb, eb, vb, found)
    elif kind == "nary":
        nary(acc, task[1], task[2])
    elif kind == "pairs":
        pairs(acc, task[1], task[2], task[3])
    elif kind == "known":
        known(acc)


# ---- n-ary products and sums: exponent bookkeeping and like-term collection -------------------------------------

FACTORS = [
    "x", "x**2", "x**-1", "x**3", "x**F(1, 2)", "x**F(-1, 2)", "x**y", "x**(-y)", "y", "1/y", "2**x", "e**x", "e**(-x)",
    "Rat(2)", "Rat(-3)", "Rat(1, 2)", "sqrt(Rat(2))", "pi", "1/pi", "(x + 1)", "1/(x + 1)", "(x + y)**2", "sin(x)", "csc(x)", "log(x)", "abs(x)",
    "Float(0.5)",
]
TERMS = [
    "x", "-x", "2*x", "x/3", "y", "-2*y", "x*y", "-x*y/2", "x**2", "3*x**2", "sqrt(x)", "-sqrt(x)", "Rat(1)", "Rat(-2)", "Rat(2, 3)", "pi",
    "-2*pi", "2*(x + y)", "(x + y)**2", "sin(x)", "-3*sin(x)", "x*sin(x)", "1/x", "-1/x", "Float(0.25)", "Float(0.5)*x",
]
# parts that combine into something that combines further
MEETING_FACTORS = [
    "sqrt(-x)", "(-x)**F(3, 2)", "sqrt(x*y)", "(x*y)**F(1, 3)", "sqrt(2*x)", "(x + 1)**y", "sqrt(1 - x)", "(-x)**y", "(x*y)**y", "1/sqrt(x*y)", "1/sqrt(-x)",
    "x", "Rat(-2)", "Rat(1, 2)", "y", "sqrt(x)", "sqrt(x + y)", "sqrt(-x - y)", "x**y", "e**x", "-(x + y)", "1/(x + y)", "(x - 1)", "(-x)**F(1, 3)", "Rat(1, 2)**x", "sqrt(Rat(-2, 3)*x)",
]
MEETING_TERMS = [
    "x + y", "2*(x + y)", "-(x + y)", "-3*(x + y)", "Rat(1, 2)*(x + y)", "x", "-y", "Rat(1)", "y*(x + y)", "-x*(x + y)", "(x + y)**2", "-(x - y)", "3*(x - y)",
    "sin(x + y)", "-2*(x + y)", "Rat(-1, 2)*(x + y)", "pi*(x + y)", "-pi*(x + y)", "sqrt(Rat(2))*(x - 1)", "Float(0.5)*(x + y)", "log(x)*(1 - x)", "-log(x)*(1 - x)",
]


def nary(acc, part, n):
    import itertools

    found = {}
    idx = 0
    kinds = (("Prod", FACTORS, Prod, V.mul), ("Sum", TERMS, Sum, V.add), ("Prod", MEETING_FACTORS, Prod, V.mul), ("Sum", MEETING_TERMS, Sum, V.add))
    for kind, items, ctor, op in kinds:
        objs = [(t, build(t)) for t in items]
        objs = [(t, o, O.values(o)) for t, o in objs]
        for r in (2, 3) if items in (MEETING_FACTORS, MEETING_TERMS) else (3, 4):
            if r == 4:
                pool = objs[::2] if kind == "Prod" else objs[1::2]
                combos = itertools.combinations_with_replacement(pool, r)
            else:
                combos = itertools.combinations_with_replacement(objs, r)
            for combo in combos:
                idx += 1
                if idx % n != part:
                    continue
                # one fixed rotation per multiset varies which operand comes first
                k = idx % r
                combo = combo[k:] + combo[:k]
                name = "%s([%s])" % (kind, ", ".join(c[0] for c in combo))
                model = combo[0][2]
                for c in combo[1:]:
                    model = [op(a, b) for a, b in zip(model, c[2])]
                res = _apply(acc, name, lambda: ctor([c[1] for c in combo]), model, tuple(c[1] for c in combo))
                if res is not None:
                    acc.state(fp.h64(fp.key(res)))
                if idx == 100 + part:
                    acc.sample(name + " = " + _r(res))


PAIR_FACTORS = ["x", "y", "sin(x)", "log(x)", "sqrt(y)", "pi", "(x + 1)"]


def pairs(acc, part, n, tier):
    """sums, products and quotients of all ordered pairs of products of up to three (four) distinct factors"""
    import itertools

    items = []
    for r in range(1, 4 if tier == "quick" else 5):
        for c in itertools.combinations(PAIR_FACTORS, r):
            items.append("*".join(c))
            items.append("-2*" + "*".join(c))
    objs = [(t, build(t)) for t in items]
    objs = [(t, o, O.values(o)) for t, o in objs]
    for i, (ta, ea, va) in enumerate(objs):
        if i % n != part:
            continue
        for tb, eb, vb in objs:
            for tmpl in ("(%s) + (%s)", "(%s) - (%s)", "(%s) * (%s)", "(%s) / (%s)"):
                name = tmpl % (ta, tb)
                r = _apply(acc, name, lambda: BINARY[tmpl][0](ea, eb), O.model_binary(tmpl, ea, va, eb, vb), (ea, eb))
                if r is not None:
                    acc.state(fp.h64(fp.key(r)))


# ---- inputs where the unchanged tree is known to be wrong: reported one by one ---------------------------------

KNOWN = [
    ("atan(cot(x))", lambda p: math_atan_cot(p[0])),
    ("(x**2)**F(3, 2)", lambda p: abs(p[0]) ** 3),
    ("(x**2)**F(-3, 2)", lambda p: abs(p[0]) ** -3),
    ("(x**4)**F(3, 4)", lambda p: abs(p[0]) ** 3),
]


def math_atan_cot(u):
    import math

    return math.atan(1 / math.tan(u))


def known(acc):
    for t, m in KNOWN:
        model = [(m(p), 1e-12) for p in POINTS]
        _apply(acc, t, lambda: build(t), model, ())
