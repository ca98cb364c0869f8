"""C02: sums and products do not depend on the order or grouping of their operands, and like terms are collected.

For every multiset of operands up to the bound, all permutations and all binary groupings are executed on the
implementation: this is the whole schedule space of "in which order do the operands meet". All schedules must end in
the same expression (same structure, same term order). Sums of monomials are also compared exactly with an independent
polynomial arithmetic: no like term may be left uncollected."""
import itertools

from mc import fp, harness, poly
from mc import ops as O
from mc import space
from mc.ops import *  # noqa: F401,F403

ID = "C02"
LEVEL = "model_checking"
RULE = (
    "state = structure of an expression reached by some order/grouping of a multiset of operands; transition = one "
    "complete schedule (permutation x grouping) executed on the implementation; all schedules of a multiset must agree"
)
ASSUMPTIONS = [
    "operands with floating-point numbers (rounding), and powers of plain rational numbers next to rational factors "
    "(2*2*2^x), are outside the claim",
    "two fractional powers of something negated (sqrt(-x)*(-x)^(1/3)), and multiples of one sum that meet (2*(x + y) - (x + y)/2 - (x + y)/2), "
    "must agree in value whatever the order, not in form: powers and multiples that reach +-1 dissolve into their parts",
]
REPLAY = """from mc.ops import *
print(%(a)s)
print(%(b)s)
"""

SUM_TERMS = [
    "x", "-x", "2*x", "x/3", "y", "-2*y", "x*y", "-x*y/2", "x**2", "3*x**2", "sqrt(x)", "-sqrt(x)", "Rat(1)", "Rat(-2)", "Rat(2, 3)", "pi",
    "-2*pi", "2*(x + y)", "(x + y)**2", "sin(x)", "-3*sin(x)", "x*sin(x)", "1/x", "-1/x", "e**x", "log(x)", "abs(y)", "cos(x)", "x*pi", "(x + 1)",
    "-(x + 1)", "sin(x + y)", "2**x", "x**y", "sqrt(2)*x",
]
PROD_FACTORS = [
    "x", "x**2", "1/x", "x**3", "sqrt(x)", "x**F(-1, 2)", "x**y", "x**(-y)", "y", "1/y", "e**x", "e**(-x)", "Rat(2)", "Rat(-3)", "Rat(1, 2)", "Rat(-1)",
    "pi", "1/pi", "(x + 1)", "1/(x + 1)", "(x + y)**2", "sin(x)", "csc(x)", "log(x)", "abs(x)", "x*y", "2*x", "-x/y", "cos(x)", "sin(y)**2", "y**x", "(x - y)",
]
MORE_POWERS = ["2*sqrt(-x)", "y*sqrt(-x)", "sqrt(-x*y)", "(-x)**(1 - y)", "1/x", "sqrt(-y)", "sqrt(x - 1)", "-1/x"]
MONO = ["x", "-x", "2*x", "-x/3", "y", "-2*y", "x*y", "-x*y/2", "x**2", "3*x**2", "-x**2", "x**2*y", "Rat(1)", "Rat(-2)", "Rat(2, 3)", "z", "x*y*z", "-x*y*z", "y**2"]


def groupings(items, f):
    """all binary groupings of a sequence, as results"""
    n = len(items)
    if n == 1:
        return [items[0]]
    out = []
    for k in range(1, n):
        for (ta, a) in groupings(items[:k], f):
            for (tb, b) in groupings(items[k:], f):
                out.append(f(ta, a, tb, b))
    return out


def explore(acc, kind, combo, objs, with_nary=True):
    items = [(t, objs[t]) for t in combo]
    if kind == "Sum":
        f = lambda ta, a, tb, b: ("(%s + %s)" % (ta, tb), a + b)
        ctor = Sum
    else:
        f = lambda ta, a, tb, b: ("(%s * %s)" % (ta, tb), a * b)
        ctor = Prod
    ref = None
    # a minus sign next to a sum may be distributed into it or kept outside depending on when they meet (-1*(x + 1) is
    # -x - 1): such products are compared by value
    value_only = kind == "Prod" and any(has_sum(o) for _, o in items) and any(negative(o) for _, o in items)
    if kind == "Prod":
        value_only = value_only or sum(negated_root(o) for _, o in items) > 1 or any(t == "sqrt(2*x)" for t, _ in items)
    else:
        shared = [fp.key(m) for _, o in items for m in multiples(o)]
        value_only = value_only or len(set(shared)) < len(shared)
    for perm in sorted(set(itertools.permutations(range(len(items))))):
        seq = [items[i] for i in perm]
        try:
            with harness.limit(30):
                res = groupings(seq, f)
                res.append(("%s([%s])" % (kind, ", ".join(t for t, _ in seq)), ctor([o for _, o in seq])))
        except Exception as e_:
            acc.violation("%s of %s" % (kind, " , ".join(combo)), "combining %s raised %r" % (" , ".join(t for t, _ in seq), e_), "")
            return
        for t, r in res:
            acc.transitions += 1
            k = fp.key(r)
            if ref is None:
                ref = (t, r, k)
                acc.state(fp.h64(k))
            elif k != ref[2]:
                acc.state(fp.h64(k))
                if value_only and not mismatch(values(ref[1]), values(r), acc, tuple(o for _, o in items)):
                    continue
                acc.violation(
                    "%s of %s" % (kind, " , ".join(combo)),
                    "%s = %r but %s = %r (structures %s and %s)" % (ref[0], ref[1], t, r, ref[2], k),
                    REPLAY % {"a": ref[0], "b": t},
                )
                return
            else:
                acc.validated += 1


def monomials(acc, combo, objs):
    model = {}
    for t in combo:
        model = poly.padd(model, poly.of(objs[t]))
    for order in (combo, combo[::-1]):
        acc.transitions += 1
        r = Sum([objs[t] for t in order])
        name = "Sum([%s])" % ", ".join(order)
        acc.state(fp.h64(fp.key(r)))
        try:
            got = poly.expanded_form(r)
        except poly.NotPoly as e_:
            acc.violation("collect " + name, "%s = %r, like terms not collected (%s)" % (name, r, e_), "from mc.ops import *\nprint(%s)\n" % name)
            return
        if got != model:
            acc.violation("collect " + name, "%s = %r, wrong coefficients" % (name, r), "from mc.ops import *\nprint(%s)\n" % name)
            return
        acc.validated += 1


def cancel(acc, t):
    ex = space.build(t)
    one, zero = Rat(1), Rat(0)
    table = [
        ("(%s) - (%s)", lambda: ex - ex, zero),
        ("(%s) + -1*(%s)", lambda: ex + -1 * ex, zero),
        ("(%s)*1", lambda: ex * 1, ex),
        ("1*(%s)", lambda: 1 * ex, ex),
        ("(%s) + 0", lambda: ex + 0, ex),
        ("0 + (%s)", lambda: 0 + ex, ex),
        ("(%s)**1", lambda: ex**1, ex),
        ("(%s)*0", lambda: ex * 0, zero),
        ("0*(%s)", lambda: 0 * ex, zero),
        ("(%s)**0", lambda: ex**0, one),
        ("-(-(%s))", lambda: -(-ex), ex),
        ("2*(%s)/2", lambda: 2 * ex / 2, ex),
        ("(%s)/3*3", lambda: ex / 3 * 3, ex),
    ]
    if fp.key(ex) not in ("0/1", "f:0.0", "f:-0.0"):
        table.append(("(%s)/(%s)", lambda: ex / ex, one))
    signed = (has_sum(ex) and negative(ex)) or any_numeric_power(ex)
    for tmpl, fn, want in table:
        acc.transitions += 1
        try:
            with harness.limit(20):
                r = fn()
        except Exception as e_:
            acc.violation(tmpl.replace("%s", t), "raised %r" % e_, "")
            continue
        if fp.ckey(r) != fp.ckey(want):
            if signed and not mismatch(values(want), values(r), acc, (ex,)):
                continue
            acc.violation(tmpl.replace("%s", t), "= %r, expected %r" % (r, want), "from mc.ops import *\nprint(%s)\n" % tmpl.replace("%s", t))
        else:
            acc.validated += 1
    acc.state(fp.h64(fp.key(ex)))


CACHE = {}


def pair(acc, ta, a, tb, b):
    """a and b met in both orders, as operators and as one sum/product, and next to a third term"""
    for op, kind in (("+", "Sum"), ("*", "Prod")):
        acc.transitions += 1
        f = (lambda p, q: p + q) if op == "+" else (lambda p, q: p * q)
        ctor = Sum if op == "+" else Prod
        try:
            with harness.limit(30):
                rs = [("(%s) %s (%s)" % (ta, op, tb), f(a, b)), ("(%s) %s (%s)" % (tb, op, ta), f(b, a)), ("%s([%s, %s])" % (kind, ta, tb), ctor([a, b])), ("%s([%s, %s])" % (kind, tb, ta), ctor([b, a]))]
        except Exception as e_:
            acc.violation("(%s) %s (%s)" % (ta, op, tb), "raised %r" % e_, "from mc.ops import *\nprint((%s) %s (%s))\nprint((%s) %s (%s))\n" % (ta, op, tb, tb, op, ta))
            continue
        ks = [fp.key(r) for _, r in rs]
        acc.state(fp.h64(ks[0]))
        for (t, r), k in zip(rs[1:], ks[1:]):
            if k == ks[0]:
                acc.validated += 1
                continue
            if kind == "Prod" and ((has_sum(a) or has_sum(b)) and (negative(a) or negative(b)) or any_numeric_power(a) or any_numeric_power(b)):
                if not mismatch(values(rs[0][1]), values(r), acc, (a, b)):
                    continue
            acc.violation("%s of %s , %s" % (kind, ta, tb), "%s = %r but %s = %r" % (rs[0][0], rs[0][1], t, r), REPLAY % {"a": rs[0][0], "b": t})
            break


# terms that look alike: long common beginnings, same size and power, different deep inside
ALIKE = ["sin(x + y%s)", "(x + y%s)**2", "x*y*sin(x%s)", "log(x**2%s)", "e**(x%s)", "2**(x + y%s)", "abs(x - y%s)", "cos(sin(x%s))", "1/(x + y%s)", "pi*sqrt(x%s)", "sqrt(2)*asin(x/3%s)", "atan(x*y%s)*z"]
TAILS = ["", " + 1", " + 2", " - 1", " + F(1, 2)", " + z", " + 2*z", " - z", "*2", "*z", "/3", " + pi", " + 10", " + 12"]


def pair_tasks(carry, tier):
    l1 = sorted(space.layer1().values(), key=lambda t: (len(t), t))
    seen = {}
    for out in carry:
        for h, t in out:
            seen.setdefault(h, t)
    CACHE["l1"] = l1
    CACHE["l2"] = sorted(seen.values())
    n = 64
    step = 2 if tier == "quick" else 1
    return [("l1pairs", i, n, step) for i in range(n)] + [("near", i, n, step * 3) for i in range(n)] + [("alike", a) for a in ALIKE]


def l1pairs(acc, i, n, step):
    l1 = CACHE["l1"]
    objs = [space.build(t) for t in l1]
    for p in range(i, len(l1), n):
        for q in range(p + (i % step), len(l1), step):
            pair(acc, l1[p], objs[p], l1[q], objs[q])


def near(acc, i, n, step):
    """expressions next to each other in the order of their printed forms"""
    if "near" not in CACHE:
        es = [(t, space.build(t)) for t in CACHE["l2"][::step]]
        CACHE["near"] = sorted(((repr(ex), t, ex) for t, ex in es if not any_float(ex)), key=lambda p: p[:2])
    L = CACHE["near"]
    for p in range(i, len(L), n):
        for q in range(p + 1, min(p + 4, len(L))):
            pair(acc, L[p][1], L[p][2], L[q][1], L[q][2])


def any_float(ex):
    return ex.__class__.__name__ == "Float" or any(any_float(c) for c in ex.children())


def alike(acc, tmpl):
    ts = []
    for tail in TAILS:
        try:
            ts.append((tmpl % tail, space.build(tmpl % tail)))
        except Exception:
            pass
    for (ta, a), (tb, b) in itertools.combinations(ts, 2):
        pair(acc, ta, a, tb, b)
    objs = dict(ts)
    for c in itertools.combinations([t for t, _ in ts][:8], 3):
        explore(acc, "Sum", c, objs)
        explore(acc, "Prod", c, objs)


def negated_root(ex):
    if isinstance(ex, Prod):
        return sum(map(negated_root, ex.terms))
    return isinstance(ex, Power) and negative(ex.base) and not (isinstance(ex.exponent, Rat) and ex.exponent.value.denominator == 1)


def multiples(ex):
    """the sums that a term is a multiple of"""
    if isinstance(ex, Prod) and len(ex.terms) == 2 and isinstance(ex.terms[0], Rat) and isinstance(ex.terms[1], Sum):
        return [ex.terms[1]]
    return [m for t in ex.terms for m in multiples(t)] if isinstance(ex, Sum) else []


def has_sum(ex):
    return ex.__class__.__name__ == "Sum" or any(has_sum(c) for c in ex.children())


def negative(ex):
    n = ex.__class__.__name__
    if n == "Rat":
        return ex.value < 0
    return n in ("Prod", "Sum") and any(negative(c) for c in ex.children())


def any_numeric_power(ex):
    n = ex.__class__.__name__
    if n == "Float":
        return True
    if n == "Power" and ex.base.__class__.__name__ == "Rat":
        return True
    return any(any_numeric_power(c) for c in ex.children())


def stage_tasks(tier, stage, carry):
    tasks = space.stages(stage, carry, thin=2 if tier == "quick" else 1)
    if stage == 1:
        for kind, names in (("Sum", SUM_TERMS), ("Prod", PROD_FACTORS)):
            c3 = list(itertools.combinations_with_replacement(names, 3))
            pool = names[::3] if tier == "quick" else names[::2]
            c4 = list(itertools.combinations_with_replacement(pool, 4))
            if tier == "quick":
                c3 = c3[::3]
                c4 = c4[::7]
            tasks += [("perm", kind, c3[i::64]) for i in range(64)]
            tasks += [("perm", kind, c4[i::64]) for i in range(64)]
        for kind, names in (("Sum", space.MULTIPLES), ("Prod", space.POWERS + MORE_POWERS)):
            c3 = list(itertools.combinations_with_replacement(names, 3))
            tasks += [("perm", kind, c3[i::32]) for i in range(32)]
            if tier != "quick":
                c4 = list(itertools.combinations_with_replacement(names, 4))
                tasks += [("perm", kind, c4[i::256]) for i in range(256)]
        m = [c for r in (2, 3, 4) for c in itertools.combinations_with_replacement(MONO, r)]
        if tier != "quick":
            m += list(itertools.combinations_with_replacement(MONO, 5))
        tasks += [("mono", m[i::32]) for i in range(32)]
        tasks += pair_tasks(carry, tier)
    return tasks


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    if task[0] == "chk":
        for t in task[1]:
            cancel(acc, t)
        return
    if task[0] in ("l1pairs", "near", "alike"):
        {"l1pairs": l1pairs, "near": near, "alike": alike}[task[0]](acc, *task[1:])
        return
    if task[0] == "perm":
        _, kind, combos = task
        objs = {t: space.build(t) for t in {t for c in combos for t in c}}
        for c in combos:
            explore(acc, kind, c, objs)
        if combos:
            acc.sample("all orders and groupings of %s %s" % (kind, combos[-1]))
        return
    objs = {t: space.build(t) for t in MONO}
    for c in task[1]:
        monomials(acc, c, objs)
