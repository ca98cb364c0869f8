"""C32: integration is linear.

For every integrand f and every f, g, h that the integrator solves one by one, it is asked for the multiples of f by
constants (numbers and expressions without the variable) and for sums of two and of three: each must be solved, and its
answer must be the same combination of the separate answers, up to a constant - over intervals, in value."""
import itertools

from mc import cval, fp, harness, integ, intspace, space
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C32"
LEVEL = "model_checking"
RULE = "state = one combination of integrands solved one by one; transition = one complete search for the combination, its answer compared with the combined answers"
ASSUMPTIONS = ["searches that ran into the (virtual) time limit are not judged", "answers that have no value in real or complex arithmetic at a point are not compared there"]
REPLAY = """from mc import integ, space
from mc.checks import c32
from mc.ops import *
for t in %(ts)r:
    for how in (x, (x, Rat(1, 2), Rat(3, 4))):
        print("%%-40s %%-20r" %% (t, how), integ.search(space.build(t), how).answer)
"""
LO, HI = Rat(1, 2), Rat(3, 4)
POINTS = (0.137, 0.374, 0.613, 0.829, 1.213, 1.731)
# (text, how much of f)
MULTIPLES = ["3*(%s)", "-(%s)", "-(%s)/2", "y*(%s)", "pi*(%s)", "(%s)/y", "sin(y)*(%s)", "sqrt(2)*(%s)", "(%s)/(y + 1)", "(%s)/7", "e**y*(%s)", "y**2*(%s)", "-5*y*(%s)"]
FEW_MULTIPLES = MULTIPLES[1:6]
COMBOS = ["(%s) + (%s)", "(%s) - 2*(%s)", "y*(%s) + (%s)", "3*(%s) - (%s)/y"]
_alone = {}


class Unknown(Exception):
    pass


def ask(t, how=x):
    """None: not solved"""
    key = (t, how is x)
    if key not in _alone:
        r = integ.search(space.build(t), how)
        _alone[key] = "unknown" if r.struck or isinstance(r.error, harness.CpuTimeout) else r.answer
    if isinstance(_alone[key], str):
        raise Unknown()
    return _alone[key]


def build(t):
    try:
        with harness.limit(20):
            return space.build(t)
    except Exception:
        return None


def value(ex, env):
    v = V.ev(ex, env)
    return cval.real(ex, env) if v is None else v


def coefficients(pattern, n):
    """the factors of the parts in the pattern, as expressions"""
    out = []
    for i in range(n):
        out.append(space.build(pattern % tuple("Rat(1)" if j == i else "Rat(0)" for j in range(n))))
    return out


def judge(acc, pattern, parts):
    t = pattern % parts
    try:
        alone = [ask(p) for p in parts]
        if any(a is None for a in alone):
            return
        e = build(t)
        if e is None:
            return
        acc.transitions += 1
        acc.state(fp.h64(t))
        r = integ.search(e, x)
        if r.struck or isinstance(r.error, harness.CpuTimeout):
            acc.skipped += 1
            return
    except Unknown:
        acc.skipped += 1
        return
    rep = REPLAY % dict(ts=list(parts) + [t])
    if r.answer is None:
        acc.violation(t, "solved one by one (%s), not together%s" % (", ".join(parts), ": %r" % r.error if r.error else ""), rep)
        return
    if e.contains(x):
        n, bad, lost = integ.derivative_matches(r.answer, e, "x", POINTS)
        if bad:
            acc.violation(t, "answer %s, whose derivative at x = %s is %s, not %s" % (repr(r.answer)[:150], bad[0], bad[2], bad[1]), rep)
            return
        acc.validated += n > 0
    # and over an interval
    try:
        areas = [ask(p, (x, LO, HI)) for p in parts]
    except Unknown:
        acc.skipped += 1
        return
    if any(a is None for a in areas):
        return
    r = integ.search(e, (x, LO, HI))
    acc.transitions += 1
    acc.state(fp.h64(t + "|"))
    if r.struck or isinstance(r.error, harness.CpuTimeout):
        acc.skipped += 1
        return
    if r.answer is None:
        acc.violation(t, "over an interval solved one by one (%s), not together%s" % (", ".join(parts), ": %r" % r.error if r.error else ""), rep)
        return
    cs = coefficients(pattern, len(parts))
    env = integ.env_for(e, set().union(*[integ.fsyms(a) for a in areas]) | set(integ.fsyms(r.answer)))
    got = value(r.answer, env)
    total = (0.0, 0.0)
    for c, a in zip(cs, areas):
        u, v = value(c, env), value(a, env)
        if u is None or v is None:
            return
        total = V.add(total, V.mul(u, v))
    if got is None:
        return
    if V.cmp(got, total, 1e-8) == V.DIFF:
        acc.violation(t, "over [1/2, 3/4] %s = %r, from the parts %r" % (repr(r.answer)[:120], got[0], total[0]), rep)
    else:
        acc.validated += 1


def stage_tasks(tier, stage, carry):
    if stage:
        return None
    quick = tier == "quick"
    A = sorted(set(intspace.ATOMS + intspace.MORE), key=lambda t: (len(t), t))
    one = intspace.integrands(tier)
    tasks = []
    mult = [(m, (t,)) for t in A for m in MULTIPLES]
    rest = [t for t in one if t not in set(A)]
    mult += [((FEW_MULTIPLES if quick else MULTIPLES)[i % (len(FEW_MULTIPLES) if quick else len(MULTIPLES))], (t,)) for i, t in enumerate(rest[:: 3 if quick else 1])]
    pairs = list(itertools.combinations(A, 2))
    if quick:
        short = set(A[:44])
        jobs = [(COMBOS[i % len(COMBOS)], p) for i, p in enumerate(pairs) if i % 5 == 0 or short.issuperset(p)]
    else:
        jobs = [(c, p) for p in pairs for c in COMBOS]
    # three at once
    threes = [t for t in itertools.combinations(A[:: 2 if quick else 1], 3) if fp.h64("".join(t)) % (97 if quick else 41) == 0]
    jobs += [("(%s) + (%s) + (%s)" if i % 2 else "(%s) - (%s) + y*(%s)", t) for i, t in enumerate(threes)]
    n = 128
    tasks += [("chk", mult[i * len(mult) // n : (i + 1) * len(mult) // n]) for i in range(n)]
    tasks += [("chk", jobs[i * len(jobs) // n : (i + 1) * len(jobs) // n]) for i in range(n)]
    return tasks


def run(task, acc):
    for pattern, parts in task[1]:
        judge(acc, pattern, parts)
    if task[1]:
        acc.sample("integral of " + task[1][-1][0] % task[1][-1][1])
