"""C04: substitution and numeric evaluation commute with evaluation.

Every expression reachable by two operations, times every assignment of a replacement alphabet (one symbol, both symbols,
swaps, symbols that do not occur), compared with evaluating the original at the values of the replacements."""
import itertools

from mc import fp, harness
from mc import ops as O
from mc import space
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "state = reachable expression; transition = one substitution or numeric evaluation on the real code, compared at 6 points "
    "with the value of the original where its symbols have the values of the replacements"
)
ASSUMPTIONS = ["equality of functions is judged at 6 fixed generic points"]
REPLAY = """from mc.ops import *
from mc import val as V
ex = %(t)s
r = ex.%(call)s
print(ex, "->", r)
print([V.ev(r, v) for v in ENVS])
"""
NS = dict(O.__dict__)

REPL = [
    "{'x': 2}", "{'x': Rat(1, 2)}", "{'x': F(-3, 4)}", "{'x': 1}", "{'x': 0}", "{'x': -1}", "{'x': pi}", "{'x': e}", "{'x': y}", "{'x': y + 1}", "{'x': x + 1}", "{'x': -x}", "{'x': 2*x}", "{'x': 1/y}", "{'x': x*y}", "{'x': e**y}",
    "{'x': log(y)}", "{'x': sqrt(y)}", "{'x': 0.5}", "{'x': z}", "{'x': sin(y)}", "{'y': x}", "{'y': Rat(3)}", "{'y': x + z}", "{'y': F(-1, 2)}", "{'x': y, 'y': x}", "{'x': y, 'y': z}", "{'x': x + y, 'y': x - y}", "{'x': 2, 'y': 3}", "{'x': y + 1, 'y': 2}", "{'w': Rat(7)}",
    "{'z': x, 'w': 2}", "{}", "{'x': x}", "{'x': 1/x, 'y': 1/y}", "{'x': pi, 'y': e}",
]
EVAL = [{"x": a, "y": b} for a, b in [(2, 3), (F(1, 2), F(-3, 4)), (0.37, 0.81), (-0.7, 0.6), (1.618, F(5, 3)), (-2, 2), (7, 0.01), (0, 1), (1, 1), (3.25, 0), (F(-3, 4), F(1, 3))]]
PARTIAL = [{"x": 0.37}, {"x": 2}, {"y": F(1, 3)}, {}]


def syms(e):
    if e.__class__.__name__ == "Symbol":
        return {e.name}
    out = set()
    for c in e.children():
        out |= syms(c)
    return out


def asg_values(asg, envs):
    out = []
    for env in envs:
        new = dict(env)
        new["w"] = (0.9, 0.0)
        for k, r in asg.items():
            if isinstance(r, (int, float, F)):
                new[k] = V.const(r)
            else:
                new[k] = V.ev(r, env)
        out.append(new)
    return out


def evs(e, env):
    """value with undefined replacements"""
    if any(env.get(s, 0) is None for s in syms(e)):
        return None
    return V.ev(e, env)


# -- scope of the composition: branch choices simpy documents, decided on the original at the new values


def in_scope(e, env, env0, asg):
    """asin(sin(u)) and (b^even)^q on the principal branch only, also when a replacement completes the pair"""
    n = e.__class__.__name__
    for c in e.children():
        if not in_scope(c, env, env0, asg):
            return False
    if n in O.PRINCIPAL and e.inner.__class__.__name__ == "Symbol":
        r = asg.get(e.inner.name)
        if isinstance(r, Expr) and not O.in_principal_range(n + "(%s)", r, env0):
            return False
    return True


def mentions_float(e):
    return e.__class__.__name__ == "Float" or any(mentions_float(c) for c in e.children())


def judge(acc, t, ex, text, asg, envs0):
    acc.transitions += 1
    key = "(%s).subs(%s)" % (t, text)
    rep = REPLAY % {"t": t, "call": "subs(%s)" % text}
    envs = asg_values(asg, envs0)
    model = []
    for env, env0 in zip(envs, envs0):
        model.append(evs(ex, env) if in_scope(ex, env, env0, asg) else None)
    before = fp.key(ex)
    try:
        with harness.limit(20):
            r = ex.subs(dict(asg))
    except harness.CpuTimeout:
        acc.violation(key, "did not return within 20 s of CPU time", rep)
        return
    except (ArithmeticError, ValueError) as er:
        if O.defined_somewhere(model):
            acc.violation(key, "raised %r" % er, rep)
        else:
            acc.note("undefined, refused")
        return
    except Exception as er:
        acc.violation(key, "raised %r" % er, rep)
        return
    if fp.key(ex) != before:
        acc.violation(key, "changed the expression itself into %r" % (ex,), rep)
        return
    own = syms(ex)
    allowed = own - set(asg)
    for k, v in asg.items():
        if k in own and isinstance(v, Expr):
            allowed |= syms(v)
    try:
        got = syms(r)
        vals = [V.ev(r, env) for env in envs0]
    except Exception as er:
        acc.violation(key, "is no proper expression: %r" % (er,), rep)
        return
    if not got <= allowed:
        acc.violation(key, "is %r, which contains %s" % (r, sorted(got - allowed)), rep)
        return
    if not (own & set(asg)) and fp.ckey(r) != fp.ckey(ex):
        # nothing named occurs: the same expression must come back (up to rewriting of equal value, checked below)
        acc.note("absent symbol: rebuilt differently")
    bad = None
    for i, (a, b) in enumerate(zip(model, vals)):
        c = V.cmp(a, b)
        # a value may be lost only where some part is not positive (see C01)
        if c == V.DIFF or a is not None and b is None and a[1] < 1e-6 and tame(ex, envs[i]) and all(not isinstance(v, Expr) or O.tame(v, envs0[i]) for v in asg.values()):
            bad = i, a, b
            break
        if c == V.SKIP:
            acc.skipped += 1
        else:
            acc.validated += 1
    if bad:
        i, a, b = bad
        acc.violation(key, "is %r: at %s it is %s, the original has %s there" % (r, O.POINTS[i], b and b[0], a and a[0]), rep)


def tame(e, env):
    v = evs(e, env)
    if v is None or v[1] > 1e-6 or v[0] <= 0:
        return False
    return all(tame(c, env) for c in e.children())


def num(v):
    return V.const(v)


def evalf(acc, t, ex, asg):
    own = syms(ex)
    text = "{%s}" % ", ".join("'%s': %s" % (k, "F(%d, %d)" % (v.numerator, v.denominator) if isinstance(v, F) else repr(v)) for k, v in asg.items())
    key = "(%s).evalf(%s)" % (t, text)
    rep = REPLAY % {"t": t, "call": "evalf(%s)" % text}
    acc.transitions += 1
    envs = []
    for env in O.ENVS:
        new = dict(env)
        for k, v in asg.items():
            new[k] = num(v)
        envs.append(new)
    full = own <= set(asg)
    model = [V.ev(ex, env) for env in envs]
    try:
        with harness.limit(20):
            r = ex.evalf(dict(asg))
    except harness.CpuTimeout:
        acc.violation(key, "did not return within 20 s of CPU time", rep)
        return
    except (ArithmeticError, ValueError) as er:
        if O.defined_somewhere(model):
            acc.violation(key, "raised %r" % er, rep)
        return
    except Exception as er:
        acc.violation(key, "raised %r" % er, rep)
        return
    try:
        vals = O.values(r)
    except Exception as er:
        acc.violation(key, "is no proper expression: %r" % (er,), rep)
        return
    if full:
        a = model[0]
        if a is None or a[1] > 1e-6:
            acc.note("evalf: undefined")
            return
        b = vals[0] if not syms(r) else None
        # odd roots of negative numbers have no float of their own: they may stay symbolic
        if (b is None or r.__class__ not in (Float, Rat)) and not neg_root(ex, envs[0]):
            acc.violation(key, "is %r, not the number %r" % (r, a[0]), rep)
            return
    for i, (a, b) in enumerate(zip(model, vals)):
        c = V.cmp(a, b)
        if c == V.DIFF or a is not None and b is None and a[1] < 1e-6 and tame(ex, envs[i]):
            bad = i, a, b
            break
        if c == V.SKIP:
            acc.skipped += 1
        else:
            acc.validated += 1
    else:
        bad = None
    if bad:
        i, a, b = bad
        acc.violation(key, "is %r: value %s, the expression has %s" % (r, b and b[0], a and a[0]), rep)


def neg_root(e, env):
    if e.__class__.__name__ == "Power":
        q = V.rational_of(e.exponent)
        b = V.ev(e.base, env)
        if b is not None and b[0] < 0 and (q is None or q.denominator != 1):
            return True
    return any(neg_root(c, env) for c in e.children())


def stage_tasks(tier, stage, carry):
    return space.stages(stage, carry, thin=5 if tier == "quick" else 1)


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    traces = task[1]
    asgs = [(s, eval(s, NS)) for s in REPL]
    for n, t in enumerate(traces):
        ex = space.build(t)
        acc.state(fp.h64(fp.key(ex)))
        own = syms(ex)
        for text, asg in asgs:
            if n % 4 and not (own & set(asg)):
                continue
            judge(acc, t, ex, text, asg, O.ENVS)
        for asg in EVAL + PARTIAL:
            if asg in PARTIAL and not own and n % 4:
                continue
            evalf(acc, t, ex, asg)
    if traces:
        acc.sample("(%s): %d assignments, %d numeric evaluations" % (traces[-1], len(REPL), len(EVAL) + len(PARTIAL)))
