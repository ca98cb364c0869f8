"""C12: time limit, strategy and internal names never make an integral wrong.

Each integrand is searched once per place where the time limit can strike (every clock read of the search), per choice of
the generated names (first characters low or high, all patterns up to a length), per strategy and per name of the
variable, as an indefinite and as a definite integral. Every outcome is judged by derivative or numeric integration."""
import itertools

from mc import fp, harness, integ, intspace, quad
from mc import ops as O
from mc import val as V
from mc.checks import c09, c10
from mc.ops import *  # noqa: F401,F403

ID = "C12"
LEVEL = "model_checking"
RULE = (
    "state = (integrand, place where the time limit strikes, pattern of generated names, strategy, name of the variable); "
    "transition = one complete search in that environment, its outcome judged"
)
ASSUMPTIONS = [
    "the real clock is replaced by a counter of reads that jumps past the limit at the chosen read",
    "generated names are distinct; only how they sort against other names is varied",
]
REPLAY = """from mc import env; env.install()
from mc import integ
from mc.ops import *
%(v)s = Symbol(%(v)r)
r = integ.search(%(t)s, %(b)s, expire_at=%(k)r, ids=%(ids)r, breadth_first=%(bf)r, budget=None)
print("answer:", r.answer, r.error, "clock reads:", r.reads)
"""
NAMES_Q = ["t", "a", "u", "theta", "Z", "e", "s1"]
NAMES_T = NAMES_Q + ["pi", "log", "x_", "zz", "A", "u_1"]
LIST = [
    "x**2", "1/x", "e**x", "sin(x)*cos(x)", "tan(x)", "tan(x)**2", "sec(x)**3", "sec(x)*tan(x)", "sin(x)**2*cos(x)**3", "sin(x)**4", "cos(x)**2", "log(x)", "x*log(x)", "x*e**x",
    "x**2*e**x", "e**x*sin(x)", "e**(2*x)*cos(3*x)", "x*sin(2*x)", "atan(x)", "asin(x)", "acos(x)", "x*atan(x)", "1/(x**2 + 1)", "1/(x**2 + 2*x + 5)", "x/(x**2 + 4)",
    "1/sqrt(1 - x**2)", "sqrt(1 - x**2)", "x/sqrt(1 - x**2)", "x**2/sqrt(1 - x**2)", "1/(x*(x + 1))", "(2*x + 1)/((x - 2)*(x + 3))", "x**3/(x + 2)", "(x**3 - 1)/(x**2 + 1)",
    "1/(1 + e**x)", "e**x/(1 + e**x)", "log(x)/x", "1/(x*log(x))", "log(x)**2", "x*sqrt(x + 1)", "x**2*sqrt(x + 1)", "x*(x**2 + 1)**5", "x*e**(x**2)", "cos(log(x))/x", "sin(sqrt(x))/sqrt(x)",
    "e**sqrt(x)", "sin(2*x)*cos(3*x)", "sin(x)**2", "csc(x)**2", "cot(x)", "csc(x)", "x*sec(x)**2", "2**x", "x*2**x", "x/(x + 1)", "(x + 1)**2/x", "1/(x**2 - 4)", "1/(4*x**2 + 9)",
    "1/sqrt(9 - 4*x**2)", "1/(x**2 + 2*x + 1)", "sin(x)/cos(x)**2", "cos(x)/(1 + sin(x))", "sin(x)/(1 + cos(x)**2)", "e**(-x**2)", "sin(x**2)", "sqrt(x**3 + 1)", "e**x/x", "1/log(x)", "x**x", "abs(x)",
    "y*x**2 + y", "sin(y*x)", "e**(y*x)", "1/(x + y)", "x*cos(y*x)", "log(x + 6)/x**2", "cos(x)**3*sin(x)**2 + x*e**x", "3*x**2 - 2/x + sin(x)", "x*(sin(x) + log(x))",
    "x**2*sqrt(1 - x**2)", "1/(x**2*sqrt(1 - x**2))", "1/(1 + x**2)**2", "sin(x)**3", "sin(x)*cos(2*x)*sin(2*x)", "tan(x)**3*sec(x)", "sqrt(x)*log(x)", "x**3*log(x)", "e**(-x)*x**2",
]
LO, HI = Rat(1, 4), Rat(3, 4)


def named(t, v):
    """the integrand with its variable called v"""
    ns = dict(c09.NS)
    ns["x"] = Symbol(v)
    try:
        with harness.limit(10):
            return eval(t, ns)
    except Exception:
        return None


def indefinite(acc, t, ex, v, cap, **kw):
    r = integ.search(ex, Symbol(v), cap=cap, cpu=60, **kw)
    acc.transitions += 1
    what = ", ".join("%s=%r" % (k, kw[k]) for k in sorted(kw))
    key = "integrate(%s, %s) with %s" % (intspace.linear(t, v) if v != "x" else t, v, what or "nothing special")
    acc.state(fp.h64(key))
    rep = REPLAY % {"t": intspace.linear(t, v) if v != "x" else t, "v": v, "b": v, "k": kw.get("expire_at", cap), "ids": kw.get("ids", (0,)), "bf": kw.get("breadth_first", False)}
    c09.judge(acc, key, ex, v, r, rep)
    return r


def definite(acc, t, ex, cap, want, **kw):
    r = integ.search(ex, (x, LO, HI), cap=cap, cpu=60, **kw)
    acc.transitions += 1
    what = ", ".join("%s=%r" % (k, kw[k]) for k in sorted(kw))
    key = "integrate(%s, (x, 1/4, 3/4)) with %s" % (t, what)
    acc.state(fp.h64(key))
    rep = REPLAY % {"t": t, "v": "x", "b": "(x, Rat(1, 4), Rat(3, 4))", "k": kw.get("expire_at", cap), "ids": kw.get("ids", (0,)), "bf": kw.get("breadth_first", False)}
    if r.error is not None:
        acc.violation(key, "raised %r" % (r.error,), rep)
        return r
    if r.answer is None:
        acc.note("definite: no answer")
        return r
    if want is None:
        return r
    extra = integ.fsyms(r.answer) - integ.fsyms(ex)
    if extra or "x" in integ.fsyms(r.answer):
        acc.violation(key, "the answer %r contains %s" % (r.answer, sorted(extra) or "x"), rep)
        return r
    v = c10.value(r.answer)
    ok = c10.same(v, want)
    if ok is False:
        acc.violation(key, "the answer %r has the value %r, the integral is %r" % (r.answer, v and v[0], want[0]), rep)
    elif ok:
        acc.validated += 1
    return r




def tasks(tier):
    quick = tier == "quick"
    L = list(LIST)
    L += [t for t in (intspace.families()[::4] if quick else intspace.integrands("quick")[::4]) if t not in LIST]
    return [(t, quick) for t in L]


def run(task, acc):
    t, quick = task
    ex = c09.build(t)
    if ex is None:
        return
    cap = 8 if quick else 16
    base = indefinite(acc, t, ex, "x", cap)
    for k in range(2, base.reads + 1):  # the first read starts the clock
        indefinite(acc, t, ex, "x", cap, expire_at=k)
    bf = indefinite(acc, t, ex, "x", cap, breadth_first=True)
    for k in range(2, bf.reads + 1) if not quick else (2, 3):
        if k <= bf.reads:
            indefinite(acc, t, ex, "x", cap, expire_at=k, breadth_first=True)
    n = min(base.ids, 3 if quick else 6)
    for pat in itertools.product((0, 1), repeat=n) if n else ():
        if any(pat):
            indefinite(acc, t, ex, "x", cap, ids=pat)
    for v in NAMES_Q if quick else NAMES_T:
        ex2 = named(t, v)
        if ex2 is None:
            acc.note("not constructible under another name")
            acc.violation("%s with its variable named %s" % (t, v), "cannot be built under this name", "")
            continue
        indefinite(acc, t, ex2, v, cap)
    want = quad_on(ex)
    r = definite(acc, t, ex, cap, want, ids=(0,))
    for k in range(2, r.reads + 1):
        definite(acc, t, ex, cap, want, expire_at=k)
    definite(acc, t, ex, cap, want, ids=(1,))
    definite(acc, t, ex, cap, want, breadth_first=True)
    acc.sample("%s: %d places for the time limit, %d generated names" % (t, base.reads, base.ids))


def quad_on(ex):
    env = integ.env_for(ex)

    def f(s):
        env["x"] = (s, 0.0)
        return V.ev(ex, env)

    return quad.integral(f, 0.25, 0.75)
