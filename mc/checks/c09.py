"""C09: an indefinite integral, when one is returned, is an antiderivative of the integrand.

Every integrand of a bounded grammar is given to the integrator running as a closed system (virtual clock, owned
identifiers). The answer's derivative, computed by the harness' own dual-number differentiation, is compared with the
integrand at every sample point where both exist; the answer may contain no symbol the integrand does not have."""
from mc import fp, harness, integ, intspace
from mc import ops as O
from mc.ops import *  # noqa: F401,F403

ID = "C09"
LEVEL = "model_checking"
RULE = (
    "state = integrand of the bounded grammar together with the answer reached; transition = one search cycle of the "
    "integrator (clock read); each returned answer is differentiated independently and compared with the integrand"
)
ASSUMPTIONS = [
    "the search is cut by a virtual clock after a fixed number of cycles, not by real time",
    "equality of functions is judged at 11 fixed points, wherever both functions are defined there",
]
REPLAY = """from mc import env; env.install()
from mc import integ
from mc.ops import *
r = integ.search(%(t)s, %(v)s, cap=%(cap)d)
print("answer:", r.answer, r.error)
print(integ.derivative_matches(r.answer, %(t)s, %(v)r))
"""
NS = dict(O.__dict__)


def build(t):
    try:
        with harness.limit(10):
            ex = eval(t, NS)
            return None if O.has_inf(ex) else ex
    except Exception:
        return None


def judge(acc, key, integrand, var, r, replay, points=integ.BASE_POINTS + integ.MORE_POINTS, allow=()):
    """common oracle for one finished search; returns True if an answer was given and is right"""
    if isinstance(r.error, harness.CpuTimeout):
        acc.violation(key, "the integrator did not come back (more than the CPU limit, the clock had struck after %d reads)" % r.reads, replay)
        return False
    if r.error is not None:
        acc.violation(key, "raised %r" % (r.error,), replay)
        return False
    if r.answer is None:
        acc.note("not solved")
        return False
    extra = integ.fsyms(r.answer) - integ.fsyms(integrand) - {var} - set(allow)
    if extra:
        acc.violation(key, "answer %r contains foreign variables %s" % (r.answer, sorted(extra)), replay)
        return False
    if O.has_inf(r.answer):
        acc.violation(key, "answer %r is not finite" % (r.answer,), replay)
        return False
    n, bad, lost = integ.derivative_matches(r.answer, integrand, var, points)
    if bad:
        acc.violation(key, "answer %r: at %s=%s the integrand is %r, the answer's derivative %r" % (r.answer, var, bad[0], bad[1], bad[2]), replay)
        return False
    if n == 0:
        defined, _, _ = integ.derivative_matches_self(integrand, var, points)
        if defined:
            acc.violation(key, "answer %r has a derivative nowhere where the integrand exists" % (r.answer,), replay)
            return False
        acc.note("nothing to compare")
        return False
    acc.validated += n
    acc.note("solved")
    return True


def tasks(tier):
    L = intspace.integrands(tier) + intspace.KNOWN
    m = 256 if tier == "quick" else 1024
    cap = 14 if tier == "quick" else 18
    return [(L[i::m], cap) for i in range(m)]


def run(task, acc):
    L, cap = task
    for t in L:
        ex = build(t)
        if ex is None:
            acc.note("not constructible")
            continue
        acc.state(fp.h64(fp.key(ex)))
        r = integ.search(ex, x, cap=cap, cpu=90)
        acc.transitions += r.reads
        replay = REPLAY % {"t": t, "v": "x", "cap": cap}
        replay = replay.replace("derivative_matches(r.answer, %s, x)" % t, "derivative_matches(r.answer, %s, 'x')" % t)
        if judge(acc, "integrate(%s, x)" % t, ex, "x", r, replay):
            acc.state(fp.h64(fp.key(r.answer)))
            acc.sample("integrate(%s) = %r" % (t, r.answer))
