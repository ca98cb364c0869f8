"""C15: a reported match fills into the pattern to give the expression; instances are found.

Every pattern of the alphabet is matched by the real matcher against every filling of it, every filling times a factor, plus
further terms, both, and against every other expression of the alphabet (near misses); each reported success is decided by
filling the reported matches in."""
import itertools

from simpy.regex import Any_, any_, eq

from mc import fp, harness
from mc import ops as O
from mc import space
from mc import val as V
from mc.checks.c16 import nodes, parts, ref_replace
from mc.ops import *  # noqa: F401,F403

ID = "C15"
LEVEL = "model_checking"
RULE = (
    "state = (pattern, expression, mode); transition = one run of the real matcher; a success is checked by filling in (structure or value at 6 points), "
    "a failure against a reference matcher that tries every assignment of terms"
)
ASSUMPTIONS = [
    "completeness is required for patterns whose placeholder stands inside functions, and of expressions in which the constructors kept the filled-in pattern's shape",
]
A, B, X1 = Any_("A"), Any_("B"), Any_("x")
NS = dict(O.__dict__)
NS.update(A=A, B=B, X1=X1, any_=any_)
# one placeholder, inside functions: instances must be found
P1 = ["sin(A)", "tan(A)**2", "sin(A)*cos(A)", "log(A)", "x*sin(A)", "2*sin(A)", "-sin(A)", "sin(A)**3", "abs(A)", "log(A)**2", "sin(A)**2*cos(A)", "sin(A)/cos(A)", "sec(A)*tan(A)", "sin(A)*sec(A)", "cos(A)*csc(A)", "1/sin(A)**2", "y*tan(A)/3", "asin(A)", "sqrt(sin(A))", "sin(cos(A))", "atan(A)*log(A)", "e**sin(A)", "2**A", "e**A", "y*e**A", "sin(X1)*cos(X1)", "sin(any_)**2", "Rat(3)", "x*y", "sin(x)", "log(A, Rat(2))", "x**A"]
P1S = ["sin(A)+cos(A)", "1+tan(A)**2", "1-sin(A)**2", "1-cos(A)**2", "-1+sec(A)**2", "1+cot(A)**2", "-1+csc(A)**2", "sin(A)**2+cos(A)**2", "log(A)+1", "1+tan(X1)**2", "sin(any_)**2+cos(any_)**2", "sin(A)**2+sin(A)+1", "x*sin(A)+cos(A)", "sin(X1)**2+cos(X1)**2", "e**A+1", "x+sin(y)", "log(A)-x*sin(A)"]
# placeholders anywhere: what is reported must be right
P2 = ["A", "A**2", "sqrt(A)", "1/A", "x*A", "2*A", "sin(2*A)", "sin(A+1)", "cos(x*A)", "e**(2*A)", "A*sin(A)", "A*e**A", "(A+1)**2", "1/(1+A**2)", "1/(1+x*A)", "A**A", "sin(A)*cos(B)", "A**B", "log(A,B)", "sin(A)*sin(B)", "A*sin(B)", "A*log(B)", "e**A*e**B", "A*B", "A*log(A,B)", "x**A*y**B", "tan(A)*sin(B)**2", "asin(A)/B"]
P2S = ["2*sin(A)*cos(A)+1", "sec(A)**2-tan(A)**2", "A+1", "x+A", "A+sin(A)", "sin(A)+cos(B)", "sin(A)+sin(B)", "sin(A)*cos(B)+cos(A)*sin(B)", "sin(A)*cos(B)-cos(A)*sin(B)", "log(A)-log(B)", "log(A)+log(B)", "A+B", "tan(A)-tan(B)", "sin(A)**2+sin(B)**2+1", "2*A+B", "A**2-B**2", "sin(A)**2+cos(B)**2", "x*A+y*B", "1+A**2", "A*sin(A)+cos(B)"]
F = ["x", "y", "2*x", "x+1", "x*y", "x+y", "Rat(2)", "sqrt(x)", "sin(x)", "e**x", "x**2", "1/x", "-x", "x-y", "pi", "log(y)", "a_b", "sin(x)**2", "x**y", "pi*x", "Rat(1, 2)", "xx"]
FACT = ["Rat(3)", "Rat(-1)", "Rat(1, 2)", "x", "y", "sin(y)", "sqrt(2)", "1/x", "-2*y", "e**x", "cos(x)*y", "pi", "Float(0.5)", "sin(x)", "tan(x)"]
REST = ["Rat(2)", "x", "sin(y)**2", "cos(x)**2*2", "tan(x)", "y*x + 3", "sin(z) + cos(z)", "log(z)", "e**x", "-5**cos(x)**2", "Rat(1)", "sin(x)**2", "tan(y)**2", "x*sin(y) + 1", "sec(x+1)**2", "-sin(y)**2 - cos(y)**2"]
NS["a_b"], NS["xx"] = Symbol("a_b"), Symbol("xx")
ENVS = [dict(e, a_b=e["x"], xx=e["y"]) for e in O.ENVS]
# the matcher's tests give the factor of a pattern with a factor of its own the other way round
NUM = {p: 1 for p in ["2*sin(A)", "-sin(A)", "y*tan(A)/3", "x*sin(A)", "y*e**A", "x*y", "Rat(3)", "2*A", "x*A"]}
SHARED = {}


def mk(t, **kw):
    ns = dict(NS)
    ns.update(kw)
    try:
        with harness.limit(10):
            return eval(t, ns)
    except Exception:
        return None


def fills(p, thin=1, every=1):
    """(text of the filling, instance) of a pattern"""
    two = "B" in p
    L = [F, F[: max(6, len(F) // thin)]] if two else [F]
    for fs in list(itertools.product(*L))[::every]:
        a = mk(fs[0])
        b = mk(fs[1]) if two else None
        q = p.replace("any_", "A").replace("X1", "A")
        ex = mk(q, A=a, B=b)
        if ex is not None and not O.has_inf(ex):
            yield ", ".join(fs), ex


def assignments(q, e):
    """every assignment of the placeholders for which the pattern, written out, is the expression (terms in any order)"""
    n = q.__class__.__name__
    if n == "Any_":
        yield {q.key: fp.ckey(e)}
        return
    if n != e.__class__.__name__:
        return
    pq, pe = parts(q), parts(e)
    if not pq:
        if fp.ckey(q) == fp.ckey(e):
            yield {}
        return
    if len(pq) != len(pe):
        return
    if n in ("Sum", "Prod"):
        yield from cover(pq, pe, {}, True)
    else:
        yield from series(pq, pe, {})


def joined(m, d):
    for k, v in d.items():
        if m.get(k, v) != v:
            return None
    out = dict(m)
    out.update(d)
    return out


def series(pq, pe, m):
    if not pq:
        yield m
        return
    for d in assignments(pq[0], pe[0]):
        j = joined(m, d)
        if j is not None:
            yield from series(pq[1:], pe[1:], j)


def cover(pq, pe, m, all_):
    """each term of the pattern is a different term of the expression"""
    if not pq:
        if not all_ or not pe:
            yield m
        return
    for i in range(len(pe)):
        for d in assignments(pq[0], pe[i]):
            j = joined(m, d)
            if j is not None:
                yield from cover(pq[1:], pe[:i] + pe[i + 1 :], j, all_)


def instance(q, e, within=False):
    if within:
        return next(cover(parts(q), parts(e), {}, False), None) is not None
    return next(assignments(q, e), None) is not None


def anys(q):
    return {n.key for n in nodes(q) if n.__class__.__name__ == "Any_"}


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return space.stages(0, carry)
    if stage == 1:
        l1 = space.layer1()
        rest = sorted({h: t for out in carry for h, t in out if h not in l1}.values(), key=lambda t: (len(t), t))
        n = 300 if tier == "quick" else 12000
        SHARED["exprs"] = sorted(l1.values(), key=lambda t: (len(t), t)) + rest[:: max(1, len(rest) // n)]
        out = [("inst", p, k, tier) for p in P1 + P1S + P2 + P2S for k in ("plain", "factor", "terms", "both")]
        out += [("cross", p, tier) for p in P1 + P1S + P2 + P2S]
        out += [("any", p, tier) for p in P1 + P1S + P2 + P2S]
        return out
    return None


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    p = task[1]
    q = mk(p)
    must = p in P1 + P1S
    quick = task[-1] == "quick"
    issum = q.__class__.__name__ == "Sum"
    if task[0] == "cross":
        for p2 in P1 + P1S + P2[:8] + P2S[3:7]:
            if p2 == p:
                continue
            for ft, ex in fills(p2, 4, 12 if quick else 1):
                one(acc, p, q, "%s with %s" % (p2, ft), ex, False, False, must)
                if issum and ex.__class__.__name__ == "Sum":
                    one(acc, p, q, "%s with %s" % (p2, ft), ex, False, True, must)
                    one(acc, p, q, "%s with %s" % (p2, ft), ex, True, True, False)
                one(acc, p, q, "%s with %s" % (p2, ft), ex, True, False, False)
        return
    if task[0] == "any":
        for t in SHARED["exprs"][(len(p) % 8 if quick else 0) :: 8 if quick else 1]:
            ex = space.build(t)
            one(acc, p, q, t, ex, False, False, must)
            one(acc, p, q, t, ex, True, False, False)
            if issum and ex.__class__.__name__ == "Sum":
                one(acc, p, q, t, ex, False, True, must)
                one(acc, p, q, t, ex, True, True, False)
        return
    kind = task[2]
    two = "B" in p
    for ft, ex in fills(p, 4 if quick and kind != "plain" else 1, 3 if quick and two and kind != "plain" else 1):
        if kind == "plain":
            one(acc, p, q, "the pattern with " + ft, ex, False, False, must)
            # the arguments may be swapped
            if any(n.__class__.__name__ == "Any_" for n in nodes(q)):
                one(acc, p, q, "the pattern with " + ft, ex, False, False, must, swapped=True)
        elif kind == "factor":
            for f in ["Rat(1)"] + FACT:
                fe = mk(f)
                e2 = mk("(E*G)", E=ex, G=fe)
                if e2.__class__.__name__ == "Prod" and issum:
                    e2 = e2.expand() if e2.expandable() else e2
                keep = must and "-" not in p and one_factor(fe, ex, e2) and instance(q, ex)
                one(acc, p, q, "%s times the pattern with %s" % (f, ft), e2, True, False, keep)
        elif issum:
            for r in REST[len(ft) % 6 if quick and kind == "both" else 0 :: 6 if quick and kind == "both" else 1]:
                re_ = mk(r)
                if kind == "terms":
                    e2 = mk("(E + R)", E=ex, R=re_)
                    if e2.__class__.__name__ != "Sum":
                        continue
                    one(acc, p, q, "the pattern with %s, plus %s" % (ft, r), e2, False, True, must)
                else:
                    for f in FACT[:6]:
                        e2 = mk("(E*G).expand() + R", E=ex, G=mk(f), R=re_)
                        if e2.__class__.__name__ != "Sum":
                            continue
                        one(acc, p, q, "%s times the pattern with %s, plus %s" % (f, ft, r), e2, True, True, False)


def one_factor(f, ex, e2):
    """the product is the instance's factors and f, unmerged"""
    n = f.__class__.__name__
    if n != "Rat":
        return False
    if ex.__class__.__name__ == "Sum":
        return e2.__class__.__name__ == "Sum" and len(parts(e2)) == len(parts(ex))
    k = [fp.ckey(e) for e in (parts(ex) if ex.__class__.__name__ == "Prod" else [ex])]
    return sorted(fp.ckey(e) for e in parts(e2)) == sorted(k + [fp.ckey(f)])


def one(acc, p, q, text, ex, upf, ups, must, swapped=False):
    if upf and p in NUM:
        return
    acc.transitions += 1
    acc.state(fp.h64("%s|%s|%d%d" % (p, fp.key(ex), upf, ups)))
    key = "eq(%s, %s%s%s)" % (ex, q, ", up_to_factor=True" if upf else "", ", up_to_sum=True" if ups else "")
    if swapped:
        key = "eq(%s, %s)" % (q, ex)
    replay = "from mc.checks.c15 import *\n# %s\nq = mk(%r)\nprint(q)\n" % (text, p)
    try:
        with harness.limit(20):
            r = eq(q, ex) if swapped else eq(ex, q, up_to_factor=upf, up_to_sum=ups)
    except NotImplementedError as e:
        if "ambiguous" in str(e) and len(anys(q)) + upf > 1:
            acc.note("ambiguous pattern refused")
            return
        acc.violation(key, "%s: raised %r" % (text, e), replay)
        return
    except Exception as e:
        acc.violation(key, "%s: raised %r" % (text, e), replay)
        return
    if not r["success"]:
        if must and (upf or instance(q, ex, within=ups)):
            acc.violation(key, "%s: not recognised" % text, replay)
        else:
            acc.validated += 1
        return
    want = {"success", "matches"} | ({"factor"} if upf else set()) | ({"rest"} if ups else set())
    if set(r) != want:
        acc.violation(key, "%s: the result has %s" % (text, sorted(r)), replay)
        return
    m = r["matches"]
    keys = anys(q)
    if len(keys) == 1 and not isinstance(m, dict):
        m = {next(iter(keys)): m}
    if not isinstance(m, dict) or set(m) != keys:
        acc.violation(key, "%s: matches are %r, placeholders are %s" % (text, r["matches"], sorted(keys)), replay)
        return
    try:
        back = ref_replace(q, lambda n: n.__class__.__name__ == "Any_", lambda n: m[n.key])
        if upf:
            back = back * r["factor"]
        if ups:
            back = back + r["rest"]
    except Exception as e:
        acc.violation(key, "%s: the matches %r cannot be filled in: %r" % (text, dict(r), e), replay)
        return
    if fp.ckey(back) == fp.ckey(ex):
        acc.validated += 1
        return
    a, b = O.values(ex, ENVS), O.values(back, ENVS)
    d = [V.cmp(u, v) for u, v in zip(a, b)]
    if V.DIFF in d or any(n.__class__.__name__ == "Any_" for n in nodes(back)):
        acc.violation(key, "%s: %r fills in to %r" % (text, {k: str(v) for k, v in r.items()}, back), replay)
        return
    if V.SAME in d:
        acc.validated += 1
    else:
        acc.skipped += 1
