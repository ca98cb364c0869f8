"""C16: searching and replacing inside expressions is complete and exact.

Every expression of the bounded space times an alphabet of queries: counting, containing, listing symbols, replacing (by
expression, by class, by condition) and comparing up to the variable's name, against a structural reference."""
import itertools

from simpy.regex import contains_cls, count, general_contains, general_count, kinder_replace, kinder_replace_many, replace, replace_class, replace_factory, replace_factory_list
from simpy.utils import count_symbols, eq_with_var

import simpy.expr as X
from mc import fp, harness
from mc import ops as O
from mc import space
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C16"
LEVEL = "model_checking"
RULE = (
    "state = expression; transition = one search or replacement by the real code, compared with a walk over the expression's fields "
    "(counts, sets, structure) and by value at 6 points"
)
ASSUMPTIONS = ["a replacement that completes a pattern is rewritten by the constructors; structure is compared with the constructors applied to the replaced parts"]
REPLAY = "from mc.ops import *\nfrom simpy.regex import *\nfrom simpy.utils import *\nw, u = symbols('w u')\nprint(%s)\n"
NS = dict(O.__dict__)
w, u = symbols("w u")
NS.update(w=w, u=u)
QUERIES = ["x", "y", "w", "e", "pi", "Rat(1)", "Rat(2)", "Rat(-1)", "Rat(1, 2)", "x + 1", "x + y", "x*y", "-x", "x**2", "1/x", "sqrt(x)", "e**x", "log(x)", "sin(x)", "cos(x)", "tan(x)", "sin(y)", "abs(x)", "2*x", "x/y", "x - y", "x**y", "asin(x)", "Symbol('e')"]
CLASSES = ["Symbol", "Rat", "Float", "Sum", "Prod", "Power", "log", "sin", "cos", "tan", "sec", "csc", "cot", "asin", "acos", "atan", "Abs", "Pi", "E", "Num", "SingleFunc", "TrigFunction"]
RENAMES = [("x", "w"), ("y", "w"), ("x", "a"), ("y", "a"), ("x", "zz"), ("y", "B")]
TRIG = {"tan": lambda t: sin(t) / cos(t), "sec": lambda t: 1 / cos(t), "csc": lambda t: 1 / sin(t), "cot": lambda t: cos(t) / sin(t)}
BIG = ["sin(x) + sin(y) + sin(x)*cos(y)", "sin(sin(sin(x)))", "(x + 1)**2*(x + 1)**y", "log(x + 1, x + 2)", "e**(x + 1) + log(x + 1)*(x + 1)", "(x*y + 1)*(x*y + 2)/(x*y)", "x + y + z", "x*y*z + z", "abs(x + y)*abs(x - y)", "tan(x)*sec(x) + cot(2*x)*csc(x)**2", "tan(sec(x) + 1)", "sin(x)**2 + cos(x)**2", "2*x + 2*y + 2", "x**2 + x**3 + 2*x", "y*sin(2*x) - z*cos(2*x)", "1/(x + 1) + 1/(x + 1)**2", "asin(x)*acos(x)*atan(x)", "log(log(x)) + log(x, Rat(2))", "z/(x*y)", "a_b*x + a_b"]
NS["a_b"] = Symbol("a_b")
CACHE = {}


def parts(ex):
    n = ex.__class__.__name__
    if n in ("Sum", "Prod"):
        return list(ex.terms)
    if n == "Power":
        return [ex.base, ex.exponent]
    if n == "log":
        return [ex.inner, ex.base]
    if hasattr(ex, "inner"):
        return [ex.inner]
    return []


def nodes(ex):
    yield ex
    for p in parts(ex):
        yield from nodes(p)


def ref_count(ex, cond):
    """topmost hits"""
    if cond(ex):
        return 1
    return sum(ref_count(p, cond) for p in parts(ex))


def ref_replace(ex, cond, new):
    if cond(ex):
        return new(ex)
    ps = parts(ex)
    if not ps:
        return ex
    ns = [ref_replace(p, cond, new) for p in ps]
    n = ex.__class__.__name__
    if n == "Sum":
        return Sum(ns)
    if n == "Prod":
        return Prod(ns)
    if n == "Power":
        return Power(ns[0], ns[1])
    if n == "log":
        return log(ns[0], ns[1])
    return ex.__class__(ns[0])


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return space.stages(0, carry)
    if stage == 1:
        seen = {}
        for out in carry:
            for h, t in out:
                seen.setdefault(h, t)
        l1 = space.layer1()
        for h in l1:
            seen.pop(h, None)
        rest = sorted(seen.values(), key=lambda t: (len(t), t))
        n = 3500 if tier == "quick" else len(rest)
        L = BIG + sorted(l1.values(), key=lambda t: (len(t), t)) + rest[:: max(1, len(rest) // n)]
        m = 128
        CACHE["list"] = L
        small = (BIG + sorted(l1.values(), key=lambda t: (len(t), t)))[: 420 if tier == "quick" else 2000]
        CACHE["small"] = small
        return [("chk", i, m) for i in range(m)] + [("names", i, 32) for i in range(32)]
    return None


def check(acc, key, fn, want, same=lambda a, b: a == b and type(a) is type(b)):
    acc.transitions += 1
    try:
        with harness.limit(10):
            got = fn()
    except Exception as ex:
        acc.violation(key, "raised %r, it should be %r" % (ex, want), REPLAY % key)
        return
    if not same(got, want):
        acc.violation(key, "is %r, it should be %r" % (got, want), REPLAY % key)
    else:
        acc.validated += 1


def attempt(fn):
    try:
        with harness.limit(10):
            return fn()
    except Exception as ex:
        return ex


def structure(acc, key, fn, ref, model=None, envs=None):
    """replacement: same structure as the reference (or the same failure of a constructor), and the modelled value"""
    acc.transitions += 1
    got, want = attempt(fn), attempt(ref)
    if isinstance(want, Exception):
        if not isinstance(got, Exception):
            acc.note("replacement built although the parts are not")
        return None
    if isinstance(got, Exception):
        acc.violation(key, "raised %r, it should be %r" % (got, want), REPLAY % key)
        return None
    if fp.ckey(got) != fp.ckey(want):
        acc.violation(key, "is %r, it should be %r" % (got, want), REPLAY % key)
        return None
    acc.validated += 1
    return got


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    if task[0] == "names":
        return names(task, acc)
    Q = [(q, eval(q, NS)) for q in QUERIES]
    C = [(c, getattr(X, c)) for c in CLASSES]
    for t in CACHE["list"][task[1] :: task[2]]:
        ex = space.build(t) if "a_b" not in t else eval(t, NS)
        acc.state(fp.h64(fp.key(ex)))
        before = fp.key(ex)
        all_nodes = list(nodes(ex))
        syms = {n.name for n in all_nodes if n.__class__.__name__ == "Symbol"}
        check(acc, "[s.name for s in (%s).symbols()]" % t, lambda: sorted(s.name for s in ex.symbols()), sorted(syms))
        check(acc, "count_symbols(%s)" % t, lambda: count_symbols(ex), sum(1 for n in all_nodes if n.__class__.__name__ == "Symbol"))
        for v in ("x", "y", "z", "w", "e", "xx"):
            check(acc, "(%s).contains(Symbol(%r))" % (t, v), lambda: ex.contains(Symbol(v)), v in syms)
        for cn, cls in C:
            has = any(isinstance(n, cls) for n in all_nodes)
            check(acc, "(%s).has(%s)" % (t, cn), lambda: ex.has(cls), has)
            check(acc, "contains_cls(%s, %s)" % (t, cn), lambda: contains_cls(ex, cls), has)
            if has:
                check(acc, "general_count(%s, lambda n: isinstance(n, %s))" % (t, cn), lambda: general_count(ex, lambda n: isinstance(n, cls)), ref_count(ex, lambda n: isinstance(n, cls)))
                check(acc, "general_contains(%s, lambda n: isinstance(n, %s) and n is not ex)" % (t, cn), lambda: general_contains(ex, lambda n: isinstance(n, cls) and n is not ex), any(isinstance(n, cls) for n in all_nodes if n is not ex))
        for q, qe in Q:
            ck = fp.ckey(qe)
            hit = lambda n: fp.ckey(n) == ck
            c = ref_count(ex, hit)
            check(acc, "count(%s, %s)" % (t, q), lambda: count(ex, qe), c)
            news = (("w", w),) if not c else (("w", w), ("(%s + 1)" % q, qe + 1), ("cos(u)", cos(u)), ("Rat(3)", Rat(3)))
            for nn, ne in news:
                key = "replace(%s, %s, %s)" % (t, q, nn)
                got = structure(acc, key, lambda: replace(ex, qe, ne), lambda: ref_replace(ex, hit, lambda n: ne))
                if got is None:
                    continue
                if not c:
                    if fp.key(got) != before and fp.ckey(got) != fp.ckey(attempt(lambda: ref_replace(ex, lambda n: False, None))):
                        acc.violation(key, "changed an expression without the query into %r" % (got,), REPLAY % key)
                    continue
                if nn == "w":
                    if ref_count(got, hit) and q not in ("Rat(1)", "Rat(2)", "Rat(-1)", "Rat(1, 2)"):
                        acc.violation(key, "still contains it: %r" % (got,), REPLAY % key)
                    if q in ("x", "y", "w", "sin(x)", "cos(x)", "e**x", "log(x)", "x + y", "x + 1", "abs(x)", "tan(x)", "sin(y)", "asin(x)", "x - y"):
                        envs = []
                        for env in O.ENVS:
                            e2 = dict(env, a_b=env["x"])
                            e2["w"] = V.ev(qe, e2)
                            envs.append(e2)
                        for env, p in zip(envs, O.POINTS):
                            if env["w"] is None:
                                continue
                            a, b = V.ev(ex, env), V.ev(got, env)
                            if V.cmp(a, b) == V.DIFF:
                                acc.violation(key, "is %r: with w = %s it is %r at %r, the original %r" % (got, q, b, p, a), REPLAY % key)
                                break
                            acc.validated += 1
                if c and nn == "cos(u)":
                    k2 = "kinder_replace(%s, lambda n: cos(u) if n == %s else None, verbose=True)" % (t, q)
                    r = attempt(lambda: kinder_replace(ex, lambda n: ne if n == qe else None, verbose=True))
                    if not (isinstance(r, tuple) and fp.ckey(r[0]) == fp.ckey(got) and r[1] is True):
                        acc.violation(k2, "is %r, it should be (%r, True)" % (r, got), REPLAY % k2)
                    r = attempt(lambda: kinder_replace_many(ex, [lambda n: None, lambda n: ne if n == qe else None]))
                    if isinstance(r, Exception) or fp.ckey(r) != fp.ckey(got):
                        acc.violation(k2 + " as second of two", "is %r, it should be %r" % (r, got), REPLAY % k2)
                    r = attempt(lambda: kinder_replace(ex, lambda n: ne if n == qe else None, overarching_cond=lambda n: fp.ckey(n) != fp.ckey(ex) or n == qe))
                    want = got if hit(ex) else ex
                    if isinstance(r, Exception) or fp.ckey(r) != fp.ckey(want):
                        acc.violation(k2 + " under a condition", "is %r, it should be %r" % (r, want), REPLAY % k2)
                    # False stops below this part
                    stop = lambda n: False if n.__class__.__name__ in ("Power", "sin") else (ne if n == qe else None)
                    r = attempt(lambda: kinder_replace(ex, stop))
                    want = attempt(lambda: ref_replace(ex, lambda n: n.__class__.__name__ in ("Power", "sin") or hit(n), lambda n: n if n.__class__.__name__ in ("Power", "sin") else ne))
                    if not isinstance(want, Exception) and (isinstance(r, Exception) or fp.ckey(r) != fp.ckey(want)):
                        acc.violation(k2 + " stopping at powers and sines", "is %r, it should be %r" % (r, want), REPLAY % k2)
                    acc.validated += 4
            if not c:
                r = attempt(lambda: kinder_replace(ex, lambda n: w if n == qe else None, verbose=True))
                if not (isinstance(r, tuple) and r[1] is False):
                    acc.violation("kinder_replace(%s, lambda n: w if n == %s else None, verbose=True)" % (t, q), "is %r, nothing was to be replaced" % (r,), "")
        # simultaneous replacement of several things
        key = "replace_factory_list([lambda n: n == x, lambda n: n == y], [lambda n: y, lambda n: x])(%s)" % t
        structure(acc, key, lambda: replace_factory_list([lambda n: n == x, lambda n: n == y], [lambda n: y, lambda n: x])(ex), lambda: ref_replace(ex, lambda n: n.__class__.__name__ == "Symbol" and n.name in "xy", lambda n: y if n.name == "x" else x))
        if any(n.__class__.__name__ in TRIG for n in all_nodes):
            for cs in (["tan"], ["sec", "csc"], ["tan", "sec", "csc", "cot"]):
                key = "replace_class(%s, %s)" % (t, cs)
                acc.transitions += 1
                r = attempt(lambda: replace_class(ex, [getattr(X, c) for c in cs], [TRIG[c] for c in cs]))
                if isinstance(r, Exception):
                    if not isinstance(r, ZeroDivisionError):
                        acc.violation(key, "raised %r" % r, "")
                    continue
                left = {n.__class__.__name__ for n in nodes(r)} & set(cs)
                if left:
                    acc.violation(key, "is %r, which still has %s" % (r, sorted(left)), "")
                    continue
                if O.has_inf(r):
                    continue
                bad = O.mismatch(O.values(ex), O.values(r), acc, (ex, Rat(-1)))
                if bad:
                    acc.violation(key, "is %r: at %r %r instead of %r" % (r, O.POINTS[bad[0]], bad[2], bad[1]), "")
        if fp.key(ex) != before:
            acc.violation(t, "was changed into %r by searching in it" % (ex,), "")
    acc.sample("%d queries, %d classes on each expression" % (len(QUERIES), len(CLASSES)))


def names(task, acc):
    L = CACHE["small"]
    objs = {}
    for t in L:
        objs[t] = eval(t, NS)
    for t in L[task[1] :: task[2]]:
        a = objs[t]
        have = {n.name for n in nodes(a) if n.__class__.__name__ == "Symbol"}
        for v, nv in RENAMES:
            if nv in have:
                continue
            V1, V2 = Symbol(v), Symbol(nv)
            r = attempt(lambda: ref_replace(a, lambda n: n.__class__.__name__ == "Symbol" and n.name == v, lambda n: V2))
            if isinstance(r, Exception):
                continue
            key = "eq_with_var((%s, %s), (its renaming, %s))" % (t, v, nv)
            check(acc, key, lambda: eq_with_var((a, V1), (r, V2)), True)
            check(acc, "eq_with_var((renamed %s, %s), (it, %s))" % (t, nv, v), lambda: eq_with_var((r, V2), (a, V1)), True)
            # something else in place of the new variable, and an expression that differs elsewhere
            other = "q" if nv != "q" else "r"
            check(acc, key + " with another variable", lambda: eq_with_var((a, V1), (r, Symbol(other))), v not in have)
            for d, de in (("+ 1", r + 1), ("* 2", r * 2), ("+ the old variable", r + V1)):
                if fp.ckey(de) != fp.ckey(r):
                    check(acc, key + " " + d, lambda: eq_with_var((a, V1), (de, V2)), False)
        # all pairs: renaming x in a to w gives b?
        ra = attempt(lambda: ref_replace(a, lambda n: n.__class__.__name__ == "Symbol" and n.name == "x", lambda n: w))
        if isinstance(ra, Exception):
            continue
        ka = fp.ckey(ra)
        acc.state(fp.h64("n" + ka))
        for s in L:
            b = objs[s]
            rb = CACHE.setdefault("ren", {}).get(s)
            if rb is None:
                rb = attempt(lambda: ref_replace(b, lambda n: n.__class__.__name__ == "Symbol" and n.name == "x", lambda n: w))
                CACHE["ren"][s] = rb
            if isinstance(rb, Exception):
                continue
            check(acc, "eq_with_var((%s, x), (renamed %s, w))" % (t, s), lambda: eq_with_var((a, x), (rb, w)), ka == fp.ckey(rb))
