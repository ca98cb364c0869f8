"""Running the integrator as a closed system, and checking what it did.

search() runs one complete search in a World (clock and identifiers owned by the harness) and returns the answer
together with the goal tree, taken from the documented `Integration.logger` hook.

steps() is the local oracle: for every edge parent -> child of the tree it asks whether "an antiderivative of the
child, carried back through the step, is an antiderivative of the parent". The antiderivative of the child is an opaque
function G with G' = child integrand (class Opaque), so the question has an answer for every edge, solved or not."""
import warnings

from simpy import integration as _I
from simpy.expr import Expr, SingleFunc, Symbol

from . import dual as D
from . import env as W
from . import fp, harness
from . import val as V

warnings.simplefilter("ignore")


class Recorder:
    def __init__(self):
        self.roots = []

    def log(self, expr, time_spent, root):
        self.roots.append((expr, root))


class Result:
    __slots__ = ("answer", "error", "roots", "reads", "ids", "struck")


def search(integrand, bounds, expire_at=None, ids=(0,), cap=60, cpu=60, budget=2.5, **kw):
    """one complete search. cap: clock reads after which the (virtual) time limit strikes"""
    r = Result()
    rec = Recorder()
    r.answer = r.error = None
    old = _I.Integration.logger
    _I.Integration.logger = rec
    w = W.World(expire_at=cap if expire_at is None else expire_at, ids=ids, cpu_budget=budget)
    try:
        with w:
            try:
                with harness.limit(cpu):
                    r.answer = _I.integrate(integrand, bounds, **kw)
            except harness.CpuTimeout as e:
                r.error = e
            except Exception as e:
                r.error = e
    finally:
        _I.Integration.logger = old
    r.roots = rec.roots
    r.reads = w.reads
    r.ids = w.choices
    r.struck = w.struck
    return r


# ---- evaluation with opaque antiderivatives ------------------------------------------------------


def fsyms(ex, out=None):
    out = set() if out is None else out
    if ex.__class__.__name__ == "Symbol":
        out.add(ex.name)
    for c in ex.children():
        fsyms(c, out)
    return out


BASE_POINTS = (0.137, 0.374, 0.613, 0.829, 1.213)
MORE_POINTS = (1.731, 2.417, 5.03, -0.271, -0.713, -1.37)
PARAMS = {"a": 0.737, "b": 1.391, "c": 0.583, "k": 1.117, "m": 0.291, "n": 1.733, "p": 0.853, "w": 0.931, "y": 0.619, "z": 1.271, "t": 0.447, "phi": 0.377}


def env_for(ex, extra=()):
    return {s: (PARAMS.get(s, 0.4 + (sum(map(ord, s)) % 89) / 100.0), 0.0) for s in set(fsyms(ex)) | set(extra)}


def derivative_matches(answer, integrand, var, points=BASE_POINTS + MORE_POINTS, rtol=1e-8):
    """compares d(answer)/dvar with the integrand at every point where both exist.
    returns (number of points compared, first bad point or None, number of points where only the integrand exists)"""
    env = env_for(integrand, fsyms(answer))
    n = lost = 0
    bad = None
    for p in points:
        env[var] = (p, 0.0)
        want = V.ev(integrand, env)
        if want is None or want[1] == V.INF:
            continue
        v, d = D.dev(answer, env, var)
        if v is None or d is None:
            lost += 1
            continue
        c = V.cmp(want, d, rtol)
        if c == V.SAME:
            n += 1
        elif c == V.DIFF and bad is None:
            bad = (p, want[0], d[0])
    return n, bad, lost


# ---- the local oracle ----------------------------------------------------------------------------


class Opaque(SingleFunc):
    """G(inner) where G is an unknown antiderivative of `integrand` with respect to `var`"""

    integrand = None
    var = None
    _fields_already_casted = True

    def __init__(self, inner):
        self.inner = inner
        self.__post_init__()

    @property
    def _label(self):
        return "G"

    def diff(self, var):
        raise NotImplementedError

    def _evalf(self, subs):
        raise NotImplementedError

    def __eq__(self, other):
        return isinstance(other, type(self)) and self.inner == other.inner

    __hash__ = None


def opaque(integrand, var):
    """a fresh class per antiderivative, so that rebuilding an expression (class(inner)) keeps its meaning"""

    class G(Opaque):
        pass

    G.integrand = integrand
    G.var = var
    return G


class StepDual:
    """dual-number evaluation of expressions containing opaque antiderivatives: only the derivative is known, the value
    is not, so an opaque value may only occur linearly (constants times it, sums)"""

    @staticmethod
    def dev(e, env, var):
        if isinstance(e, Opaque):
            u, du = D.dev(e.inner, env, var)
            if u is None or du is None:
                return None
            env2 = dict(env)
            env2[e.var.name] = u
            return D.dmul(V.ev(e.integrand, env2), du)
        n = e.__class__.__name__
        if not _has_opaque(e):
            return D.dev(e, env, var)[1]
        if n == "Sum":
            tot = D.ZERO
            for t in e.terms:
                tot = V.add(tot, StepDual.dev(t, env, var))
            return tot
        if n == "Prod":
            lin = [t for t in e.terms if _has_opaque(t)]
            rest = [t for t in e.terms if not _has_opaque(t)]
            if len(lin) == 1:
                c = D.ONE
                for t in rest:
                    v, d = D.dev(t, env, var)
                    if d is not None and not (d == D.ZERO or abs(d[0]) <= 8 * d[1] + 1e-12):
                        raise NotLinear("the antiderivative of the child is multiplied by %r, which depends on the variable" % t)
                    c = V.mul(c, v)
                return V.mul(c, StepDual.dev(lin[0], env, var))
        raise NotLinear("the antiderivative of the child occurs non-linearly in %s" % n)


class NotLinear(Exception):
    pass


def _has_opaque(e):
    return isinstance(e, Opaque) or any(_has_opaque(c) for c in e.children())


def nodes(root):
    todo = [root]
    while todo:
        n = todo.pop()
        yield n
        todo.extend(n.children)


def step_name(n):
    return n.transform.__class__.__name__


def walk(root, points):
    """yields (node, parent, points at which the node's own variable lives) for every node below the root.

    The points of a child reached by a change of variable are the images of its parent's points."""
    todo = [(root, list(points))]
    while todo:
        p, pts = todo.pop()
        for c in p.children:
            cpts = ppts = pts
            if c.var.name != p.var.name and not c.is_filler:
                u = carry_back(c, p, c.var)
                cpts = []
                if u is not None:
                    ppts = principal(u, p.var.name, pts)
                    for q in ppts:
                        env = env_for(u)
                        env[p.var.name] = (q, 0.0)
                        v = V.ev(u, env)
                        if v is not None and v[1] < 1e-9:
                            cpts.append(v[0])
            yield c, p, ppts
            todo.append((c, cpts))


def principal(u, var, pts):
    """substituting u = sin or cos of the variable divides by sqrt(1 - u^2): only meant on the principal branch"""
    n = u.__class__.__name__
    if n not in ("sin", "cos") or u.inner.__class__.__name__ != "Symbol" or u.inner.name != var:
        return pts
    lo, hi = (-1.57, 1.57) if n == "sin" else (0.0, 3.14)
    return [q for q in pts if lo <= q <= hi]


def carry_back(child, parent, solution):
    """parent's antiderivative if `solution` is the child's; the tree is left as it was"""
    keep = (child.solution, parent.solution)
    try:
        child.solution = solution
        child.transform.backward(child)
        return parent.solution
    finally:
        child.solution, parent.solution = keep


def compare_step(want_expr, var, fn, pts):
    """(compared, bad) over the points; fn(env) gives the derivative of the carried-back antiderivative"""
    n = 0
    for q in pts:
        env = env_for(want_expr)
        env[var] = (q, 0.0)
        want = V.ev(want_expr, env)
        if want is None or want[1] == V.INF:
            continue
        got = fn(env)
        if got is None:
            continue
        c = V.cmp(want, got, 1e-7)
        if c == V.SAME:
            n += 1
        elif c == V.DIFF:
            return n, (q, want[0], got[0])
    return n, None


class Env(dict):
    """parameters get their value on first use"""

    def __missing__(self, s):
        v = (PARAMS.get(s, 0.4 + (sum(map(ord, s)) % 89) / 100.0), 0.0)
        self[s] = v
        return v


def check_steps(root, points=BASE_POINTS + MORE_POINTS):
    """yields (kind, parent node, child node or None, compared points, bad or None, error or None) per step"""
    grouped = set()
    for c, p, pts in walk(root, points):
        t = step_name(c)
        if p.is_filler or c.is_filler or t == "Additivity":
            # steps whose children belong together are examined once, from the parent
            if id(p) in grouped or t != "Additivity":
                continue
            grouped.add(id(p))
            if p.is_filler and circular(p):
                continue
            kids = list(p.children)

            def total(env, kids=kids, p=p):
                tot = D.ZERO
                for k in kids:
                    if k.is_filler:
                        tot = V.add(tot, D.dev(k.solution, env, p.var.name)[1])
                    else:
                        tot = V.add(tot, V.ev(k.expr, env))
                return tot

            def fn(env, total=total):
                return total(Env(env))

            n, bad = compare_step(p.expr, p.var.name, fn, pts)
            yield t, p, None, n, bad, None
            continue
        if c.var.name != p.var.name and p.var.name in fsyms(c.expr):
            yield t, p, c, 0, None, "the old variable %s is still in the integrand" % p.var.name
            continue
        try:
            sol = carry_back(c, p, opaque(c.expr, c.var)(c.var))
        except Exception as e:
            yield t, p, c, 0, None, "carrying an antiderivative back raised %r" % e
            continue
        try:
            n, bad = compare_step(p.expr, p.var.name, lambda env: StepDual.dev(sol, Env(env), p.var.name), pts)
        except NotLinear as e:
            yield t, p, c, 0, None, str(e)
            continue
        yield t, p, c, n, bad, None


def circular(filler):
    """an integration by parts that was closed by going in a circle: its first part was rescaled in place"""
    for n in nodes(filler):
        if n is not filler and n.is_filler and not n.children and step_name(n) == "ByParts":
            return True
    return False


def derivative_matches_self(integrand, var, points):
    """how many of the points the integrand is defined at"""
    env = env_for(integrand)
    n = 0
    for p in points:
        env[var] = (p, 0.0)
        v = V.ev(integrand, env)
        if v is not None and v[1] < 1e-6:
            n += 1
    return n, None, 0
