"""C13: a goal is solved or failed exactly when its subgoals say so.

static   every tree of goals up to the bound, every leaf state: the statuses of the real goal class at every goal against
         the AND/OR reference, and the choice of the next goal on every open tree
search   the real search loop is run on every abstract AND/OR problem up to the bound: table, safe steps and heuristics
         are replaced by ones that realise the problem. With a finite problem the search must end by itself, find a
         solution exactly when the problem has one, work only on open leaves, and return a genuine solution
real     the goal trees of real searches satisfy the same semantics, and agree with what the integrator answered"""
import itertools

from mc import env as W
from mc import fp, harness, integ, intspace, poly
from mc.checks import c09
from mc.ops import *  # noqa: F401,F403
from simpy import integration as SI
from simpy import transforms as ST
from simpy.transforms import Additivity, Node, Transform

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "static: state = tree of goals with leaf states, transition = one status query compared with the AND/OR reference; search: "
    "state = (abstract problem, strategy, nesting assignment), transition = one goal expanded by the real search loop; real: "
    "state = goal of a real search tree"
)
ASSUMPTIONS = ["in the search family the integral table and the transforms are replaced by scripted ones; the loop, the goal class, the choice of goals and the backward pass are the implementation's"]

# ---- static ----------------------------------------------------------------------------------------

LEAVES = ("u", "s", "f")


def shapes(depth, branch, ordered=False):
    """all trees: leaf states, ('1', t) for a single child, ('&', ...) and ('|', ...)"""
    level = list(LEAVES)
    for _ in range(depth):
        nxt = list(LEAVES)
        prod = (lambda n: itertools.product(level, repeat=n)) if ordered else (lambda n: itertools.combinations_with_replacement(level, n))
        nxt += [("1", t) for t in level]
        for op in "&|":
            for n in range(1, branch + 1):
                nxt += [(op,) + c for c in prod(n)]
        level = nxt
    return level


def ref(t):
    """(solved, failed)"""
    if t == "u":
        return False, False
    if t == "s":
        return True, False
    if t == "f":
        return False, True
    rs = [ref(c) for c in t[1:]]
    if t[0] == "|":
        return any(a for a, _ in rs), all(b for _, b in rs)
    return all(a for a, _ in rs), any(b for _, b in rs)


TYPE = {"u": "UNSET", "s": "SOLUTION", "f": "FAILURE", "1": "UNSET", "&": "AND", "|": "OR"}


def build(t, parent, ids, out):
    n = Node(Rat(1000 + next(ids)) * x, x, None, parent, type=TYPE[t[0]])
    if t[0] == "s":
        n.solution = x
    out.append((n, t))
    if len(t) > 1 and isinstance(t, tuple):
        for c in t[1:]:
            n.children.append(build(c, n, ids, out))
    return n


class NoEntry(Exception):
    pass


def next_goal(root, breadth):
    """the implementation's choice of the next goal from the root"""
    i = SI.Integration(breadth_first=breadth)
    fn = getattr(i, "_get_next_node_post_heuristic", None)
    if fn is None:
        raise NoEntry
    return fn(root)


def static(t, acc):
    nodes = []
    root = build(t, None, itertools.count(), nodes)
    key = "tree %s" % show(t)
    acc.state(fp.h64(key))
    rep = "from mc.checks import c13\nfrom mc import harness\nacc = harness.Acc()\nc13.static(%r, acc)\nprint(acc.violations)\n" % (t,)
    open_leaves = []
    status = {}

    def bad(what, got, want, sub):
        acc.violation(key, "%s of the goal %s is %r, its subgoals say %r" % (what, show(sub), got, want), rep)

    for n, sub in nodes:
        s, f = ref(sub)
        status[id(n)] = (s, f)
        acc.transitions += 3
        acc.validated += 3
        if bool(n.is_solved) != s:
            return bad("solved", n.is_solved, s, sub)
        if bool(n.is_failed) != f:
            return bad("failed", n.is_failed, f, sub)
        if bool(n.is_finished) != (s or f):
            return bad("finished", n.is_finished, s or f, sub)
        if not n.children and not s and not f:
            open_leaves.append(n)
    got = root.unfinished_leaves
    if [id(n) for n in got] != [id(n) for n in open_leaves]:
        return bad("list of open leaves", got, open_leaves, t)
    if [id(n) for n in root.leaves] != [id(n) for n, _ in nodes if not n.children]:
        return bad("list of leaves", root.leaves, "all of them", t)
    for n, sub in nodes:
        want = [id(c) for c in n.children if not any(status[id(c)])]
        if [id(c) for c in n.unfinished_children] != want:
            return bad("list of unfinished children", n.unfinished_children, len(want), sub)
        stale = not any(status[id(n)]) and any(any(status[id(p)]) for p in ancestors(n))
        if bool(n.is_stale) != stale:
            return bad("staleness", n.is_stale, stale, sub)
        if n.root is not root:
            return bad("root", n.root, "the root", sub)
        if n.distance_from_root != len(list(ancestors(n))):
            return bad("depth", n.distance_from_root, len(list(ancestors(n))), sub)
    acc.validated += 4
    if not any(status[id(root)]):
        for breadth in (False, True):
            try:
                g = next_goal(root, breadth)
            except NoEntry:
                acc.note("no entry point for the choice of goals")
                continue
            acc.transitions += 1
            if not any(g is n for n in open_leaves):
                return acc.violation(key, "the next goal chosen (breadth_first=%s) is %r, which is not an open leaf" % (breadth, g), rep)


def rev(t):
    return t if isinstance(t, str) else (t[0],) + tuple(rev(c) for c in t[:0:-1])


def ancestors(n):
    n = n.parent
    while n is not None:
        yield n
        n = n.parent


def show(t):
    if isinstance(t, str):
        return t
    return t[0] + "(" + ",".join(show(c) for c in t[1:]) + ")"


# ---- search ----------------------------------------------------------------------------------------


def problems(n, leaves=("S", "F"), memo={}):
    """all abstract problems with exactly n goals: S answered by the table, F without any step, ('one', p) one safe step,
    ('and', ...) parts that belong together, ('or', ...) one alternative per heuristic (up to three)"""
    if (n, leaves) in memo:
        return memo[n, leaves]
    out = []
    if n == 1:
        out = list(leaves)
    else:
        out += [("one", p) for p in problems(n - 1, leaves)]
        out += [("or", p) for p in problems(n - 1, leaves)]
        for k in (2, 3):
            for parts in compositions(n - 1, k):
                for c in itertools.product(*[problems(q, leaves) for q in parts]):
                    out.append(("and",) + c)
                    out.append(("or",) + c)
    memo[n, leaves] = out
    return out


def compositions(n, k):
    if k == 1:
        yield (n,)
        return
    for i in range(1, n - k + 2):
        for r in compositions(n - i, k - 1):
            yield (i,) + r


def endless(p):
    return p == "I" or (not isinstance(p, str) and any(endless(c) for c in p[1:]))


def solvable(p):
    if isinstance(p, str):
        return p == "S"
    rs = [solvable(c) for c in p[1:]]
    return any(rs) if p[0] == "or" else all(rs)


def dead(p):
    """certainly failed, whatever endless goals do"""
    if isinstance(p, str):
        return p == "F"
    rs = [dead(c) for c in p[1:]]
    return all(rs) if p[0] == "or" else any(rs)


class Prob:
    """numbers the goals of a problem and gives each an integrand of the chosen nesting"""

    def __init__(self, p, nest, byparts=()):
        self.spec = {}
        self.kids = {}
        self.by_key = {}
        self.exprs = {}
        self.count = 0
        self.nest = nest
        self.byparts = byparts
        self._number(p)

    def _number(self, p):
        i = self.count
        self.count += 1
        self.spec[i] = p if isinstance(p, str) else p[0]
        e_ = x + i + 2
        for _ in range(self.nest[i % len(self.nest)]):
            e_ = sin(e_)
        self.exprs[i] = e_
        self.by_key[fp.ckey(e_)] = i
        self.kids[i] = [] if isinstance(p, str) else [self._number(c) for c in p[1:]]
        return i

    def grow(self, i):
        """an endless goal has one subgoal of the same kind"""
        j = self.count
        self.count += 1
        self.spec[j] = "I"
        e_ = x + j + 2
        for _ in range(self.nest[i % len(self.nest)]):
            e_ = sin(e_)
        self.exprs[j] = e_
        self.by_key[fp.ckey(e_)] = j
        self.kids[i], self.kids[j] = [j], []

    def of(self, node):
        return self.by_key.get(fp.ckey(node.expr))


def sol_sym(i):
    return Symbol("s%d" % i)


def edge_sym(i):
    return Symbol("k%d" % i)


def valid_solutions(P, i):
    """all solutions of goal i, as exact polynomials in the leaf and edge symbols"""
    kind = P.spec[i]
    if kind == "S":
        return [poly.pvar("s%d" % i)]
    if kind in ("F", "I"):
        return []
    kids = [valid_solutions(P, c) for c in P.kids[i]]
    if kind == "and":
        out = []
        for combo in itertools.product(*kids):
            tot = {}
            for q in combo:
                tot = poly.padd(tot, q)
            out.append(tot)
        return out
    return [poly.pmul(poly.pvar("k%d" % c), q) for c, qs in zip(P.kids[i], kids) for q in qs]


class Scripted(Transform):
    P = None

    def check(self, node):
        raise NotImplementedError

    def forward(self, node):
        raise NotImplementedError

    def backward(self, node):
        super().backward(node)
        node.parent.solution = edge_sym(self.P.of(node)) * node.solution


def scripted(P, log):
    def child(node, j, tr):
        return Node(P.exprs[j], node.var, tr, node)

    def opened(node, what):
        i = P.of(node)
        s, f = node.is_solved, node.is_failed
        log.append((what, i, bool(node.children), s or f))
        return i

    class One(Scripted):
        def check(self, node):
            return P.spec.get(P.of(node)) == "one"

        def forward(self, node):
            i = opened(node, "safe")
            node.add_child(child(node, P.kids[i][0], self))

    class And(Scripted):
        def check(self, node):
            return P.spec.get(P.of(node)) == "and"

        def forward(self, node):
            i = opened(node, "safe")
            node.type = "AND"
            node.add_children([child(node, j, Additivity()) for j in P.kids[i]])

    def heuristic(k):
        base = ST.ByParts if k in P.byparts else Scripted

        class H(base):
            def __init__(self):
                pass

            def check(self, node):
                i = P.of(node)
                if P.spec.get(i) == "I" and k == 0:
                    P.grow(i)
                    return True
                return P.spec.get(i) == "or" and len(P.kids[i]) > k

            def forward(self, node):
                i = P.of(node)
                if k == 0:
                    opened(node, "heuristic")
                node.add_child(child(node, P.kids[i][k], self))

            def backward(self, node):
                Transform.backward(self, node)
                node.parent.solution = edge_sym(P.of(node)) * node.solution

        H.P = P
        return H

    One.P = And.P = P
    return [One, And], [heuristic(k) for k in range(3)]


def run_search(p, nest, breadth, byparts=(), cap=400):
    """the real loop on the abstract problem; returns (answer, error, reads, log, root, P)"""
    P = Prob(p, nest, byparts)
    log = []
    safe, heur = scripted(P, log)
    rec = integ.Recorder()
    names = {"SAFE_TRANSFORMS": safe, "HEURISTICS": heur, "check_integral_table": lambda ex, var: sol_sym(P.by_key[fp.ckey(ex)]) if P.spec.get(P.by_key.get(fp.ckey(ex))) == "S" else None}
    old = {}
    for k in names:
        if not hasattr(SI, k):
            raise NoEntry
        old[k] = getattr(SI, k)
    oldlog = SI.Integration.logger
    w = W.World(expire_at=cap)
    ans = err = None
    try:
        for k, v in names.items():
            setattr(SI, k, v)
        SI.Integration.logger = rec
        with w, harness.limit(20):
            ans = SI.Integration(breadth_first=breadth).integrate(P.exprs[0], x)
    except harness.CpuTimeout as e_:
        err = e_
    except Exception as e_:
        err = e_
    finally:
        for k, v in old.items():
            setattr(SI, k, v)
        SI.Integration.logger = oldlog
    return ans, err, w.reads, log, (rec.roots[0][1] if rec.roots else None), P


REP = """from mc import env; env.install()
from mc.checks import c13
from simpy.debug.tree import print_tree
ans, err, reads, log, root, P = c13.run_search(%r, %r, %r, %r)
print("answer", ans, "error", err, "clock reads", reads, "solvable", c13.solvable(%r))
print(log)
"""


def search(p, nest, breadth, byparts, acc, cap=400):
    key = "search %s nesting=%s%s%s" % (show(p), "".join(map(str, nest)), " breadth_first" if breadth else "", " byparts" if byparts else "")
    rep = REP % (p, nest, breadth, byparts, p)
    try:
        ans, err, reads, log, root, P = run_search(p, nest, breadth, byparts, cap)
    except NoEntry:
        acc.note("no entry point for scripted searches")
        acc.transitions += 1
        return
    acc.state(fp.h64(key))
    acc.transitions += max(len(log), 1)
    if err is not None:
        acc.violation(key, "the search raised %r" % (err,), rep)
        return
    for what, i, had_children, finished in log:
        if had_children or finished:
            acc.violation(key, "goal %d, which was %s, was worked on" % (i, "finished" if finished else "already expanded"), rep)
            return
    want = solvable(p)
    if endless(p):
        # it may go on with the endless goal until the time is up, but never answer wrongly or give up early
        if ans is None and reads < cap:
            if want or not dead(p):
                acc.violation(key, "the search gave up although goals were open and there was time", rep)
            return
        if ans is not None and not want:
            acc.violation(key, "the problem is not solvable, the answer is %r" % ans, rep)
            return
        if ans is None:
            acc.note("time up on an endless goal")
            return
    elif reads >= cap:
        acc.violation(key, "the problem is finite, but the search only ended when the time was up", rep)
        return
    if want != (ans is not None):
        acc.violation(key, "the problem is %s, the answer is %r" % ("solvable" if want else "not solvable", ans), rep)
        return
    if root is not None and not endless(p) and (bool(root.is_solved), bool(root.is_failed)) != (want, not want):
        acc.violation(key, "the problem is %s, but the root ends solved=%r failed=%r" % ("solvable" if want else "not solvable", root.is_solved, root.is_failed), rep)
        return
    if ans is not None:
        try:
            got = poly.of(ans)
        except poly.NotPoly:
            got = None
        if got not in valid_solutions(P, 0):
            acc.violation(key, "the answer %r is not a solution of the problem" % ans, rep)
            return
    acc.validated += 1


# ---- real trees ------------------------------------------------------------------------------------


def tree_of(node):
    """reference status of a real tree from its leaves' types"""
    if not node.children:
        return {"SOLUTION": "s", "FAILURE": "f"}.get(node.type, "u")
    if node.type in ("SOLUTION", "FAILURE"):
        return {"SOLUTION": "s", "FAILURE": "f"}[node.type]
    op = {"AND": "&", "OR": "|"}.get(node.type, "1")
    return (op,) + tuple(tree_of(c) for c in node.children)


def real(t, cap, acc):
    ex = c09.build(t)
    if ex is None:
        return
    for breadth in (False, True):
        r = integ.search(ex, x, cap=cap, breadth_first=breadth)
        if isinstance(r.error, harness.CpuTimeout):
            acc.note("search ran out of CPU time")
            continue
        key = "integrate(%s, x%s)" % (t, ", breadth_first=True" if breadth else "")
        rep = "from mc import env; env.install()\nfrom mc import harness\nfrom mc.checks import c13\nacc = harness.Acc()\nc13.real(%r, %d, acc)\nprint(acc.violations)\n" % (t, cap)
        for _, root in r.roots:
            acc.transitions += 1
            tr = tree_of(root)
            acc.state(fp.h64("real" + show(tr)))
            s, f = ref(tr)
            if (bool(root.is_solved), bool(root.is_failed)) != (s, f):
                acc.violation(key, "root solved=%r failed=%r, the tree %s says %r, %r" % (root.is_solved, root.is_failed, show(tr)[:200], s, f), rep)
                break
            bad = None
            for n in integ.nodes(root):
                acc.transitions += 1
                if n.type == "UNSET" and len(n.children) > 1:
                    bad = "goal %r has %d subgoals but no type" % (n.expr, len(n.children))
                for c in n.children:
                    if c.parent is not n:
                        bad = "subgoal %r does not know its goal" % c.expr
                if n.type == "SOLUTION" and n.solution is None:
                    bad = "goal %r is solved without a solution" % n.expr
            if bad:
                acc.violation(key, bad, rep)
                break
            if s and r.error is None and r.answer is None:
                acc.violation(key, "the tree is solved but there is no answer", rep)
            if not s and r.answer is not None:
                acc.violation(key, "there is an answer although the tree is not solved", rep)
            if not s and not f and not r.struck and r.reads < cap:
                acc.violation(key, "the search gave up with open goals and time left", rep)
            acc.validated += 1


# ---- tasks -----------------------------------------------------------------------------------------

NESTS_Q = [(2,), (8,), (2, 8), (8, 2), (2, 2, 8), (8, 8, 2), (5, 4, 3, 2), (2, 3, 4, 5, 6)]


def tasks(tier):
    quick = tier == "quick"
    out = []
    n = 48
    out += [("static", 2, 3, k, n) for k in range(n)]
    if not quick:
        out += [("static", 3, 2, k, 256) for k in range(256)]
    out += [("endless", size, k, 32) for size in range(2, 5 if quick else 6) for k in range(32)]
    top = 6
    for size in range(1, top + 1):
        m = max(1, min(len(problems(size)) // 40, 128))
        out += [("search", size, "q" if quick else "all", k, m) for k in range(m)]
    if quick:
        m = 64
        out += [("search", 7, "one", k, m) for k in range(m)]
    else:
        out += [("search", 7, "one", k, 256) for k in range(256)]
    L = intspace.families() if quick else intspace.families() + intspace.ATOMS + intspace.MORE
    L = L[:: 4 if quick else 1]
    out += [("real", tuple(L[k::32])) for k in range(32)]
    return out


def run(task, acc):
    if task[0] == "static":
        _, d, b, k, n = task
        last = None
        for i, t in enumerate(shapes(d, b)):
            if i % n == k:
                static(t, acc)
                last = rev(t)
                if last != t:
                    static(last, acc)
        acc.sample("statuses of the tree " + show(last), 1)
    elif task[0] == "endless":
        _, size, k, n = task
        for i, p in enumerate(problems(size, ("S", "F", "I"))):
            if i % n == k and endless(p):
                for nest in NESTS_Q:
                    for breadth in (False, True):
                        search(p, nest, breadth, (), acc, cap=25)
                    search(p, nest, False, (0,), acc, cap=25)
    elif task[0] == "search":
        _, size, how, k, n = task
        for i, p in enumerate(problems(size)):
            if i % n != k:
                continue
            if how == "one":
                nests = [NESTS_Q[i % len(NESTS_Q)]]
            elif how == "q":
                nests = NESTS_Q
            else:
                nests = list(itertools.product((2, 8), repeat=size)) + NESTS_Q
            for nest in nests:
                for breadth in (False, True):
                    search(p, nest, breadth, (), acc)
                if how != "one":
                    search(p, nest, False, (0,), acc)
        acc.sample("search of " + show(p), 1)
    else:
        for t in task[1]:
            real(t, 40, acc)
