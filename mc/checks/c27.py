"""C27: the derivation that is shown is the derivation that was done.

Every search of the bounded grammar is run as a closed system; its goal tree is then printed in all combinations of the
printing options, and every line is compared with the node it stands for: order, depth, integrand, variable names,
transformation, state, solution. Debug mode must give the same answer and show the same derivation."""
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
from contextlib import redirect_stdout

from mc import fp, harness, integ, intspace
from mc.checks import c09
from mc.ops import *  # noqa: F401,F403

from simpy.debug import tree as T
from simpy.regex import replace

ID = "C27"
LEVEL = "model_checking"
RULE = (
    "state = goal tree reached by a search, with a combination of printing options; transition = one printed line, compared with "
    "the node it stands for in a reference walk of the tree"
)
ASSUMPTIONS = [
    "integrands and solutions longer than 50 characters are cut off in the output; only what is shown is compared",
    "solutions are judged as antiderivatives at 11 fixed points wherever both functions are defined there",
]
REPLAY = """from mc import env; env.install()
from mc import integ
from mc.ops import *
from simpy.debug.tree import *
r = integ.search(%(t)s, x, cap=%(cap)d%(kw)s)
for _, root in r.roots:
    print_tree(root, %(opts)s)
"""
OPTS = [(True, True, False), (False, False, True), (True, False, True), (False, True, False), (True, True, True)]


# ---- reference: states of goals, written from the meaning of the words

def solved(n):
    if n.type == "SOLUTION":
        return True
    if not n.children:
        return False
    return (any if n.type == "OR" else all)(solved(c) for c in n.children)


def failed(n):
    if n.type == "FAILURE":
        return True
    if not n.children:
        return False
    return (all if n.type == "OR" else any)(failed(c) for c in n.children)


def finished(n):
    return solved(n) or failed(n)


def stale(n):
    if finished(n):
        return False
    p = n.parent
    while p is not None:
        if finished(p):
            return True
        p = p.parent
    return False


def shown(n, show_stale, show_failures, depth=0):
    if not show_stale and stale(n) or not show_failures and failed(n):
        return
    yield n, depth
    for c in n.children:
        yield from shown(c, show_stale, show_failures, depth + 1)


def state_word(n):
    if not n.children and finished(n):
        return ""
    return "solved" if solved(n) else "failed" if failed(n) else "stale" if stale(n) else ""


def shape(n):
    """everything printing must leave alone"""
    return (fp.key(n.expr), n.var.name, id(n.transform), n.type, n.solution is not None and fp.key(n.solution), n.is_filler, tuple(shape(c) for c in n.children))


LINE = re.compile(r"^\[(\d+)\]\s*\{(\d+)\} (.*)  \((\w+)\)((?: \([^()]*\))*)$")


def cut(text):
    return text[:47] + "..." if len(text) > 50 else text


def compare(root, lines, opts):
    """the first difference between the printed lines and the tree, or None"""
    show_stale, show_failures, show_solution = opts
    nodes = list(shown(root, show_stale, show_failures))
    got = [ln for ln in lines if ln.strip()]
    if len(got) != len(nodes):
        return "%d lines for %d nodes" % (len(got), len(nodes))
    label = {}
    for (n, depth), ln in zip(nodes, got):
        m = LINE.match(ln)
        if not m:
            return "unreadable line %r" % ln
        if int(m.group(1)) != depth:
            return "line %r is at depth %d, the node at %d" % (ln, int(m.group(1)), depth)
        name = n.transform.__class__.__name__
        if m.group(4) != name:
            return "line %r shows %s, the step was %s" % (ln, m.group(4), name)
        tail = re.findall(r"\(([^()]*)\)", m.group(5))
        want = [w for w in (state_word(n), n.type if not n.children else "") if w]
        if [w for w in tail if "=" not in w] != want:
            return "line %r: the node is %s" % (ln, want)
        body = m.group(3)
        internal = n.var.name.startswith("u_")
        if n.is_filler:
            if not body.startswith("filler"):
                return "line %r: the node only stands for its parts" % ln
        else:
            cands = [label[n.var.name]] if n.var.name in label else sorted(set(re.findall(r"u_\d+", body))) if internal else [n.var.name]
            if not internal or not fsyms_of(n.expr, n.var.name):
                cands = cands or [n.var.name]
            ok = None
            for c in cands:
                if body.startswith(cut(rename(n.expr, n.var, c)).ljust(50)):
                    ok = c
                    break
            if ok is None:
                return "line %r: the integrand is %r, its variable %s, shown as %s" % (ln, n.expr, n.var.name, label.get(n.var.name))
            if internal and fsyms_of(n.expr, n.var.name):
                if any(v == ok and k != n.var.name for k, v in label.items()):
                    return "line %r: %s is already another variable's name" % (ln, ok)
                label[n.var.name] = ok
        if show_solution and solved(n):
            if n.solution is None:
                if body[50:].strip():
                    return "line %r shows a solution that was never found" % ln
                continue
            rest = body[50:].strip()
            c = label.get(n.var.name, n.var.name)
            if internal and n.var.name not in label:
                c = (re.findall(r"u_\d+", rest) or [c])[0]
            if not n.is_filler and rest != cut(rename(n.solution, n.var, c)).strip():
                return "line %r: the solution is %r" % (ln, rename(n.solution, n.var, c))
        elif body[50:].strip():
            return "line %r shows a solution" % ln
    return None


def fsyms_of(ex, name):
    return name in integ.fsyms(ex)


def rename(ex, var, name):
    return repr(replace(ex, var, Symbol(name)) if name != var.name else ex)


def check_tree(acc, key, rep, root):
    before = shape(root)
    for opts in OPTS:
        out = []
        acc.transitions += 1
        acc.state(fp.h64(key + repr(opts)))
        try:
            with harness.limit(20):
                T.print_tree(root, *opts, func=out.append)
        except Exception as ex:
            acc.violation(key, "printing with options %s raised %r" % (opts, ex), rep % repr(opts)[1:-1])
            continue
        bad = compare(root, "\n".join(out).split("\n"), opts)
        acc.validated += len(out)
        if bad:
            acc.violation(key, "options %s: %s" % (opts, bad), rep % repr(opts)[1:-1])
    for name, opts in (("print_solution_tree", (False, False, True)), ("print_success_tree", (False, False, False))):
        buf = io.StringIO()
        want = []
        try:
            with redirect_stdout(buf):
                getattr(T, name)(root)
            T.print_tree(root, *opts, func=want.append)
        except Exception as ex:
            acc.violation(key, "%s raised %r" % (name, ex), rep % repr(opts)[1:-1])
            continue
        if buf.getvalue() != "".join(w + "\n" for w in want):
            acc.violation(key, "%s is not the tree with options %s" % (name, opts), rep % repr(opts)[1:-1])
    if shape(root) != before:
        acc.violation(key, "printing changed the tree", rep % "")


def solutions(acc, key, rep, root):
    """each solution on display is an antiderivative of the integrand on its line"""
    if any(n.is_filler and integ.circular(n) for n in integ.nodes(root)):
        acc.note("goes in a circle: the parts are not antiderivatives of their own")
        return
    for n, _ in shown(root, False, False):
        if n.is_filler or n.solution is None or not solved(n):
            continue
        k, bad, lost = integ.derivative_matches(n.solution, n.expr, n.var.name)
        acc.validated += k
        if bad and not sheets(n):
            acc.violation(key, "on display: the integral of %r with respect to %s is %r; at %s the integrand is %r, the derivative %r" % ((n.expr, n.var, n.solution) + bad), rep % "False, False, True")
            return


def sheets(n):
    """below a substitution of x by a trigonometric function, solutions hold on the principal branch (C25 decides the steps)"""
    while n is not None:
        if n.transform.__class__.__name__ in ("InverseTrigUSub", "TrigUSub2", "GenericUSub") or any(c.transform.__class__.__name__ in ("InverseTrigUSub", "TrigUSub2") for c in integ.nodes(n)):
            return True
        n = n.parent
    return False


def debug_mode(acc, t, ex, cap):
    key = "integrate(%s, x, debug=True)" % t
    rep = "from mc import env; env.install()\nimport sys\nsys.breakpointhook = lambda *a, **k: None\nfrom mc import integ\nfrom mc.ops import *\nprint(integ.search(%s, x, cap=%d, debug=True).answer)\nprint(integ.search(%s, x, cap=%d).answer)\n" % (t, cap, t, cap)
    plain = integ.search(ex, x, cap=cap, cpu=60)
    stops = []
    hook = sys.breakpointhook
    sys.breakpointhook = lambda *a, **k: stops.append(1)
    buf = io.StringIO()
    try:
        with redirect_stdout(buf):
            dbg = integ.search(ex, x, cap=cap, cpu=60, debug=True)
    finally:
        sys.breakpointhook = hook
    acc.transitions += 1
    acc.state(fp.h64(key))
    if isinstance(plain.error, harness.CpuTimeout) or isinstance(dbg.error, harness.CpuTimeout) or plain.error is not None:
        return
    if dbg.error is not None:
        acc.violation(key, "raised %r" % (dbg.error,), rep)
        return
    if (dbg.answer is None) != (plain.answer is None) or dbg.answer is not None and fp.ckey(dbg.answer) != fp.ckey(plain.answer):
        acc.violation(key, "answers %r, without debug %r" % (dbg.answer, plain.answer), rep)
        return
    _, root = dbg.roots[-1]
    bad = compare(root, buf.getvalue().split("\n"), (False, False, True) if dbg.answer is not None else (True, True, False))
    if bad:
        acc.violation(key, "shown: " + bad, rep)
    elif len(stops) != 1:
        acc.violation(key, "stopped %d times in the debugger" % len(stops), rep)
    else:
        acc.validated += 1


TIMED = ["x**2 + x", "e**(2*x)*sin(x)", "sqrt(1 - x**2)"]


def logging(acc, first, depth):
    """all histories of a time log: which search is logged when and how long it took; then sorting and dumping"""
    from simpy.debug.logger import Logger

    trees = []
    for t in TIMED:
        r = integ.search(eval(t), x, cap=8)
        trees.append((eval(t), r.roots[-1][1]))
    calls = [(i, s) for i in range(len(TIMED)) for s in (0.0012, 2.0, 2.0004)]
    home = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="verif-c27-")
    os.chdir(tmp)
    try:
        for n in range(0, depth):
            for rest in itertools.product(calls, repeat=n):
                hist = (calls[first],) + rest
                key = "log of " + ", ".join("%s: %s s" % (TIMED[i], s) for i, s in hist)
                rep = "from simpy.debug.logger import Logger\n# %s\n" % key
                acc.transitions += 1
                acc.state(fp.h64(key))
                lg = Logger()
                model = {}
                for i, s in hist:
                    lg.log(trees[i][0], s, trees[i][1])
                    model[str(trees[i][0])] = (s, trees[i][1])
                got = {k: (d.time_spent, d.root) for k, d in lg.data.items()}
                if got != model or any(d.expr != trees[[str(e) for e, _ in trees].index(k)][0] for k, d in lg.data.items()):
                    acc.violation(key, "the log holds %r" % got, rep)
                    continue
                lg.sort()
                times = [d.time_spent for d in lg.data.values()]
                if times != sorted(times, reverse=True) or {k: (d.time_spent, d.root) for k, d in lg.data.items()} != model:
                    acc.violation(key, "sorted: %r" % [(k, d.time_spent) for k, d in lg.data.items()], rep)
                    continue
                if n < 2:
                    lg.dump()
                    with open("integration_log.txt") as f:
                        text = f.read()
                    head, _, tail = text.partition("Most time spent: \n")
                    lines = [ln for ln in head.split("\n") if ln]
                    want = ["%s: %s" % (k, d.time_spent) for k, d in lg.data.items()]
                    top = next(iter(lg.data.values())).root
                    sol, _, full = tail.partition("\n\n\n\n")
                    if lines != want:
                        acc.violation(key, "the file lists %r" % lines, rep)
                    shown_full = []
                    T.print_tree(top, func=shown_full.append)
                    shown_sol = []
                    T.print_tree(top, False, False, True, func=shown_sol.append)
                    got_lines = [ln for ln in tail.split("\n") if ln.strip()]
                    if got_lines != [ln for ln in "\n".join(shown_sol + shown_full).split("\n") if ln.strip()]:
                        acc.violation(key, "the file shows another derivation than that of the slowest search", rep)
                acc.validated += 1
    finally:
        os.chdir(home)
        shutil.rmtree(tmp)


def tasks(tier):
    quick = tier == "quick"
    L = intspace.integrands(tier) + intspace.KNOWN
    L = L[::2] if quick else L
    m = 256 if quick else 1024
    cap = 14 if quick else 18
    out = [("tree", tuple(L[i::m]), cap, False) for i in range(m)]
    out += [("tree", tuple(L[i::m])[:: 4 if quick else 1], cap, True) for i in range(0, m, 2 if quick else 1)]
    D = L[::6] if quick else L[::2]
    out += [("log", i, 3 if quick else 4) for i in range(9)]
    out += [("debug", tuple(D[i::32]), cap) for i in range(32)]
    return out


def run(task, acc):
    if task[0] == "log":
        return logging(acc, task[1], task[2])
    for t in task[1]:
        ex = c09.build(t)
        if ex is None:
            continue
        if task[0] == "debug":
            debug_mode(acc, t, ex, task[2])
            continue
        bf = task[3]
        r = integ.search(ex, x, cap=task[2], cpu=60, **({"breadth_first": True} if bf else {}))
        if r.error is not None:
            acc.note("search raised")
        for _, root in r.roots:
            key = "derivation of %s%s" % (t, ", breadth first" if bf else "")
            rep = REPLAY % {"t": t, "cap": task[2], "kw": ", breadth_first=True" if bf else "", "opts": "%s"}
            check_tree(acc, key, rep, root)
            if not bf and r.answer is not None:
                solutions(acc, key, rep, root)
        acc.sample("derivation of %s" % t)
