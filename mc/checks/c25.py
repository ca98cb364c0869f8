"""C25: every single step of an integration search preserves the problem.

The goal tree of each search is taken from the documented logger hook. For every edge, an opaque antiderivative of the
child's integrand is carried back through the step; its derivative must be the parent's integrand. For nodes whose
children belong together (sums, integration by parts) the children must add up to the parent. So a wrong step is seen
even on a branch that never leads to an answer."""
from mc import fp, harness, integ, intspace
from mc import ops as O
from mc.checks import c09
from mc.ops import *  # noqa: F401,F403

ID = "C25"
LEVEL = "model_checking"
RULE = (
    "state = subproblem (integrand, variable) in a goal tree; transition = edge of the goal tree, decided by carrying an "
    "opaque antiderivative of the child back through the step"
)
ASSUMPTIONS = [
    "substitutions of sin and cos are read on their principal branch",
    "equality of functions is judged at the images of 11 fixed points of the original variable",
]
REPLAY = """from mc import env; env.install()
from mc import integ
from mc.ops import *
r = integ.search(%(t)s, x, cap=%(cap)d)
for _, root in r.roots:
    for kind, p, c, n, bad, err in integ.check_steps(root):
        if bad or err:
            print(kind, ":", p.expr, "wrt", p.var, "->", [(k.expr, k.solution) for k in p.children], bad, err)
"""


def tasks(tier):
    return c09.tasks(tier)


def run(task, acc):
    L, cap = task
    for t in L:
        ex = c09.build(t)
        if ex is None:
            continue
        r = integ.search(ex, x, cap=cap, cpu=90)
        replay = REPLAY % {"t": t, "cap": cap}
        if r.error is not None and not isinstance(r.error, harness.CpuTimeout):
            # the search crashed: C09 reports it; nothing was logged
            acc.note("search raised")
        for _, root in r.roots:
            acc.state(fp.h64(fp.key(root.expr)))
            for kind, p, c, n, bad, err in integ.check_steps(root):
                acc.transitions += 1
                acc.validated += n
                acc.note("step " + kind)
                if n == 0 and not bad and not err:
                    acc.note("step without comparable points")
                if c is not None:
                    acc.state(fp.h64(fp.key(c.expr)))
                if bad or err:
                    acc.violation(
                        "integrate(%s, x)" % t,
                        "step %s from %r wrt %s to %s: %s"
                        % (kind, p.expr, p.var, [(k.expr, k.var) if not k.is_filler else ("part", k.solution) for k in p.children], err or "at %s the parent is %r, the carried-back derivative %r" % bad),
                        replay,
                    )
                    break
        acc.sample("all steps of integrate(%s)" % t, 2)
