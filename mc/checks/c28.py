"""C28: the structural printout names exactly the nodes of the expression.

debug_repr, read back as a term over the constructors Power, Prod and Sum, must have the nodes of the expression in their
order; with pedantic="always" numbers and symbols carry the names of their classes, so that no two structures look alike."""
from mc import fp, harness, space
from mc import ops as O
from mc.ops import *  # noqa: F401,F403

from simpy.debug.utils import debug_repr

ID = "C28"
LEVEL = "model_checking"
RULE = "state = expression of the bounded space; transition = its structural printout, read back and compared node by node"
ASSUMPTIONS = ["functions are shown in their printed form, which C17 decides"]
SHARED = {}
NODES = {"Power": "Power", "Prod": "Prod", "Sum": "Sum"}
WRAP = ["(%s)*y", "y/(%s)", "(%s)**2", "(%s)**y", "2**(%s)", "x + (%s)", "x - 2*(%s)", "sin(%s)", "(%s)*(x + 1)", "(x + 1)**(%s)", "Float(0.5)*(%s)", "(%s)**Float(0.5)", "log(%s, y)", "pi*(%s) + e", "(%s)**Rat(-2, 3)", "sqrt(%s) + Float(1e-7)", "(%s)*(x + y)*z", "(x*y + z)**(%s)", "1/(1 + 1/(%s))", "Float(0.1234567891)*(%s) + Float(1234567.25)", "(sin(%s)*x + y + 1)**Rat(12345678901, 3)"]


def split(text):
    """'Head(a, b)' -> Head, [a, b], splitting at the commas of that level only"""
    head, _, rest = text.partition("(")
    if head not in NODES or not rest.endswith(")"):
        return None
    depth, part, parts = 0, "", []
    for i, c in enumerate(rest):
        if c in "([{":
            depth += 1
        elif c in ")]}":
            depth -= 1
            if depth < 0:
                if i != len(rest) - 1:
                    return None
                break
        if c == "," and depth == 0:
            parts.append(part.strip())
            part = ""
        else:
            part += c
    return head, parts + [part.strip()]


def leaf(e, pedantic):
    n = e.__class__.__name__
    if pedantic and n == "Rat":
        return "Rat(%s)" % e.value
    if pedantic and n == "Symbol":
        return "Symbol(%s)" % e.name
    if pedantic and n == "Float":
        return "Float(%s)" % e.value
    return repr(e)


def compare(e, text, pedantic):
    n = e.__class__.__name__
    if n not in NODES:
        want = leaf(e, pedantic)
        return None if text == want else "%s is shown as %s" % (want, text)
    s = split(text)
    if s is None or s[0] != NODES[n]:
        return "a %s is shown as %s" % (n, text)
    kids = [e.base, e.exponent] if n == "Power" else e.terms
    if len(kids) != len(s[1]):
        return "%d parts are shown as %s" % (len(kids), text)
    for k, t in zip(kids, s[1]):
        bad = compare(k, t, pedantic)
        if bad:
            return bad
    return None


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return space.stages(0, carry)
    if stage == 1:
        out = space.stages(1, carry, thin=6 if tier == "quick" else 1)
        out = [("chk", t[1]) for t in out]
        SHARED["l1"] = sorted(space.layer1().values(), key=lambda t: (len(t), t))
        return out + [("wrap", w) for w in range(len(WRAP))]
    return None


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    L = task[1] if task[0] == "chk" else [WRAP[task[1]] % t for t in SHARED["l1"]]
    for t in L:
        try:
            with harness.limit(10):
                ex = eval(t, space.NS)
        except Exception:
            continue
        if not hasattr(ex, "children"):
            continue
        h = fp.h64(fp.key(ex))
        if h in acc.states:
            continue
        acc.state(h)
        replay = "from simpy.debug.utils import debug_repr\nfrom mc.ops import *\nex = %s\nprint(debug_repr(ex)); print(debug_repr(ex, pedantic='always'))\n" % t
        for kw in ({}, {"pedantic": "moderate"}, {"pedantic": "always"}):
            acc.transitions += 1
            try:
                with harness.limit(10):
                    text = debug_repr(ex, **kw)
            except Exception as err:
                acc.violation(t, "debug_repr(%r) raised %r" % (kw, err), replay)
                break
            bad = compare(ex, text, kw.get("pedantic") == "always")
            if bad:
                acc.violation(t, "%r: %s" % (kw, bad), replay)
                break
            acc.validated += 1
    acc.sample(L[-1])
