"""C17: the printed form, read by an independent reader, has the expression's value.

Every expression of the bounded space and every expression of one more layer of operations around and between its small
members; the text is read with the usual precedence rules and evaluated at 6 points."""
from mc import fp, harness, reader
from mc import ops as O
from mc import space
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C17"
LEVEL = "model_checking"
RULE = "state = expression; transition = printing it with the real code and reading the text back with an independent reader; value compared at 6 points, texts must have one value only"
ASSUMPTIONS = ["symbol names that are not names of constants or functions", "equal texts have equal values because reading is a function of the text"]
NS = dict(O.__dict__)
NS["a_b"], NS["xx"], NS["t1"] = Symbol("a_b"), Symbol("xx"), Symbol("t1")
ENVS = [dict(e, a_b=e["z"], xx=e["y"], t1=e["x"]) for e in O.ENVS]
WRAP = ["(%s)*y", "(%s)/y", "y/(%s)", "(%s)**2", "(%s)**y", "y**(%s)", "sqrt(%s)", "1/(%s)", "-(%s)", "x - (%s)", "x + (%s)", "sin(%s)", "log(%s)", "log(%s, Rat(2))", "log(x, %s)", "abs(%s)", "2*(%s)", "(%s)/3", "(%s)**Rat(2, 3)", "(%s)**-1", "(%s)**-2", "(%s)**Rat(-1, 2)", "2**(%s)", "Rat(-2, 3)*(%s)", "(%s)**xx", "xx*(%s)", "xx**(%s)", "e**(-(%s))", "a_b - 2*(%s)", "(%s)*(x + 1)", "(%s)/(x + y)", "(x + 1)**(%s)", "tan(%s)**2", "log(abs(%s), x)", "Float(-1.5)*(%s)", "Float(1e-7)*(%s)", "(%s) + Float(2.5e22)", "(%s)**Float(0.5)", "Rat(1, 2)**(%s)", "asin(%s)", "1/sqrt(%s)", "-sqrt(%s)/y", "pi**(%s)", "t1/(2*(%s))", "atan(%s)", "log(%s, Rat(1, 2))", "log(x, -(%s))", "(-x)**(%s)", "cos(%s)/xx"]
PAIR = ["(%s)*(%s)", "(%s)/(%s)", "(%s)**(%s)", "(%s) - (%s)", "log(%s, %s)", "2*(%s)/(3*(%s))"]
LEAF = ["x", "y", "2", "x + 1", "x*y", "1/x", "-x", "x - y", "x/y", "sqrt(x)", "x**y", "sin(x)", "abs(x)", "Rat(1, 2)", "Rat(-3, 2)", "Float(0.5)", "e**x", "log(x)", "xx", "pi", "x**2", "-x*y", "(x + 1)*y", "(x + 1)/y", "1/(x + y)", "x**2*y", "log(x, y)", "1/sqrt(x)", "x**Rat(1, 3)", "Float(-2.25)", "e", "abs(x)*abs(y)", "(x + 1)**2", "-1/x", "x**-2", "2*x/3", "tan(x)**2", "x**y**2", "Rat(-2)", "sqrt(2)", "log(x, Rat(2))", "abs(abs(x) - 1)", "xx + 1", "a_b*x", "(x + 1)*(y + 2)", "-(x + 1)", "1/(x*(y + 1))", "sqrt(x + 1)", "sqrt(x)*y", "x + y + z"]
SHARED = {}


def built(t):
    try:
        with harness.limit(10):
            ex = eval(t, NS)
    except Exception:
        return None
    return ex if hasattr(ex, "children") else None


def stage_tasks(tier, stage, carry):
    if stage == 0:
        return space.stages(0, carry)
    if stage == 1:
        out = space.stages(1, carry, thin=3 if tier == "quick" else 1)
        l1 = sorted(space.layer1().values(), key=lambda t: (len(t), t))
        SHARED["l1"] = l1
        out = [("chk", t[1]) for t in out]
        out += [("wrap", w, i, 2) for w in range(len(WRAP)) for i in range(2)]
        out += [("pair", p, i) for p in range(len(PAIR)) for i in range(len(LEAF))]
        meet = list(space.meeting())
        out += [("chk", meet[k::16]) for k in range(16)]
        if tier != "quick":
            out += [("wrap2", w, v) for w in range(len(WRAP)) for v in range(len(WRAP))]
        return out
    return None


def run(task, acc):
    if task[0] == "gen":
        return space.run_gen(task, acc)
    if task[0] == "chk":
        L = task[1]
    elif task[0] == "wrap":
        L = (LEAF + SHARED["l1"])[task[2] :: task[3]]
        L = [WRAP[task[1]] % t for t in L]
    elif task[0] == "wrap2":
        L = [WRAP[task[1]] % ("(" + WRAP[task[2]] % t + ")") for t in LEAF]
    else:
        L = [PAIR[task[1]] % (LEAF[task[2]], t) for t in LEAF]
    for t in L:
        ex = built(t)
        if ex is None or O.has_inf(ex):
            continue
        h = fp.h64(fp.key(ex))
        if h in acc.states:
            continue
        acc.state(h)
        one(acc, t, ex)
    acc.sample(L[-1])


PRINTERS = [("repr", repr), ("str", str)]


def one(acc, t, ex, printers=None, read=None):
    acc.transitions += 1
    replay = "from mc.checks.c17 import *\nex = eval(%r, NS)\nprint(repr(ex)); print(ex.latex())\n" % t
    texts = []
    for name, pr in printers or PRINTERS:
        try:
            with harness.limit(20):
                text = pr(ex)
        except Exception as e:
            acc.violation(t, "%s raised %r" % (name, e), replay)
            return
        if not isinstance(text, str) or not text:
            acc.violation(t, "%s gave %r" % (name, text), replay)
            return
        if text not in texts:
            texts.append(text)
    for text in texts:
        try:
            tree = (read or (lambda s: reader.Plain(s).parse()))(text)
        except (reader.Unreadable, IndexError, ValueError) as e:
            acc.violation(t, "printed as %r, which cannot be read: %s" % (text, e), replay)
            return
        some = False
        for i, env in enumerate(ENVS):
            a = V.ev(ex, env)
            if a is None:
                continue
            try:
                b = reader.value(tree, env)
            except reader.Unreadable as e:
                acc.violation(t, "printed as %r, which cannot be read: %s" % (text, e), replay)
                return
            if b is None:
                acc.violation(t, "printed as %r, which has no value at %r, the expression has %r" % (text, O.POINTS[i], a), replay)
                return
            c = V.cmp(a, b)
            if c == V.DIFF:
                acc.violation(t, "printed as %r, which is %r at %r, the expression %r" % (text, b[0], O.POINTS[i], a[0]), replay)
                return
            some = some or c == V.SAME
        if some:
            acc.validated += 1
        else:
            acc.skipped += 1
