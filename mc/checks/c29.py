"""C29: an expression can be shared between threads.

Stateless exploration of schedules of the real code: two (three) operations on the same expression, each in a thread of
its own; a controlled scheduler decides at every executed line of the library who runs next. All schedules up to a
preemption bound are run: one preemption at every line, two where both are next to a write to something that outlives the
call. After each, both answers must be those the operations give alone, and the expression what it was."""
import dis
import os
import sys
import threading

import simpy
import simpy.expr as X
from mc import fp, harness
from mc.checks import c03
from mc.ops import *  # noqa: F401,F403
from simpy.regex import any_, eq, get_anys

ID = "C29"
LEVEL = "model_checking"
RULE = (
    "state = expression, operations, positions of the preemptions; transition = one schedule of the real code under a controlled scheduler: "
    "answers as alone, expression unchanged"
)
ASSUMPTIONS = [
    "threads switch between lines of the library; the interpreter's own operations are atomic, as PyPy's and CPython's global lock makes them",
    "second and later executions of a line by the same operation are preempted at the bound stated (first two)",
]
SRC = os.path.dirname(os.path.abspath(simpy.__file__))
POOL = [
    "2*x*y", "(x + 1)**2*y", "sin(x)**2 + cos(x)**2 + y", "3*pi*x*sin(y) + 2*x", "(x**2 + x)/(x + 1)", "log(x*y**2)", "tan(x)*sec(x)", "x**y", "-x*(x + y)",
    "sqrt(2)*x/3", "6*x**2*y + 4*x*y", "abs(x - y)", "asin(x) + 1", "sin(x)*cos(x)*x", "(x + y)**3", "sin(x + 2*pi) + x",
]
DEEP = ["2*x*y", "(x + 1)**2*y", "(x**2 + x)/(x + 1)", "3*pi*x*sin(y) + 2*x"]
QUICK = POOL[:9]
OPS = {k: v for k, v in c03.OPS.items() if k not in ("E.subs({'x': 3, 'y': w})", "E.evalf({'x': 1.5, 'y': 3})", "E.diff(y)", "nesting(E, y)", "E == x + 1, E == E", "E + (x + 1)*2", "is_subtraction", "E.children()", "E - E, E/E", "replace(E, y, sin(x))", "pythagorean_simplification(E)", "log(E)", "sqrt(E)")}
OPS["remove_const_factor(E, include_factor=True)"] = lambda E: X.remove_const_factor(E, include_factor=True)
OPS["get_anys(E)"] = get_anys
OPS["E.numerator_denominator, repr"] = lambda E: (E.numerator_denominator if hasattr(E, "numerator_denominator") else None, repr(E))
OPS["E + 3*E"] = lambda E: E + 3 * E
OPS["deconstruct"] = lambda E: (X._deconstruct_prod(E), X.deconstruct_power(E))
NAMES = sorted(OPS)
TOUCH = [
    "remove_const_factor(E, include_factor=True)", "E.expand()", "nesting(E, x)", "E.symbols()", "deconstruct", "get_anys(E)", "x*E", "E.numerator_denominator, repr", "simplify(E)",
    "E.expandable()", "eq(E, x*sin(any_), up_to_factor)",
]
REPLAY = "from mc import env; env.install()\nfrom mc.checks.c29 import *\nprint(%s)\n"


def lib(code):
    return getattr(code, "co_filename", "").startswith(SRC)


MUTATORS = {"append", "add", "pop", "clear", "update", "setdefault", "remove", "extend", "insert", "popitem", "discard", "__setitem__"}
BIRTH = {"__init__", "__post_init__", "__new__"}


def codes():
    """all code objects of the library that are loaded: {code: (function where there is one, class it belongs to)}"""
    seen = {}
    todo = []
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "simpy" and m is not None:
            todo += [(o, None) for o in vars(m).values() if getattr(o, "__module__", "").split(".")[0] == "simpy"]
    done = set()
    while todo:
        o, owner = todo.pop()
        if id(o) in done:
            continue
        done.add(id(o))
        if isinstance(o, type):
            todo += [(v, o) for v in vars(o).values()]
        elif isinstance(o, property):
            todo += [(f, owner) for f in (o.fget, o.fset) if f]
        elif isinstance(o, (classmethod, staticmethod)):
            todo.append((o.__func__, owner))
        elif hasattr(o, "__wrapped__") or hasattr(o, "__code__"):
            if hasattr(o, "__wrapped__"):
                todo.append((o.__wrapped__, owner))
            if hasattr(o, "__code__"):
                seen.setdefault(o.__code__, (o, owner))
            for cell in getattr(o, "__closure__", None) or ():
                try:
                    todo.append((cell.cell_contents, owner))
                except ValueError:
                    pass
        elif type(o).__module__.split(".")[0] == "simpy" and not isinstance(o, X.Expr):
            todo += [(v, owner) for v in vars(o).values() if callable(v)] if hasattr(o, "__dict__") else []  # descriptors of its own
    stack = list(seen)
    while stack:
        c = stack.pop()
        for k in getattr(c, "co_consts", ()):
            if hasattr(k, "co_code") and k not in seen:
                seen[k] = (None, seen[c][1])
                stack.append(k)
    return {c: f for c, f in seen.items() if lib(c)}


def lines_of(code):
    """per line, its instructions"""
    out, cur = [], []
    for ins in dis.get_instructions(code):
        if ins.starts_line is not None and cur:
            out.append(cur)
            cur = []
        cur.append(ins)
    return out + [cur]


def changed_names():
    """attributes of nodes that appear or change after the node was made, seen over all operations on the pool"""
    names = set()

    def nodes(e, acc):
        acc.append(e)
        for c in e.children():
            nodes(c, acc)
        return acc

    def shot(L):
        return [{k: (list(map(id, v)) if isinstance(v, (list, tuple)) else (id(v), len(v) if isinstance(v, (dict, set)) else 0)) for k, v in vars(e).items()} for e in L]

    for text in POOL:
        for op in OPS:
            ex = build(text)
            L = nodes(ex, [])
            a = shot(L)
            answer(op, ex)
            for p, q in zip(a, shot(L)):
                names |= {k for k in q if p.get(k) != q[k]}
    return names


def changeable(v):
    if isinstance(v, tuple):
        return any(changeable(i) for i in v)
    if isinstance(v, (list, dict, set)):
        return True
    return hasattr(v, "__dict__") and not isinstance(v, (type, X.Expr)) and not callable(v) and type(v).__module__.split(".")[0] in ("simpy", "collections", "threading")


def shared():
    """the functions of the library that read or write anything that outlives a call (attributes that nodes get or change
    after they are made, changing module variables, mutable defaults): between their lines, and only there, it matters
    who runs"""
    all_ = codes()
    attrs, globs, hot = changed_names(), set(), set()
    for c, (f, owner) in all_.items():
        private = owner is not None and not issubclass(owner, X.Expr) or c.co_name in BIRTH
        for line in lines_of(c):
            names = {i.argval for i in line if i.opname in ("LOAD_ATTR", "LOAD_METHOD")}
            if not private:
                st = {i.argval for i in line if i.opname in ("STORE_ATTR", "DELETE_ATTR")}
                if st:
                    hot.add(c)  # whatever it changes
                attrs |= {a for a in st if not any(a in getattr(k, "__dataclass_fields__", ()) for k in vars(X).values())}
                attrs |= {a.argval for a, b in zip(line, line[1:]) if a.opname == "LOAD_ATTR" and b.opname in ("LOAD_METHOD", "LOAD_ATTR") and b.argval in MUTATORS}
                if any(i.opname in ("STORE_SUBSCR", "DELETE_SUBSCR") for i in line):
                    attrs |= {n for n in names if n.startswith("_")}
        ins = list(dis.get_instructions(c))
        if any(i.opname in ("STORE_SUBSCR", "DELETE_SUBSCR") or i.opname in ("LOAD_ATTR", "LOAD_METHOD") and i.argval in MUTATORS or i.opname.startswith("INPLACE") for i in ins):
            globs |= {i.argval for i in ins if i.opname == "LOAD_GLOBAL"}  # it may be what is changed, under another name
    held = set()
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "simpy" and m is not None:
            held |= {k for k, v in vars(m).items() if changeable(v) and k in globs}
    held |= {i.argval for c in all_ for i in dis.get_instructions(c) if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL")}
    for c, (f, owner) in all_.items():
        if c.co_name in BIRTH:
            continue
        for i in dis.get_instructions(c):
            if i.opname in ("LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_METHOD", "LOAD_CONST") and isinstance(i.argval, str) and i.argval in attrs:
                hot.add(c)
            elif "GLOBAL" in i.opname and i.argval in held:
                hot.add(c)
        d = list(getattr(f, "__defaults__", None) or ()) + list((getattr(f, "__kwdefaults__", None) or {}).values())
        if any(changeable(v) for v in d):
            hot.add(c)
    return hot, attrs, held


HOT = None
HELD = None


def prepare():
    """find the shared state, and remember what the library's classes hold now, to start every schedule from there"""
    global HOT, HELD
    if HELD is None:
        HELD = [(k, a, v) for k in vars(X).values() if isinstance(k, type) and k.__module__.startswith("simpy") for a, v in vars(k).items() if not a.startswith("__") and not callable(v)]
        HOT = shared()[0]


def fresh(text):
    for k, a, v in HELD:
        if vars(k).get(a) is not v:
            setattr(k, a, v)
    return build(text)


class Tracer:
    """calls at(key) before each line of the functions that touch shared state; key = (code, line, how often before)"""

    def __init__(self, at):
        self.at = at
        self.seen = {}

    def start(self):
        sys.settrace(self.on_call)

    def on_call(self, frame, event, arg):
        return self.on_line if frame.f_code in HOT else None

    def on_line(self, frame, event, arg):
        if event == "line":
            k = (frame.f_code, frame.f_lineno)
            n = self.seen.get(k, 0)
            self.seen[k] = n + 1
            self.at(k + (n,))
        return self.on_line


def answer(op, ex):
    try:
        return c03.norm(OPS[op](ex))
    except RecursionError:
        return "RecursionError"
    except Exception as err:
        return "raised " + err.__class__.__name__


def points(text, op, times):
    """the lines of functions touching shared state that the operation executes on a fresh expression"""
    allp = []

    def at(k):
        if k[2] < times:
            allp.append(k)

    prepare()
    ex = fresh(text)
    t = Tracer(at)
    t.start()
    try:
        r = answer(op, ex)
    finally:
        sys.settrace(None)
    return r, allp


WRITES = {}


def writes(code):
    w = WRITES.get(code)
    if w is None:
        w = WRITES[code] = set()
        line = 0
        for ins in dis.get_instructions(code):
            line = ins.starts_line or line
            if ins.opname in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "DELETE_GLOBAL") or ins.opname in ("LOAD_ATTR", "LOAD_METHOD") and ins.argval in MUTATORS:
                w.add(line)
    return w


def beside_write(L):
    """the points just before and just after a line that writes"""
    return [k for n, k in enumerate(L) if k[1] in writes(k[0]) or n and L[n - 1][1] in writes(L[n - 1][0])]


def build(text):
    return eval(text, c03.NS)


def where(k):
    return "%s:%d in %s, time %d" % (os.path.basename(k[0].co_filename), k[1], k[0].co_name, k[2] + 1)


def one(text, a, b, k):
    """a up to k, then all of b, then the rest of a"""
    ex = fresh(text)
    before = fp.key(ex)
    got = []
    t = None

    def at(key):
        if key == k and not got:
            sys.settrace(None)
            got.append(answer(b, ex))

    t = Tracer(at)
    t.start()
    try:
        ra = answer(a, ex)
    finally:
        sys.settrace(None)
    return ra, got[0] if got else None, fp.key(ex) == before


def two(text, a, b, k, m):
    """a up to k, b up to m, the rest of a, the rest of b: real threads, one runs at a time"""
    ex = fresh(text)
    before = fp.key(ex)
    go_b, go_a, done_a = threading.Event(), threading.Event(), threading.Event()
    res = {}

    def run_a():
        hit = []

        def at(key):
            if key == k and not hit:
                hit.append(1)
                sys.settrace(None)
                go_b.set()
                go_a.wait(20)

        t = Tracer(at)
        t.start()
        try:
            res["a"] = answer(a, ex)
        finally:
            sys.settrace(None)
            go_b.set()
            done_a.set()

    def run_b():
        hit = []
        go_b.wait(20)

        def at(key):
            if key == m and not hit:
                hit.append(1)
                sys.settrace(None)
                go_a.set()
                done_a.wait(20)

        t = Tracer(at)
        t.start()
        try:
            res["b"] = answer(b, ex)
        finally:
            sys.settrace(None)
            go_a.set()

    ta, tb = threading.Thread(target=run_a), threading.Thread(target=run_b)
    ta.start()
    tb.start()
    ta.join()
    tb.join()
    return res.get("a"), res.get("b"), fp.key(ex) == before


def judge(acc, key, call, want, got):
    acc.transitions += 1
    acc.state(fp.h64(key))
    for who, w, g in (("first", want[0], got[0]), ("second", want[1], got[1])):
        if g is not None and g != w:
            acc.violation(key, "the %s operation answers %s, alone %s" % (who, str(g)[:200], str(w)[:200]), REPLAY % call)
            return
    if not got[2]:
        acc.violation(key, "the expression changed", REPLAY % call)
        return
    acc.validated += 1


def replay1(text, a, b, name):
    for k in points(text, a, 9)[1]:
        if where(k) == name:
            return one(text, a, b, k)


def replay2(text, a, b, name, name2):
    pa, pb = points(text, a, 9)[1], points(text, b, 9)[1]
    return [two(text, a, b, k, m) for k in pa if where(k) == name for m in pb if where(m) == name2]


def tasks(tier):
    quick = tier == "quick"
    out = []
    for t in QUICK if quick else POOL + c03.POOL:
        for i in range(len(NAMES)):
            out.append(("one", t, i, quick))
    for t in DEEP if quick else POOL:
        for i in range(len(NAMES)):
            if quick and NAMES[i] not in TOUCH:
                continue
            out.append(("two", t, i, quick))
    return out


def run(task, acc):
    kind, text, i, quick = task
    prepare()
    a = NAMES[i]
    ra, pa = points(text, a, (1 if kind == "two" else 2) if quick else 4)
    if not pa:
        acc.note("touches nothing shared: commutes with everything")
        return
    alone = answer(a, fresh(text))
    if ra != alone:
        acc.note("answers differently each time: not compared")
        return
    if kind == "two":
        pa = beside_write(pa)
    for b in (TOUCH if quick else NAMES):
        rb, pb = points(text, b, 1)
        if not pb:
            continue
        if answer(b, fresh(text)) != rb:
            continue
        for k in pa:
            if kind == "one":
                key = "%s: %s up to %s, then %s" % (text, a, where(k), b)
                judge(acc, key, "replay1(%r, %r, %r, %r)" % (text, a, b, where(k)), (alone, rb), one(text, a, b, k))
                continue
            for m in beside_write(pb):
                key = "%s: %s up to %s, %s up to %s, then the rest of both" % (text, a, where(k), b, where(m))
                judge(acc, key, "replay2(%r, %r, %r, %r, %r)" % (text, a, b, where(k), where(m)), (alone, rb), two(text, a, b, k, m))
    acc.sample("%s: %s with others" % (text, a))
