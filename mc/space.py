"""The shared space of expressions: everything reachable from the atoms by one and two operations.

Used by the checks that examine an operation on every reachable expression. Construction itself is decided by C01;
here an expression that cannot be built is left out."""
import itertools
import warnings

from . import fp, harness
from . import ops as O
from . import val as V
from .ops import *  # noqa: F401,F403

warnings.simplefilter("ignore")

NS = dict(O.__dict__)


def build(trace):
    return eval(trace, NS)


def _usable(ex):
    try:
        return not O.has_inf(ex) and O.defined_somewhere(O.values(ex))
    except Exception:
        return False


def _try(fn):
    try:
        with harness.limit(10):
            return fn()
    except Exception:
        return None


def layer1(unary=None, binary=None, atoms=None):
    unary = UNARY if unary is None else unary
    binary = BINARY if binary is None else binary
    atoms = ATOMS if atoms is None else atoms
    found = {}
    for t, a in atoms.items():
        found[fp.h64(fp.key(a))] = t
    for t, a in atoms.items():
        _expand(t, a, unary, binary, atoms, found, both=False)
    return found


def _expand(t, ex, unary, binary, atoms, found, both=True):
    def add(name, fn):
        r = _try(fn)
        if r is None:
            return
        try:
            h = fp.h64(fp.key(r))
        except Exception:
            return
        if h not in found and _usable(r):
            found[h] = name

    for tmpl in unary:
        f = UNARY[tmpl][0]
        add(tmpl % t, lambda: f(ex))
    for tb, eb in atoms.items():
        for tmpl in binary:
            f = BINARY[tmpl][0]
            add(tmpl % (t, tb), lambda: f(ex, eb))
            if both:
                add(tmpl % (tb, t), lambda: f(eb, ex))


def layer2(l1_traces, unary=None, binary=None, atoms=None):
    unary = UNARY if unary is None else unary
    binary = BINARY if binary is None else binary
    atoms = ATOMS if atoms is None else atoms
    found = {}
    for t in l1_traces:
        _expand(t, build(t), unary, binary, atoms, found)
    return found


def stages(stage, carry, thin=1, n=64, gen_kw=None):
    """stage 0: generate layer 2 in parallel; stage 1: check tasks over the union (every `thin`-th state)"""
    gen_kw = gen_kw or {}
    if stage == 0:
        l1 = sorted(layer1(**gen_kw).values(), key=lambda t: (len(t), t))
        return [("gen", l1[i::n]) for i in range(n)]
    if stage == 1:
        seen = set()
        all_ = []
        for out in carry:
            for h, t in out:
                if h not in seen:
                    seen.add(h)
                    all_.append(t)
        l1 = set(layer1(**gen_kw).values())
        all_ = sorted(l1, key=lambda t: (len(t), t)) + sorted((t for t in all_ if t not in l1), key=lambda t: (len(t), t))
        if thin > 1:
            keep = len(l1)
            all_ = all_[:keep] + all_[keep::thin]
        m = 4 * n
        return [("chk", all_[i::m]) for i in range(m)]
    return None


def run_gen(task, acc, gen_kw=None):
    acc.out = list(layer2(task[1], **(gen_kw or {})).items())


POWERS = ["sqrt(-x)", "(-x)**Rat(3, 2)", "sqrt(x*y)", "(x*y)**Rat(1, 3)", "sqrt(2*x)", "(x + 1)**y", "sqrt(1 - x)", "(-x)**y", "(x*y)**y", "1/sqrt(x*y)", "1/sqrt(-x)", "x", "Rat(-2)", "Rat(1, 2)", "y", "sqrt(x)", "(x + y)**Rat(1, 2)", "(-x - y)**Rat(1, 2)", "x**y", "e**x", "-(x + y)", "1/(x + y)"]
MULTIPLES = ["x + y", "2*(x + y)", "-(x + y)", "-3*(x + y)", "Rat(1, 2)*(x + y)", "x", "-y", "Rat(1)", "y*(x + y)", "-x*(x + y)", "(x + y)**2", "-(x - y)", "3*(x - y)", "sin(x + y)", "-2*(x + y)", "Rat(-1, 2)*(x + y)"]


def meeting(most=3):
    """products and sums of parts that combine into something that combines further"""
    for r in range(2, most + 1):
        for c in itertools.combinations_with_replacement(POWERS, r):
            yield "*".join("(%s)" % q for q in c)
        for c in itertools.combinations_with_replacement(MULTIPLES, r):
            yield " + ".join(c)
    for c in itertools.combinations(MULTIPLES, 2):
        yield "(%s)*(%s)" % c
        yield "(%s)/(%s)" % c
