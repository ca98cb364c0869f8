"""C23: compositions, multinomial coefficients and the 2x2 inverse, against brute force and exact arithmetic."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np
from simpy.combinatorics import generate_permutations, multinomial_coefficient
from simpy.linalg import invert

from mc import fp, harness
from mc import ops as O
from mc import val as V
from mc.ops import *  # noqa: F401,F403

ID = "C23"
LEVEL = "model_checking"
RULE = (
    "state = one call (terms, power) / (parts, n) / 2x2 matrix; transition = the call on the real code; "
    "the answer is compared with brute-force enumeration, with exact binomial products, or multiplied back exactly"
)
ASSUMPTIONS = ["identities between rational functions of x and y are decided at five rational points, exactly"]

NUMS = ["Rat(0)", "Rat(1)", "Rat(-1)", "Rat(2)", "Rat(1, 2)", "Rat(-2, 3)", "Rat(5)"]
SYMS = ["x", "-x", "y", "x + 1", "x*y", "x**2 + x", "1/x", "2*x + 2", "Rat(3)", "Rat(0)"]
QPOINTS = [(Fr(3, 7), Fr(5, 2)), (Fr(-4, 3), Fr(1, 5)), (Fr(11, 2), Fr(-2, 9)), (Fr(1, 13), Fr(17, 4)), (Fr(-9), Fr(-7, 6))]
IRR = ["sqrt(2)", "pi", "e", "sqrt(2)*x", "Rat(1)", "Rat(0)", "sin(x)", "sqrt(2) + 1"]
NS = dict(O.__dict__)


def compositions(i, n):
    return [t for t in itertools.product(range(n + 1), repeat=i) if sum(t) == n]


def tasks(tier):
    I, N = (5, 7) if tier == "quick" else (6, 9)
    out = [("comp", i, n) for i in range(1, I + 1) for n in range(N + 1)]
    out += [("comp", 2, 40), ("comp", 3, 18), ("comp", 1, 200), ("comp", 9, 2), ("comp", 12, 1)]
    out += [("coef", k, m) for k in range(1, 5) for m in range(0, 6 if tier == "quick" else 8)]
    out += [("big", n) for n in (20, 21, 25, 35, 64, 100, 171, 300)]
    for a in NUMS:
        out.append(("num", a))
    for a in SYMS:
        out.append(("sym", a))
    for a in IRR:
        out.append(("irr", a))
    return out


def coef(parts, n):
    """product of binomials: an independent way to the same number"""
    out, left = 1, n
    for p in parts:
        out *= math.comb(left, p)
        left -= p
    return out


def check_coef(acc, parts, n):
    acc.transitions += 1
    acc.state(fp.h64(repr((parts, n))))
    key = "multinomial_coefficient(%r, %d)" % (list(parts), n)
    want = coef(parts, n)
    try:
        got = multinomial_coefficient(list(parts), n)
    except Exception as ex:
        acc.violation(key, "raised %r, exact value %d" % (ex, want))
        return
    if type(got) is not int or got != want:
        acc.violation(key, "is %r, exact value %d" % (got, want), "from simpy.combinatorics import *\nprint(%s)\n" % key)
    else:
        acc.validated += 1


def run(task, acc):
    kind = task[0]
    if kind == "comp":
        _, i, n = task
        acc.transitions += 1
        acc.state(fp.h64(repr(task)))
        key = "generate_permutations(%d, %d)" % (i, n)
        try:
            got = [tuple(t) for t in generate_permutations(i, n)]
        except Exception as ex:
            acc.violation(key, "raised %r" % ex)
            return
        want = compositions(i, n) if (n + 1) ** i < 3000000 else None
        if want is None:
            bad = len(got) != math.comb(n + i - 1, i - 1) or len(set(got)) != len(got) or any(sum(t) != n or min(t) < 0 or len(t) != i for t in got)
        else:
            bad = sorted(got) != sorted(want)
        if bad:
            acc.violation(key, "has %d entries (%d different), expected %d" % (len(got), len(set(got)), math.comb(n + i - 1, i - 1)), "from simpy.combinatorics import *\nprint(%s)\n" % key)
        else:
            acc.validated += len(got)
            acc.sample("%s: %d entries" % (key, len(got)))
    elif kind == "coef":
        _, k, m = task
        for parts in itertools.product(range(m + 1), repeat=k):
            for extra in (0, 1, 3):
                check_coef(acc, parts, sum(parts) + extra)
    elif kind == "big":
        n = task[1]
        for a in range(0, n + 1, max(1, n // 12)):
            check_coef(acc, (a, n - a), n)
            for b in range(0, n - a + 1, max(1, n // 6)):
                check_coef(acc, (a, b, n - a - b), n)
                check_coef(acc, (a, b), n)
    else:
        S = {"num": NUMS, "sym": SYMS, "irr": IRR}[kind]
        for rest in itertools.product(S, repeat=3):
            matrix(acc, kind, (task[1],) + rest)


def exact(ex, env):
    return V.evq(ex, env)


def matrix(acc, kind, ent):
    M = np.array([[eval(ent[0], NS), eval(ent[1], NS)], [eval(ent[2], NS), eval(ent[3], NS)]])
    acc.transitions += 1
    acc.state(fp.h64(repr(ent)))
    key = "invert([[%s, %s], [%s, %s]])" % ent
    replay = "import numpy as np\nfrom simpy.linalg import invert\nfrom mc.ops import *\nM = np.array([[%s, %s], [%s, %s]])\nprint(invert(M))\n" % ent
    try:
        with harness.limit(10):
            R = invert(M)
    except Exception as ex:
        acc.violation(key, "raised %r" % ex, replay)
        return
    if kind == "irr":
        envs = O.ENVS[:4]
        ev = V.ev
    else:
        envs = [{"x": a, "y": b} for a, b in QPOINTS]
        ev = exact
    singular = True
    for env in envs:
        a, b, c, d = [ev(M[i, j], env) for i in (0, 1) for j in (0, 1)]
        if None in (a, b, c, d):
            continue
        if kind == "irr":
            det = V.sub(V.mul(a, d), V.mul(b, c))
            if abs(det[0]) > 1e-9 * (1 + abs(a[0] * d[0])) + 8 * det[1]:
                singular = False
        elif a * d - b * c != 0:
            singular = False
        else:
            continue
        if R is None:
            continue
        if kind == "irr" and singular:
            continue
        m = [[a, b], [c, d]]
        try:
            r = [[ev(R[i, j], env) for j in (0, 1)] for i in (0, 1)]
        except Exception as ex:
            acc.violation(key, "the inverse is not a matrix of expressions: %r" % (R,), replay)
            return
        for i in (0, 1):
            for j in (0, 1):
                want = 1 if i == j else 0
                if kind == "irr":
                    got = V.add(V.mul(r[i][0], m[0][j]), V.mul(r[i][1], m[1][j]))
                    ok = got is not None and abs(got[0] - want) <= 1e-7 + 8 * got[1]
                else:
                    ok = None not in (r[i][0], r[i][1]) and r[i][0] * m[0][j] + r[i][1] * m[1][j] == want
                if not ok:
                    acc.violation(key, "inverse %r times the matrix is not the identity at %r (entry %d,%d)" % (R.tolist(), env, i, j), replay)
                    return
                acc.validated += 1
    if singular and R is not None:
        acc.violation(key, "is singular, but an inverse is returned: %r" % (R.tolist(),), replay)
    if not singular and R is None:
        acc.violation(key, "is refused, but its determinant is not zero", replay)
    if singular and R is None:
        acc.note("singular, refused")
    if R is not None:
        acc.sample("%s = %r" % (key, R.tolist()))
