"""Numeric integration with an error estimate, over the error-bounded reals of val.py."""
import math

from . import val as V


def _legendre(n):
    xs, ws = [], []
    for i in range(n):
        t = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, t
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * t * p1 - (k - 1) * p0) / k
            dp = n * (t * p1 - p0) / (t * t - 1)
            dt = p1 / dp
            t -= dt
            if abs(dt) < 1e-16:
                break
        xs.append(t)
        ws.append(2 / ((1 - t * t) * dp * dp))
    return xs, ws


N12 = _legendre(12)
N20 = _legendre(20)


def _panel(f, a, b, rule):
    m, h = (a + b) / 2, (b - a) / 2
    tot = err = 0.0
    for t, w in zip(*rule):
        v = f(m + h * t)
        if v is None or v[1] == V.INF:
            return None
        tot += w * v[0]
        err += abs(w) * v[1]
    return tot * h, abs(err * h)


def integral(f, a, b, depth=9):
    """(value, error) of the integral of f from a to b, or None when it's not certainly a plain smooth integral there"""
    if a == b:
        return (0.0, 0.0)
    if a > b:
        r = integral(f, b, a, depth)
        return None if r is None else (-r[0], r[1])
    for k in range(65):
        t = a + (b - a) * k / 64.0
        v = f(t)
        if v is None or v[1] > 1e-6 or abs(v[0]) > 1e6:
            return None
    tot = err = 0.0
    todo = [(a, b, 0)]
    while todo:
        lo, hi, d = todo.pop()
        p = _panel(f, lo, hi, N12)
        q = _panel(f, lo, hi, N20)
        if p is None or q is None:
            return None
        e = abs(p[0] - q[0])
        if e > 1e-12 * (1 + abs(q[0])):
            if d >= depth:
                return None
            m = (lo + hi) / 2
            todo += [(lo, m, d + 1), (m, hi, d + 1)]
        else:
            tot += q[0]
            err += e + q[1]
    return tot, err + 1e-13 * (1 + abs(tot))
