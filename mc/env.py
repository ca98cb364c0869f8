"""Every source of nondeterminism of the code under test, owned by the harness.

install() must run before simpy is imported: it puts a seam behind the clock functions of `time` and behind the
functions of `random`. Outside a World both behave as usual."""
import random
import time

REAL = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "process_time")}
CURRENT = None


class World:
    """one deterministic environment: the clock jumps past every deadline at its `expire_at`-th read (never if None)
    and generated identifiers start with the characters chosen by `ids` (0: lowest, 1: highest), cyclically"""

    def __init__(self, expire_at=None, ids=(0,), cpu_budget=None):
        self.expire_at = expire_at
        self.cpu_budget = cpu_budget
        self.struck = False
        self._cpu0 = REAL["process_time"]()
        self.ids = ids
        self.reads = 0
        self.choices = 0

    def __enter__(self):
        global CURRENT
        self._old = CURRENT
        CURRENT = self
        return self

    def __exit__(self, *a):
        global CURRENT
        CURRENT = self._old
        return False

    def now(self):
        self.reads += 1
        late = self.expire_at is not None and self.reads >= self.expire_at
        if self.cpu_budget is not None and self.reads > 1 and REAL["process_time"]() - self._cpu0 > self.cpu_budget:
            # some cycles are slow without bound: real time strikes as well, as it does for users
            self.struck = True
        return 1000.0 + self.reads * 1e-6 + (1e9 if late else 0.0) + (2e9 if self.struck else 0.0)

    def pick(self, population, k):
        self.choices += 1
        pop = sorted(population)
        n = len(pop)
        first = pop[0] if self.ids[(self.choices - 1) % len(self.ids)] == 0 else pop[-1]
        out = []
        c = self.choices
        for _ in range(k):
            out.append(pop[c % n])
            c //= n
        out.reverse()
        if k > 1:
            out[0] = first
        return out


def install():
    def clock(name):
        real = REAL[name]

        def f():
            return CURRENT.now() if CURRENT is not None else real()

        return f

    for n in REAL:
        setattr(time, n, clock(n))

    def wrap(name, fn):
        real = getattr(random, name)

        def g(*a, **k):
            return fn(*a, **k) if CURRENT is not None else real(*a, **k)

        setattr(random, name, g)

    wrap("choices", lambda population, weights=None, cum_weights=None, k=1: CURRENT.pick(population, k))
    wrap("choice", lambda seq: CURRENT.pick(seq, 1)[0])
    wrap("sample", lambda population, k: CURRENT.pick(population, k))
