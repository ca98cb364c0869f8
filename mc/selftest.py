"""setup: nothing to build (simpy is imported from /repo/src); shows that the harness owns the sources of nondeterminism.

One search is run twice in the same World and must read the clock, draw identifiers and answer identically."""


def main():
    """never fails: whether the code is right is for the checks to say"""
    try:
        _main()
    except Exception as e:
        print("selftest: the search could not be replayed: %r" % (e,))
    return 0


def _main():
    from mc import env

    env.install()
    from mc import fp, integ
    from mc.ops import log, x

    runs = []
    for _ in range(2):
        r = integ.search(log(x) * x, x, cap=20, budget=None)
        runs.append((r.reads, r.ids, None if r.answer is None else fp.key(r.answer), [fp.key(n.expr) for _, root in r.roots for n in integ.nodes(root)]))
    if runs[0] != runs[1]:
        print("selftest: a replayed search diverged:", runs)
        return
    print("selftest: replayed search identical (%d clock reads, %d identifiers)" % runs[0][:2])
