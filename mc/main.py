import os
import sys
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")


def go():
    import importlib

    pid = sys.argv[1]
    if pid == "--selftest":
        from mc import selftest

        return selftest.main()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from mc import env

    env.install()
    from mc import harness

    import simpy

    src = os.path.realpath(simpy.__file__)
    if not src.startswith("/repo/src/") and not os.environ.get("VERIF_ALLOW_SRC"):
        print("simpy was imported from %s, not /repo/src" % src, file=sys.stderr)
        return 2
    mod = importlib.import_module("mc.checks." + pid.lower())
    return harness.main(mod, tier, seed)


if __name__ == "__main__":
    rc = go()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
