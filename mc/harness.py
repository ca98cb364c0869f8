"""Check runner: exhaustive enumeration split into tasks, run on worker processes, merged into one verdict.

A check module defines
    ID, LEVEL, RULE
    tasks(tier)      -> list of picklable task descriptions; together they are the whole bounded space
    run(task, acc)   -> explores one task, reporting into acc
Everything is deterministic: no check draws a random number, and VERIF_SEED only rotates the order in which the
tasks are handed out.
"""
import gc
import json
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(ROOT, "evidence")
KNOWN_FILE = os.path.join(ROOT, "known_findings.txt")


class CpuTimeout(Exception):
    pass


def _alarm(signum, frame):
    raise CpuTimeout()


class limit:
    """CPU-time limit (user time of this process) around one explored step"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        return False


class Acc:
    MAXV = 40

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.skipped = 0
        self.notes = {}
        self.samples = []
        self.violations = []
        self.nviol = 0
        self.known_hit = {}
        self.out = None

    def state(self, h):
        if len(self.states) < 3000000:
            self.states.add(h)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def sample(self, s, cap=3):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, msg, replay=""):
        """key: the specific failing input/history (what known_findings.txt lists)"""
        self.nviol += 1
        if len(self.violations) < self.MAXV or key in KNOWN_KEYS:
            self.violations.append((key, msg, replay))

    def pack(self):
        return (
            self.states,
            self.transitions,
            self.validated,
            self.skipped,
            self.notes,
            self.samples,
            self.violations,
            self.nviol,
            self.out,
        )


KNOWN_KEYS = {}


def load_known(pid):
    """lines:  finding: property=<id> key=<key> :: <what fails>      (suppresses exactly that key)
    fixed: property=<id> <commit> <what failed>                       (suppresses nothing)"""
    out = {}
    if not os.path.exists(KNOWN_FILE):
        return out
    for line in open(KNOWN_FILE):
        line = line.strip()
        if line.startswith("finding: property=%s " % pid):
            rest = line.split(" key=", 1)[1]
            key, _, text = rest.partition(" :: ")
            out[key.strip()] = text.strip()
    return out


def _worker(run, rq, wq):
    import pickle

    sys.setrecursionlimit(3000)
    try:
        # runaway memory ends in a MemoryError of this worker, not of the machine
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    while True:
        head = _readn(rq, 8)
        if not head:
            os._exit(0)
        n = int.from_bytes(head, "big")
        idx, task = pickle.loads(_readn(rq, n))
        acc = Acc()
        try:
            run(task, acc)
            msg = (idx, "ok", acc.pack())
        except BaseException:
            msg = (idx, "error", traceback.format_exc())
        data = pickle.dumps(msg)
        os.write(wq, len(data).to_bytes(8, "big"))
        mv = memoryview(data)
        while mv:
            k = os.write(wq, mv[:65536])
            mv = mv[k:]
        gc.collect()


def _readn(fd, n):
    buf = []
    while n:
        b = os.read(fd, min(n, 1 << 16))
        if not b:
            return b""
        buf.append(b)
        n -= len(b)
    return b"".join(buf)


class Pool:
    """fork-based worker pool; a worker that dies is reported, never silently dropped"""

    def __init__(self, run, n):
        self.run = run
        self.n = n

    def map(self, tasks, deadline=None):
        """yields (task, status, payload) as they complete"""
        import pickle
        import select

        workers = {}
        queue = list(enumerate(tasks))
        queue.reverse()

        def spawn():
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                for (p, a, b, c) in workers.values():
                    try:
                        os.close(a)
                        os.close(b)
                    except OSError:
                        pass
                try:
                    _worker(self.run, r1, w2)
                finally:
                    os._exit(1)
            os.close(r1)
            os.close(w2)
            workers[r2] = [pid, w1, r2, None]
            return r2

        def feed(w):
            if not queue:
                os.close(w[1])
                w[1] = -1
                w[3] = None
                return False
            idx, t = queue.pop()
            w[3] = (idx, t)
            data = pickle.dumps((idx, t))
            os.write(w[1], len(data).to_bytes(8, "big"))
            mv = memoryview(data)
            while mv:
                k = os.write(w[1], mv[:65536])
                mv = mv[k:]
            return True

        for _ in range(min(self.n, len(tasks))):
            feed(workers[spawn()])
        while any(w[3] is not None for w in workers.values()):
            fds = [fd for fd, w in workers.items() if w[3] is not None]
            ready, _, _ = select.select(fds, [], [], 5)
            if deadline is not None and time.time() > deadline:
                for w in workers.values():
                    try:
                        os.kill(w[0], signal.SIGKILL)
                    except OSError:
                        pass
                for w in workers.values():
                    if w[3] is not None:
                        yield w[3][1], "deadline", None
                for _, t in queue:
                    yield t, "deadline", None
                break
            for fd in ready:
                w = workers[fd]
                head = _readn(fd, 8)
                if not head:
                    t = w[3][1]
                    w[3] = None
                    os.close(fd)
                    pid, st = os.waitpid(w[0], 0)
                    del workers[fd]
                    yield t, "died", "worker ended with status %d" % st
                    if queue:
                        feed(workers[spawn()])
                    continue
                import pickle

                idx, status, payload = pickle.loads(_readn(fd, int.from_bytes(head, "big")))
                t = w[3][1]
                feed(w)
                yield t, status, payload
        for w in workers.values():
            try:
                if w[1] != -1:
                    os.close(w[1])
                os.waitpid(w[0], 0)
            except OSError:
                pass


def _raised_in_impl(tb):
    files = [l.strip() for l in tb.splitlines() if l.startswith('  File "')]
    return bool(files) and "/simpy/" in files[-1]


REPLAY_HEAD = '''"""Replay of a violation of %(pid)s found by model checking.

%(msg)s

Run:  PYTHONPATH=/verif /opt/venv/bin/python %(path)s
"""
'''


def main(mod, tier, seed, only=None):
    pid = mod.ID
    t0 = time.time()
    known = load_known(pid)
    KNOWN_KEYS.update(known)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "36000"))
    deadline = t0 + budget
    ncpu = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))

    total = Acc()
    errors = []
    incomplete = []
    ntasks = 0

    stage = 0
    carry = None
    while True:
        # a check may explore in stages (breadth-first layers): tasks(tier, stage, carry)
        if hasattr(mod, "stage_tasks"):
            tasks = mod.stage_tasks(tier, stage, carry)
            if tasks is None:
                break
        else:
            if stage:
                break
            tasks = mod.tasks(tier)
        if tasks:
            k = seed % len(tasks)
            order = tasks[k:] + tasks[:k]
        else:
            order = []
        outs = []
        for task, status, payload in Pool(mod.run, ncpu).map(order, deadline):
            ntasks += 1
            if status == "ok":
                st, tr, va, sk, notes, samples, viol, nviol, out = payload
                total.states |= st
                total.transitions += tr
                total.validated += va
                total.skipped += sk
                for k2, v2 in notes.items():
                    total.notes[k2] = total.notes.get(k2, 0) + v2
                for s in samples:
                    if len(total.samples) < 8:
                        total.samples.append(s)
                total.violations.extend(viol)
                total.nviol += nviol
                if os.environ.get("VERIF_FAILFAST") and any(v[0] not in known for v in viol):
                    # development aid: the first violation ends the run (no evidence is written)
                    v = [v for v in viol if v[0] not in known][0]
                    print("VIOLATION property=%s replay=- (fail-fast) %s" % (pid, v[0][:300]))
                    sys.stdout.flush()
                    os._exit(1)
                if out is not None:
                    outs.append(out)
            elif status == "deadline":
                incomplete.append(repr(task)[:80])
            elif status == "died":
                # the implementation took the process down (or ate the memory): that is a failure to return
                total.violations.append(("task " + repr(task)[:200], "worker process died: " + str(payload), ""))
                total.nviol += 1
            else:
                # an exception that came out of the implementation is an observation, not a broken check
                if _raised_in_impl(payload):
                    total.violations.append(("task " + repr(task)[:200], "exception escaped from the implementation:\n" + payload[-1500:], ""))
                    total.nviol += 1
                else:
                    errors.append((task, payload))
        carry = outs
        stage += 1

    rc = 0
    fresh = {}
    hit = {}
    for key, msg, replay in total.violations:
        if key in known:
            hit.setdefault(key, msg)
        else:
            fresh.setdefault(key, (msg, replay))
    for key in sorted(hit):
        print("KNOWN-FINDING: property=%s %s :: %s" % (pid, key, known[key]))
    for key in known:
        if key not in hit:
            print("note: listed finding not observed on this tree: %s" % key)
    if fresh:
        rc = 1
        shown = 0
        for i, (key, (msg, replay)) in enumerate(sorted(fresh.items(), key=lambda kv: (len(kv[0]), kv[0]))):
            if i >= int(os.environ.get("VERIF_SHOW", "10")):
                break
            path = os.path.join(EVID, "replay", "%s-%d.py" % (pid, i))
            with open(path, "w") as f:
                f.write(REPLAY_HEAD % {"pid": pid, "msg": (key + "\n" + msg).replace("\\", "\\\\").replace('"""', "'''"), "path": path})
                f.write(replay or "")
            if shown == 0:
                print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%d] %s\n      %s" % (i, key[:400], msg[:600]))
            shown += 1
        print("  %d distinct failing inputs/histories" % len(fresh))
    for task, tb in errors[:3]:
        print("CHECK ERROR in task %r\n%s" % (task, tb), file=sys.stderr)
    if incomplete:
        print("note: wall budget reached, %d tasks not explored: %s" % (len(incomplete), incomplete[:3]))

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "states": len(total.states),
            "transitions": total.transitions,
            "traces_validated_against_impl": total.validated,
            "inconclusive_comparisons": total.skipped,
            "tasks": ntasks,
            "tasks_not_reached": len(incomplete),
            "exhaustive": not incomplete and not errors,
            "rule": mod.RULE,
            "observed": {k: total.notes[k] for k in sorted(total.notes)},
            "samples": total.samples or ["(none)"],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(
        "%s %s: states=%d transitions=%d validated=%d inconclusive=%d tasks=%d wall=%.1fs violations=%d known=%d"
        % (pid, tier, len(total.states), total.transitions, total.validated, total.skipped, ntasks, time.time() - t0, len(fresh), len(hit))
    )
    if errors:
        return rc or 2
    if rc == 0 and (total.transitions == 0):
        print("CHECK ERROR: vacuous exploration", file=sys.stderr)
        return 2
    return rc
