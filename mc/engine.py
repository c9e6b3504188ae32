"""Bounded exhaustive exploration: breadth-first over histories, or over inputs."""
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from .canon import digest
from .cloner import freeze, thaw
from .env import REPO, clock

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("MC_WORKERS", "8"))
CPU_LIMIT = 6.0  # seconds of CPU for one history or input: beyond it, it does not terminate
CTX = mp.get_context("fork")


class Violation(Exception):
    pass


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def equal(got, want, what):
    if got != want:
        raise Violation("%s: got %r, expected %r" % (what, got, want))


NOBODY = 65534


def _drop():
    """Worker set-up: give up root, so that an escaped call can reach nothing real."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(NOBODY, NOBODY, NOBODY)
        os.setresuid(NOBODY, NOBODY, NOBODY)
    os.environ["HOME"] = "/nonexistent"


_FN = None


def _call(arg):
    return _FN(arg)


def apart(fn, args=(None,), unpriv=True):
    """Runs fn on every argument in forked (unprivileged) processes and returns the results."""
    global _FN
    _FN = fn
    with CTX.Pool(min(WORKERS, len(args)), initializer=_drop if unpriv else None) as pool:
        return pool.map(_call, args, chunksize=1)


class _CpuTimeout(BaseException):
    pass


def _on_cpu(signum, frame):
    raise _CpuTimeout()


def _guard(fn):
    """Runs fn; returns None or the text of the violation it showed."""
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        fn()
    except Violation as exc:
        return str(exc)
    except _CpuTimeout:
        return "does not terminate (more than %d s of CPU for one step)" % CPU_LIMIT
    except BaseException as exc:  # noqa: BLE001 - anything unexpected is a report
        if isinstance(exc, (KeyboardInterrupt, MemoryError)):
            raise
        return "unexpected %s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc(limit=-8))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


# ---------------------------------------------------------------- histories
_SPEC = None
_SEEN = None


def replay(spec, init, history):
    clock.reset()
    w = spec.make(init)
    for a in history:
        spec.step(w, a)
    return w


def state_key(spec, w):
    """The state of the real code together with that of the reference model and of the shell.

    Both belong to the key: two histories may lead a faulty implementation into the same state although
    the reference tells them apart.
    """
    k = spec.key(w)
    ref, shell = getattr(w, "ref", None), getattr(w, "shell", None)
    if ref is None and shell is None:
        return k
    mem = None
    if shell is not None:
        mem = {n: x for n, x in vars(shell).items()
               if n not in ("commands", "command_docs", "_handler_accepts_ctx", "vfs", "py_exec", "view")
               and not isinstance(x, (str, type(None)))}
    return (k, digest(ref.state() if ref is not None else None, mem))


def _close(spec, w):
    if w is not None and hasattr(spec, "close"):
        spec.close(w)


def _expand(chunk):
    spec, seen = _SPEC, _SEEN
    local = {}
    trans = 0
    outcomes = {}
    found = []
    for init, hist in chunk:
        acts = []
        blob = [None]

        def first():
            w = replay(spec, init, hist)
            try:
                acts.extend(spec.actions(w))
                if spec.clonable:
                    try:
                        blob[0] = freeze((w, clock.now))
                    except Exception:  # e.g. closures: every successor is replayed instead
                        pass
            finally:
                _close(spec, w)

        def again():
            if blob[0] is None:
                return replay(spec, init, hist)
            w, clock.now = thaw(blob[0])
            return w

        msg = _guard(first)
        if msg is not None:
            found.append((init, list(hist), msg))
            continue
        for a in acts:
            res = []

            def one():
                w = again()
                try:
                    out = spec.step(w, a)
                    k = state_key(spec, w)
                    if k not in seen and k not in local:
                        spec.observe(w)
                        res.append((k, True))
                    else:
                        res.append((k, False))
                    res.append(out)
                finally:
                    _close(spec, w)

            msg = _guard(one)
            trans += 1
            if msg is not None:
                found.append((init, list(hist) + [a], msg))
                if len(found) > 5:
                    return local, trans, outcomes, found
                continue
            (k, new), out = res
            o = "%s:%s" % (a[0], out)
            outcomes[o] = outcomes.get(o, 0) + 1
            if new:
                local[k] = (init, list(hist) + [a])
    return local, trans, outcomes, found


class Spec:
    """One transition system: real code and reference model in lockstep."""

    inits = [None]
    clonable = True  # successors may start from a pickled copy of the world instead of a replay

    def make(self, init):
        raise NotImplementedError

    def actions(self, w):
        raise NotImplementedError

    def step(self, w, action):
        raise NotImplementedError

    def observe(self, w):
        pass

    def key(self, w):
        raise NotImplementedError


# ------------------------------------------------------------------- inputs
_CASES = None
_CHECK = None


def _enum_worker(arg):
    wid, n, deadline = arg
    count = 0
    capped = False
    outcomes = set()
    found = []
    for case in itertools.islice(_CASES(), wid, None, n):
        if time.monotonic() > deadline:
            capped = True
            break
        res = []
        clock.reset()
        msg = _guard(lambda: res.append(_CHECK(case)))
        count += 1
        if msg is not None:
            found.append((case, msg))
            if len(found) >= 3:
                break
        elif res[0] is not None and len(outcomes) < 200000:
            outcomes.add(hash(repr(res[0])))
    return count, outcomes, found, capped


class Check:
    def __init__(self, pid, tier, seed, known):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.known = known
        self.t0 = time.monotonic()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.parts = []
        self.assumptions = []
        self.exhaustive = True
        self.violations = []
        self.unpriv = False  # run the code under test without root privileges
        self.specs = {}
        self.budget = float(os.environ.get("MC_BUDGET", "480" if self.quick else "2400"))

    def left(self):
        return self.budget - (time.monotonic() - self.t0)

    # -- breadth-first search over histories
    def bfs(self, name, spec, depth, max_states=3_000_000):
        global _SPEC, _SEEN
        self.specs[name] = spec
        if self.violations:
            return
        t0 = time.monotonic()
        seen = set()
        frontier = []

        def starts(inits):
            out = []
            for init in inits:
                box = [None]

                def first():
                    w = replay(spec, init, [])
                    try:
                        box[0] = state_key(spec, w)
                        spec.observe(w)
                    finally:
                        _close(spec, w)

                out.append((init, _guard(first), box[0]))
            return out

        if self.unpriv or len(spec.inits) > 40:
            n = 1 if len(spec.inits) < 9 else WORKERS * 4
            parts = [spec.inits[i::n] for i in range(n)]
            first = [x for part in apart(starts, parts, self.unpriv) for x in part]
        else:
            first = starts(spec.inits)
        for init, msg, k in first:
            if msg is not None:
                self.report(name, init, [], msg)
                return
            if k not in seen:
                seen.add(k)
                frontier.append((init, []))
        trans = 0
        levels = [len(frontier)]
        outcomes = {}
        done_depth = 0
        capped = None
        found = []
        deepest = frontier[-1]
        for d in range(1, depth + 1):
            _SPEC, _SEEN = spec, seen
            size = max(1, min(200, len(frontier) // (WORKERS * 4) + 1))
            chunks = [frontier[i:i + size] for i in range(0, len(frontier), size)]
            nxt = []
            if len(chunks) == 1 and not self.unpriv:
                results = map(_expand, chunks)
                pool = None
            else:
                pool = CTX.Pool(min(WORKERS, len(chunks)), initializer=_drop if self.unpriv else None)
                results = pool.imap(_expand, chunks)
            stop = False
            for local, tr, outs, bad in results:
                trans += tr
                found.extend(bad)
                for o, c in outs.items():
                    outcomes[o] = outcomes.get(o, 0) + c
                for k, h in local.items():
                    if k not in seen:
                        nxt.append((k, h))
                        seen.add(k)
                if self.left() < 0:
                    capped = "time budget reached inside depth %d" % d
                    stop = True
                    break
                if len(found) > 20:
                    stop = True
                    break
            if pool is not None:
                pool.terminate() if stop else pool.close()
                pool.join()
            frontier = [h for _, h in nxt]
            levels.append(len(frontier))
            if frontier:
                deepest = frontier[-1]
            if found or stop:
                break
            done_depth = d
            if not frontier:
                done_depth = depth
                break
            if len(seen) > max_states and d < depth:
                capped = "state cap reached after depth %d" % d
                break
        if capped:
            self.exhaustive = False
        self.states += len(seen)
        self.transitions += trans
        self.traces += trans
        self.parts.append(dict(
            part=name, kind="breadth-first search over histories", initial_states=len(spec.inits),
            completed_depth=done_depth, requested_depth=depth, states=len(seen), transitions=trans,
            new_states_per_depth=levels, capped=capped, wall_s=round(time.monotonic() - t0, 2),
            distinct_outcomes=len(outcomes), outcomes=dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:60])))
        self.samples.append(dict(part=name, init=deepest[0], history=deepest[1]))
        print("  %-28s depth %d/%d states %d transitions %d outcomes %d (%.1fs)%s" % (
            name, done_depth, depth, len(seen), trans, len(outcomes), time.monotonic() - t0,
            " CAPPED " + capped if capped else ""), flush=True)
        if found:
            found.sort(key=lambda f: (len(f[1]), json.dumps(f[:2], default=str)))
            init, hist, msg = found[0]
            self.report(name, init, hist, msg)

    # -- complete enumeration of a finite input space
    def enum(self, name, cases, check, describe=None):
        global _CASES, _CHECK
        self.specs[name] = check
        if self.violations:
            return
        t0 = time.monotonic()
        _CASES, _CHECK = cases, check
        n = WORKERS
        count = 0
        outcomes = set()
        found = []
        capped = False
        with CTX.Pool(n, initializer=_drop if self.unpriv else None) as pool:
            deadline = time.monotonic() + self.left()
            for c, o, bad, cap in pool.imap_unordered(_enum_worker, [(i, n, deadline) for i in range(n)], chunksize=1):
                count += c
                capped = capped or cap
                outcomes |= o
                found.extend(bad)
        if capped:
            self.exhaustive = False
        last = None
        for last in itertools.islice(cases(), max(0, count // 2), count // 2 + 1):
            pass
        self.states += len(outcomes)
        self.transitions += count
        self.traces += count
        self.parts.append(dict(part=name, kind="complete enumeration of inputs", inputs=count, capped=capped,
                               distinct_outcomes=len(outcomes), wall_s=round(time.monotonic() - t0, 2),
                               what=describe))
        self.samples.append(dict(part=name, case=last))
        print("  %-28s inputs %d outcomes %d (%.1fs)%s" % (
            name, count, len(outcomes), time.monotonic() - t0, " CAPPED" if capped else ""), flush=True)
        if found:
            found.sort(key=lambda f: (len(json.dumps(f[0], default=str)), json.dumps(f[0], default=str)))
            self.report(name, None, [found[0][0]], found[0][1])

    # -- known findings: a fixed history that fails today
    def finding(self, fid, probe):
        """probe() returns True while the recorded defect is still present."""
        entry = self.known.get(fid)
        if entry is None:
            raise RuntimeError("finding %s is not in known_findings.json" % fid)
        clock.reset()
        if apart(lambda _: probe())[0] if self.unpriv else probe():
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, fid, entry["what"]), flush=True)

    def assume(self, text):
        self.assumptions.append(text)

    def report(self, part, init, history, msg):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.pid, part.replace("/", "_").replace(" ", "_")))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, tier=self.tier, part=part, init=init, history=history, message=msg,
                           how="python3 -m mc.run %s --replay %s   (in /verif)" % (self.pid, path)),
                      f, indent=1, default=str)
        self.violations.append((path, part, init, history, msg))

    def finish(self):
        wall = time.monotonic() - self.t0
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:40],
                   exhaustive=self.exhaustive and not self.violations, parts=self.parts,
                   validation="every transition is executed on the real code imported from %s; the reference "
                              "model or definition only supplies the expected result" % REPO)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for path, part, init, history, msg in self.violations:
            print("part %s\n init %r\n history %s\n %s" % (part, init, json.dumps(history, default=str), msg))
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        print("%s %s: states=%d transitions=%d wall=%.1fs %s" % (
            self.pid, self.tier, self.states, self.transitions, wall,
            "VIOLATED" if self.violations else "held"), flush=True)
        return 1 if self.violations else 0
