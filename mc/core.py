"""Exploration engine shared by all checks.

A check module defines

    PROPERTY      its id
    ASSUMPTIONS   list of strings
    jobs(tier)    -> list of JSON-serialisable job descriptions; together they are the bounded space
    run(job, ctx) -> explores *every* behaviour of that job, raising Violation on the first one that breaks the property
    warm()        (optional) called once in the parent before forking, e.g. to compile numba code

Nothing here samples: run() enumerates, and ctx counts what was enumerated.
"""
import contextlib
import importlib
import io
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from multiprocessing import connection

JOB_ALARM_S = 300  # a single job takes seconds; not returning at all is itself a violation


class Violation(Exception):
    def __init__(self, msg, **data):
        super().__init__(msg)
        self.msg = msg
        self.data = data


class Ctx:
    def __init__(self, tier, seed, scratch):
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.scratch = scratch
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = []
        self.truncated = False
        self.case = None  # description of the case being looked at, for the replay file

    def fail(self, msg, **data):
        raise Violation(msg, **data)

    def check(self, cond, msg, **data):
        if not cond:
            raise Violation(msg, **data)

    def skip(self, what):
        if what not in self.skipped:
            self.skipped.append(what)


def jsonable(x, depth=0):
    import numpy as np
    if depth > 8:
        return repr(x)
    if isinstance(x, (str, bool, int)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth + 1)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)


# ------------------------------------------------------------------ controlled nondeterminism


class Chooser:
    """Resolves every random choice of one execution; replays `prefix`, then takes option 0."""

    def __init__(self, prefix=()):
        self.prefix = prefix
        self.trace = []  # (chosen, number of options)
        self.weight = 1.0
        self.exact = True  # False once a continuous draw has been discretised

    def choose(self, n, weights=None):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("nondeterminism not under control: replayed choice %d of %d" % (c, n))
        self.trace.append((c, n))
        self.weight *= weights[c] if weights is not None else 1.0 / n
        return c


def explore(fn, ctx, limit=200000, inexact=None):
    """Runs fn(chooser) for every possible resolution of its choices (stateless depth-first search)."""
    prefix = []
    n = 0
    ctx.last_truncated = False
    while True:
        ch = Chooser(prefix)
        fn(ch)
        n += 1
        ctx.traces += 1
        ctx.transitions += len(ch.trace)
        t = list(ch.trace)
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return n
        if n >= limit or (not ch.exact and n >= (inexact or INEXACT_LIMIT[ctx.tier])) or time.time() > ctx.deadline:
            # only for code that draws in an unusual way: what was explored is checked, completeness is not
            ctx.truncated = ctx.last_truncated = True
            return n
        prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]


U_GRID = 24
INEXACT_LIMIT = {"quick": 2500, "thorough": 30000}  # executions of one exploration with continuous draws


class ControlledRandom:
    """While active, the drawing functions of numpy's global random module ask the chooser instead.

    Objects created with an explicit seed are left alone.  Draws from a continuous distribution are enumerated over the
    mid-points of U_GRID equal cells, so probabilities that are multiples of 1/U_GRID are still exact.
    """

    NAMES = ("choice", "random", "random_sample", "rand", "randint", "uniform", "permutation", "shuffle", "multinomial",
             "ranf", "sample")

    def __init__(self, chooser):
        self.ch = chooser

    def __enter__(self):
        import numpy as np
        self.saved = {k: getattr(np.random, k) for k in self.NAMES if hasattr(np.random, k)}
        for k in self.saved:
            setattr(np.random, k, getattr(self, k))
        return self

    def __exit__(self, *a):
        import numpy as np
        for k, v in self.saved.items():
            setattr(np.random, k, v)
        return False

    # --- draws
    def _one(self, n, p=None):
        import numpy as np
        if p is None:
            return self.ch.choose(n)
        p = np.asarray(p, dtype=float)
        if len(p) != n:
            raise ValueError("'a' and 'p' must have same size")
        if np.any(np.isnan(p)):
            raise ValueError("probabilities contain NaN")
        if np.any(p < 0):
            raise ValueError("probabilities are not non-negative")
        if abs(p.sum() - 1) > 1e-6:
            raise ValueError("probabilities do not sum to 1")
        support = [i for i in range(n) if p[i] > 0]
        return support[self.ch.choose(len(support), [p[i] / p.sum() for i in support])]

    def choice(self, a, size=None, replace=True, p=None):
        import numpy as np
        if isinstance(a, (int, np.integer)):
            pop = np.arange(a)
        else:
            pop = np.asarray(a)
        if len(pop) == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if size is None:
            return pop[self._one(len(pop), p)]
        n = int(np.prod(size))
        if not replace:
            idx = list(range(len(pop)))
            out = []
            for _ in range(n):
                out.append(idx.pop(self.ch.choose(len(idx))))
        else:
            out = [self._one(len(pop), p) for _ in range(n)]
        return pop[np.array(out, dtype=int)].reshape(size)

    def _u(self):
        self.ch.exact = False
        return (self.ch.choose(U_GRID) + 0.5) / U_GRID

    def random(self, size=None):
        import numpy as np
        if size is None:
            return self._u()
        return np.array([self._u() for _ in range(int(np.prod(size)))]).reshape(size)

    random_sample = ranf = sample = random

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)

    def randint(self, low, high=None, size=None, dtype=int):
        import numpy as np
        if high is None:
            low, high = 0, low
        if size is None:
            return low + self.ch.choose(int(high - low))
        return np.array([low + self.ch.choose(int(high - low)) for _ in range(int(np.prod(size)))]).reshape(size)

    def permutation(self, x):
        import numpy as np
        arr = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        idx = list(range(len(arr)))
        out = []
        while idx:
            out.append(idx.pop(self.ch.choose(len(idx))))
        return arr[np.array(out, dtype=int)]

    def shuffle(self, x):
        x[:] = self.permutation(x)

    def multinomial(self, n, pvals, size=None):
        import numpy as np
        out = np.zeros(len(pvals), dtype=int)
        for _ in range(n):
            out[self._one(len(pvals), pvals)] += 1
        return out


@contextlib.contextmanager
def real_random():
    yield


def distribution(fn, ctx, limit=200000):
    """All outcomes of fn() with their probabilities: {outcome: p}, and whether the probabilities are exact."""
    out = {}
    info = {"choices": 0, "exact": True}

    def once(ch):
        with ControlledRandom(ch):
            r = fn()
        out[r] = out.get(r, 0.0) + ch.weight
        info["choices"] += len(ch.trace)
        info["exact"] = info["exact"] and ch.exact

    explore(once, ctx, limit)
    info["truncated"] = ctx.last_truncated
    return out, info


def off(dist, want, info, tol=1e-9):
    """Whether a distribution found by exploration differs from the wanted one {outcome: p} (outcomes of want have p > 0)."""
    if set(dist) - set(want):
        return True
    if info["truncated"]:
        return False
    if info["exact"]:
        return any(abs(dist.get(k, 0.0) - want[k]) > tol for k in want)
    return any(abs(dist.get(k, 0.0) - want[k]) > 1.01 / U_GRID for k in want)


def uncontrolled(fn, want, runs=400, least=.05):
    """For code whose random source is not under control (no choice point was met): the outcomes of `want` with a probability of at
    least `least` that never occur in many runs.  Only decides that something is missing if it always is (error below 1e-8)."""
    seen = set()
    need = {k for k, v in want.items() if v >= least}
    for _ in range(runs):
        seen.add(fn())
        if need <= seen:
            break
    return need - seen


@contextlib.contextmanager
def unjit_random():
    """While active, replaces the numba functions of maMDP that draw random numbers, directly or through each other, by the Python they
    were compiled from, so that their draws come under control.  Deterministic ones (value iteration...) stay compiled."""
    import maMDP.agents  # noqa: F401
    import maMDP.algorithms.mcts  # noqa: F401
    import maMDP.algorithms.irl  # noqa: F401
    mods = [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "maMDP" and m is not None]
    disp = {}
    for m in mods:
        for k, v in list(vars(m).items()):
            if hasattr(v, "py_func"):
                disp.setdefault(id(v), v)

    def names(code):
        out = set(code.co_names)
        for c in code.co_consts:
            if hasattr(c, "co_names"):
                out |= names(c)
        return out

    uses = {i: names(d.py_func.__code__) for i, d in disp.items()}
    rnd = {i for i in disp if "random" in uses[i]}
    changed = True
    while changed:
        changed = False
        rnames = {disp[i].py_func.__name__ for i in rnd}
        for i in disp:
            if i not in rnd and uses[i] & rnames:
                rnd.add(i)
                changed = True
    undo = []
    for m in mods:
        for k, v in list(vars(m).items()):
            if id(v) in rnd:
                setattr(m, k, v.py_func)
                undo.append((m, k, v))
    try:
        yield
    finally:
        for m, k, v in undo:
            setattr(m, k, v)


# ------------------------------------------------------------------ running a check


class _Alarm(Exception):
    pass


def _on_alarm(*a):
    raise _Alarm()


_mod = None
_args = None


def _run_job(ij, until=None):
    import numpy as np
    i, job = ij
    tier, seed, scratch = _args
    ctx = Ctx(tier, seed, scratch)
    ctx.deadline = min(until or time.time() + JOB_ALARM_S / 2, _end)
    if time.time() > _end:
        return i, 0, 0, 0, ["a part of the space (out of time)"], True, None, None, 0.0
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(JOB_ALARM_S)
    np.random.seed((seed * 1000003 + i) % (2 ** 31))
    viol = None
    t0 = time.time()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            _mod.run(job, ctx)
    except Violation as v:
        viol = {"message": v.msg, "data": jsonable(v.data)}
    except _Alarm:
        viol = {"message": "did not return within %d s" % JOB_ALARM_S, "data": {}}
    except MemoryError:
        raise
    except BaseException as e:  # the code under test is not supposed to raise on these inputs
        viol = {"message": "unexpected %s: %s" % (type(e).__name__, e), "data": {"traceback": traceback.format_exc()}}
    finally:
        signal.alarm(0)
    if viol:
        viol["case"] = jsonable(ctx.case)
        viol["job"] = job
    return i, ctx.states, ctx.transitions, ctx.traces, ctx.skipped, ctx.truncated, viol, jsonable(ctx.case), time.time() - t0


def _run_chunk(ijs):
    out = []
    until = time.time() + JOB_ALARM_S / 2
    for ij in ijs:
        out.append(_run_job(ij, until))
        if out[-1][6]:
            break
    return out


def load_known(here, prop):
    """Entries "finding: property=<id> key=<substring of the message> <what fails>" of the committed known-findings file."""
    out = []
    path = os.path.join(here, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % prop):
                rest = line.strip().split(" ", 2)[2]
                key, what = rest.split("||", 1)
                out.append((key.strip()[len("key="):], what.strip()))
    return out


_end = float("inf")


def _worker(conn):
    try:
        while True:
            conn.send(_run_chunk(conn.recv()))
    except (EOFError, OSError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


def _in_parallel(chunks, n, results):
    """Runs the chunks in forked processes, each with a pipe of its own (no locks are shared, so any of them may be killed at any time).
    Stops at the first violation.  A process that dies has its chunk tried again, once."""
    chunks = [(c, 0) for c in reversed(chunks)]
    busy = {}   # connection -> (pid, chunk, tries, deadline)
    pids = set()

    def start():
        here, there = mp.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            here.close()
            for c in busy:
                c.close()
            _worker(there)
        there.close()
        pids.add(pid)
        return here, pid

    def give(conn, pid):
        if not chunks:
            conn.close()
            return
        c, tries = chunks.pop()
        busy[conn] = (pid, c, tries, time.time() + JOB_ALARM_S + 120)
        try:
            conn.send(c)
        except OSError:
            pass   # it died: noticed below

    try:
        for _ in range(min(n, len(chunks))):
            give(*start())
        while busy:
            ready = connection.wait(list(busy), timeout=5)
            for conn in ready:
                pid, c, tries, _ = busy.pop(conn)
                try:
                    r = conn.recv()
                except (EOFError, OSError):
                    conn.close()
                    if tries:
                        return [{"message": "the process was killed", "data": {"jobs": [j for _, j in c]}, "case": None, "job": c[0][1]}]
                    chunks.append((c, tries + 1))
                    give(*start())
                    continue
                results += r
                if r[-1][6]:
                    return []
                give(conn, pid)
            for conn, (pid, c, tries, until) in busy.items():
                if time.time() > until:
                    return [{"message": "did not return within %d s" % (JOB_ALARM_S + 120), "data": {"waiting_for": [j for _, j in c]}, "case": None, "job": c[0][1]}]
        return []
    finally:
        for pid in pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for pid in pids:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass


def main(prop, tier, replay, njobs, here, repo, scratch):
    global _mod, _args, _end
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    here_out = os.environ.get("VERIF_OUT", here)  # evidence and replays
    warnings.simplefilter("ignore")
    import maMDP
    src = os.path.realpath(os.path.dirname(maMDP.__file__))
    if src != os.path.realpath(os.path.join(repo, "maMDP")):
        print("maMDP comes from %s, not from %s" % (src, repo), file=sys.stderr)
        return 2
    _mod = importlib.import_module("mc." + prop.lower())
    _args = (tier, seed, scratch)
    _end = t0 + (480 if tier == "quick" else 6 * 3600)
    jobs = _mod.jobs(tier)
    if replay:
        rep = json.load(open(replay))
        jobs = [rep["job"]] if rep["job"] is not None else jobs
    if hasattr(_mod, "warm"):
        # Compiles what is needed.  If the code fails here it will fail in the jobs, too, which report it; if it does not come back,
        # the alarm ends this process and run.py reports it.
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(JOB_ALARM_S)
        try:
            _mod.warm()
        except Exception:
            pass
        signal.alarm(0)
    order = list(enumerate(jobs))
    n = njobs or int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))
    results = []
    viols = []
    if n == 1 or len(order) == 1:
        for ij in order:
            results.append(_run_job(ij))
            if results[-1][6]:
                break
    else:
        k = max(1, min(32, len(order) // (n * 8)))
        viols += _in_parallel([order[i:i + k] for i in range(0, len(order), k)], n, results)
    results.sort(key=lambda r: r[0])
    viols += [r[6] for r in results if r[6]]
    known = load_known(here, prop)
    new = []
    for v in viols:
        for key, what in known:
            if key in v["message"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
                break
        else:
            new.append(v)
    skipped = sorted({s for r in results for s in r[4]})
    states = sum(r[1] for r in results)
    trans = sum(r[2] for r in results)
    traces = sum(r[3] for r in results)
    if not replay:
        os.makedirs(os.path.join(here_out, "evidence"), exist_ok=True)
        samples = [{"job": jsonable(jobs[r[0]]), "last_case": r[7]} for r in
                   (results[:2] + results[len(results) // 2:len(results) // 2 + 2] + results[-2:])]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": states, "transitions": trans, "traces_validated_against_impl": traces,
                "jobs": len(jobs), "jobs_explored": len(results),
                "exhaustive": len(results) == len(jobs) and not any(r[5] for r in results),
                "bounds": getattr(_mod, "BOUNDS", {}).get(tier, ""),
                "skipped_subchecks": skipped,
                "samples": samples,
            },
            "wall_s": round(time.time() - t0, 2),
            "violations": len(new),
            "assumptions": getattr(_mod, "ASSUMPTIONS", []),
        }
        with open(os.path.join(here_out, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    slow = max(results, key=lambda r: r[8]) if results else [0] * 9
    if os.environ.get("VERIF_PROFILE"):
        for r in sorted(results, key=lambda r: -r[8])[:25]:
            print("   %.1f s  %s" % (r[8], json.dumps(jobs[r[0]])[:300]))
        print("   total cpu %.1f s" % sum(r[8] for r in results))
    print("%s %s: %d jobs, %d states, %d transitions, %d executions, %.1f s (slowest job %.1f s)%s" % (
        prop, tier, len(results), states, trans, traces, time.time() - t0, slow[8],
        "; skipped: " + ", ".join(skipped) if skipped else ""))
    if new:
        os.makedirs(os.path.join(here_out, "replays"), exist_ok=True)
        path = os.path.join(here_out, "replays", "%s_%d.json" % (prop, os.getpid()))
        with open(path, "w") as f:
            json.dump(dict(new[0], property=prop), f, indent=1)
        print("  " + new[0]["message"])
        print("  case: %s" % json.dumps(new[0].get("case"))[:2000])
        print("  data: %s" % json.dumps(new[0].get("data"))[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0
