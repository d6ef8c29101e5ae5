#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--jobs N]

Exit 0: the property held on everything explored.  Exit 1 plus a line
"VIOLATION property=<id> replay=<path>": it is broken.  Exit 2: the check could not run.
"""
import argparse
import atexit
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay", default=None)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")))
    args = ap.parse_args()

    # Nothing compiled, cached or configured may survive from an earlier run: the numba and bytecode caches of an older
    # working tree would hide a change in /repo.
    scratch = tempfile.mkdtemp(prefix="mamdp_mc_")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True))
    os.environ.update(
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONDONTWRITEBYTECODE="1",
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
        TMPDIR=scratch,
    )
    for d in ("numba", "pyc", "mpl"):
        os.makedirs(os.path.join(scratch, d))
    tempfile.tempdir = scratch
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.environ["PYTHONPYCACHEPREFIX"]
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    sys.path.insert(0, HERE)

    # The code under test runs in a child, so that its not coming back or crashing the interpreter is noticed here.
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 2
        try:
            from mc import core
            rc = core.main(args.property, args.tier, args.replay, args.jobs, HERE, repo, scratch)
        except SystemExit as e:
            rc = e.code
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGALRM, signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
        out = os.path.join(os.environ.get("VERIF_OUT", HERE), "replays")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "%s_%d.json" % (args.property, os.getpid()))
        why = "the code did not come back" if os.WTERMSIG(st) == signal.SIGALRM else "the code crashed the interpreter (signal %d)" % os.WTERMSIG(st)
        with open(path, "w") as f:
            json.dump({"property": args.property, "message": why, "job": None}, f)
        print("  " + why)
        print("VIOLATION property=%s replay=%s" % (args.property, path))
        sys.exit(1)
    sys.exit(os.WEXITSTATUS(st) if os.WIFEXITED(st) else 2)


if __name__ == "__main__":
    main()
