"""Maintains /verif/seeded from tools/seeds_def.py.

  seeds.py gen            write /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
  seeds.py test [ids...]  in a scratch copy of /repo: patch applies, tests pass, demo 0 / nonzero, which checks catch it
                          (results in tools/caught.json)
  seeds.py own [ids...]   the same, but only the check of the bug's own property
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
BASE = "5434f62"
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# run with cwd = the repository; exit 0 if the behaviour is right
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
export MPLBACKEND=Agg MPLCONFIGDIR="$W/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$W/pyc" NUMBA_CACHE_DIR="$W/numba"
D="$(cd "$(dirname "$0")" && pwd)"
%s "$D/demo.py"
""" % PY
HEAD = """import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import numpy as np


def check(ok, what):
    if not ok:
        print("WRONG:", what)
        sys.exit(1)

"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def gen():
    from seeds_def import SEEDS
    top = tempfile.mkdtemp(prefix="seedgen")
    r = sh("git clone -q /repo %s/r" % top)
    assert r.returncode == 0, r.stdout
    R = top + "/r"
    blame = {}
    ids = [s["id"] for s in SEEDS]
    assert len(ids) == len(set(ids))
    for d in os.listdir(os.path.join(V, "seeded")):
        if d not in ids and os.path.isdir(os.path.join(V, "seeded", d)):
            shutil.rmtree(os.path.join(V, "seeded", d))
    for s in SEEDS:
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            n = t.count(old)
            want = 1
            assert n == want, (s["id"], f, n, old)
            # original lines only
            if f not in blame:
                blame[f] = [l.lstrip("^").split()[0] for l in sh("git -C /repo blame -s %s" % f).stdout.splitlines()]
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        diff = sh("git -C %s diff -U3" % R).stdout
        removed = sh("git -C %s diff -U0" % R).stdout
        bad, orig = [], 0
        cur, ln = None, 0
        for line in removed.splitlines():
            if line.startswith("--- "):
                cur = line[6:]
            elif line.startswith("@@"):
                ln = int(line.split()[1][1:].split(",")[0])
            elif line.startswith("-") and not line.startswith("---"):
                if blame[cur][ln - 1].startswith(BASE):
                    orig += 1
                else:
                    bad.append((cur, ln, line))
                ln += 1
        if bad or not orig:
            print("NOT ORIGINAL", s["id"], bad, orig)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"].strip() + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("git -C %s checkout -q -- ." % R)
    shutil.rmtree(top)
    print(len(SEEDS), "bugs")


def one(args):
    sid, checks, k, tests = args
    d = os.path.join(V, "seeded", sid)
    top = tempfile.mkdtemp(prefix="seed_%s_" % sid)
    out = {"id": sid}
    try:
        R = top + "/r"
        assert sh("git clone -q /repo %s" % R).returncode == 0
        env = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR=top + "/mpl", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", NUMBA_CACHE_DIR=top + "/numba")
        env["PYTHONPATH"] = R
        shutil.copytree(d, top + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        r = sh("bash %s/demo/demo.sh" % top, cwd=R, env=env)
        out["clean"] = r.returncode
        if r.returncode:
            out["clean_out"] = r.stdout[-600:]
        r = sh("git apply %s/patch.diff" % d, cwd=R)
        out["applies"] = r.returncode == 0
        r = sh("bash %s/demo/demo.sh" % top, cwd=R, env=env)
        out["patched"] = r.returncode
        out["patched_out"] = r.stdout[-300:]
        if tests:
            r = sh("%s -m pytest tests -q -p no:cacheprovider --timeout=300 2>&1 | tail -8" % PY, cwd=R, env=env)
            out["tests"] = r.stdout.strip().splitlines()[-1]
            if "failed" in out["tests"]:
                out["test_fails"] = [l for l in r.stdout.splitlines() if "FAILED" in l]
        caught = {}
        for c in checks:
            e = dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=top)
            r = sh("timeout 900 %s run.py %s --tier quick" % (PY, c), cwd=V, env=e)
            if r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout:
                caught[c] = "caught"
            elif r.returncode != 0:
                caught[c] = "rc %d: %s" % (r.returncode, r.stdout[-300:])
        out["caught"] = caught
    finally:
        shutil.rmtree(top)
    return out


def test(ids, own, tests=True):
    cpath = os.path.join(V, "tools", "caught.json")
    known = json.load(open(cpath)) if os.path.exists(cpath) else {}
    metas = {i: json.load(open(os.path.join(V, "seeded", i, "meta.json"))) for i in sorted(os.listdir(os.path.join(V, "seeded"))) if os.path.exists(os.path.join(V, "seeded", i, "meta.json"))}
    allc = ["C%02d" % i for i in range(1, 40) if os.path.exists(os.path.join(V, "mc", "c%02d.py" % i))]
    ids = ids or list(metas)
    for k, i in enumerate(ids):
        m = metas[i]
        checks = [m["property"]] if own else [m["property"]] + [c for c in allc if c != m["property"]]
        o = one((i, checks, k, tests))
        ok = o["clean"] == 0 and o["applies"] and o["patched"] != 0 and (not tests or ("89 passed" in o["tests"] and "failed" not in o["tests"]))
        print(i, m["property"], "OK" if ok else "INVALID %s" % {k: v for k, v in o.items() if k != "caught"}, "caught by", [c for c in o["caught"] if o["caught"][c] == "caught"],
              {c: v for c, v in o["caught"].items() if v != "caught"} or "", "" if m["property"] in o["caught"] else "  <<<<< MISSED", flush=True)
        old = known.get(i, {}).get("caught_by", [])
        new = [c for c in o["caught"] if o["caught"][c] == "caught"]
        known[i] = {"property": m["property"], "needs": m["needs"], "caught_by": sorted(set(old) | set(new)) if own else new}
        known = {k: v for k, v in known.items() if k in metas}
        json.dump(known, open(cpath, "w"), indent=1, sort_keys=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen()
    else:
        test(sys.argv[2:], sys.argv[1] == "own")
