"""Small mutations of the source, to look for holes in the checks (development aid; nothing in MANIFEST.json uses it).

  mutate.py gen             -> /tmp/mut/mutants.json
  mutate.py tests           -> keeps those that the repository's tests let through (/tmp/mut/alive.json)
  mutate.py checks [file]   -> runs the checks against those (/tmp/mut/result.json)
"""
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = "/repo"
W = "/tmp/mut"
FILES = {  # the checks to run, cheapest and most likely first
    "maMDP/environments.py": "C04 C14 C22 C05 C07 C20",
    "maMDP/agents.py": "C04 C10 C22 C06 C21 C18 C20",
    "maMDP/mdp.py": "C02 C03 C05 C22 C20 C23 C06 C21",
    "maMDP/grid_utils.py": "C24 C01 C20",
    "maMDP/env_io.py": "C18 C22",
    "maMDP/plotting.py": "C20",
    "maMDP/algorithms/action_selection.py": "C09 C23 C22 C12",
    "maMDP/algorithms/base.py": "C22 C16 C08 C21 C06",
    "maMDP/algorithms/dynamic_programming.py": "C08 C25 C22 C12",
    "maMDP/algorithms/irl.py": "C15 C25 C16 C22",
    "maMDP/algorithms/mcts.py": "C11 C12 C13 C22",
    "maMDP/algorithms/policy_learning.py": "C17 C16 C22",
    "maMDP/algorithms/successor_representation.py": "C19 C12",
}
CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.In: ["not in"], ast.NotIn: ["in"],
       ast.Is: ["is not"], ast.IsNot: ["is"]}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.Mod: "//", ast.FloorDiv: "/"}
SWAP = {"max": "min", "min": "max", "argmax": "argmin", "argmin": "argmax", "any": "all", "all": "any", "sum": "max", "nansum": "sum", "ones": "zeros", "zeros": "ones",
        "nanmax": "max", "unique": "array"}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    data = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append({"file": path, "line": n.lineno, "a": a, "b": b, "new": new, "what": "%s: %s -> %s" % (what, text(n)[:80].replace("\n", " "), new[:80])})

    tree = ast.parse(src)
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                for x in ast.walk(d):
                    skip.add(id(x))
        if isinstance(n, ast.FunctionDef):
            for a in n.args.args + n.args.kwonlyargs:
                if a.annotation:
                    for x in ast.walk(a.annotation):
                        skip.add(id(x))
            if n.returns:
                for x in ast.walk(n.returns):
                    skip.add(id(x))
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Import, ast.ImportFrom)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            for x in ast.walk(n):
                skip.add(id(x))
            if isinstance(n, ast.Raise):
                skip.discard(id(n))
        if isinstance(n, ast.Call) and text(n.func) in ("print", "warnings.warn"):
            for x in ast.walk(n):
                skip.add(id(x))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                add(n, "%s %s %s" % (text(n.left), o, text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            add(n, "(%s %s %s)" % (text(n.left), OPS[type(n.op)], text(n.right)), "op")
        elif isinstance(n, ast.BoolOp):
            o = " and " if isinstance(n.op, ast.Or) else " or "
            add(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                add(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % text(v) for v in rest) + ")", "drop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            add(n, "(" + text(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "const")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2), "const")
        elif isinstance(n, ast.If):
            if not (len(n.body) == 1 and isinstance(n.body[0], ast.Raise)):
                add(n.test, "True", "if")
            add(n.test, "False", "if")
        elif isinstance(n, ast.IfExp):
            add(n, "(" + text(n.body) + ")", "ifexp")
            add(n, "(" + text(n.orelse) + ")", "ifexp")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            t = n.targets[0] if isinstance(n, ast.Assign) else getattr(n, "target", None)
            if isinstance(n, ast.Expr) or isinstance(n, ast.AugAssign) or isinstance(t, (ast.Attribute, ast.Subscript)):
                add(n, "pass", "stmt")
            if isinstance(n, ast.AugAssign):
                a = text(n)
                add(n, "%s = %s" % (text(n.target), text(n.value)), "aug")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "astype", "tolist", "flatten", "ravel") and not (isinstance(f.value, ast.Name) and f.value.id == "np"):
                add(n, text(f.value), "nocall")
            if text(f) in ("np.array", "copy", "deepcopy", "copy.copy", "copy.deepcopy", "list", "tuple", "int", "float", "sorted", "np.abs", "abs", "np.maximum", "np.minimum") and n.args:
                add(n, "(" + text(n.args[0]) + ")", "nocall")
            if isinstance(f, ast.Attribute) and f.attr in SWAP:
                add(f, text(f.value) + "." + SWAP[f.attr], "fn")
            if n.keywords and not text(f).startswith("ax."):
                for k in n.keywords:
                    if k.arg is None:
                        continue
                    a, b = span(k)
                    j = b
                    while data[j:j + 1] in (b" ", b"\n", b","):
                        j += 1
                        if data[j - 1:j] == b",":
                            break
                    i = a
                    if data[j - 1:j] != b",":
                        j = b
                        while data[i - 1:i] in (b" ", b"\n"):
                            i -= 1
                        if data[i - 1:i] == b",":
                            i -= 1
                    out.append({"file": path, "line": k.value.lineno, "a": i, "b": j, "new": "", "what": "drop keyword %s of %s" % (k.arg, text(f)[:40])})
        elif isinstance(n, ast.Subscript):
            pass
        elif isinstance(n, ast.Break):
            add(n, "continue", "loop")
        elif isinstance(n, ast.Continue):
            add(n, "break", "loop")
        elif isinstance(n, ast.Raise):
            add(n, "pass", "raise")
    res = []
    for m in out:
        new = data[:m["a"]] + m["new"].encode() + data[m["b"]:]
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        res.append(m)
    return res


def gen():
    out = []
    seen = set()
    for f in FILES:
        ms = mutants(f)
        for m in ms:
            k = (m["file"], m["a"], m["b"], m["new"])
            if k not in seen:
                seen.add(k)
                out.append(m)
        print(f, len(ms))
    for i, m in enumerate(out):
        m["id"] = i
    json.dump(out, open(W + "/mutants.json", "w"), indent=0)
    print(len(out))


def copy(m):
    top = tempfile.mkdtemp(prefix="mut")
    R = top + "/r"
    os.mkdir(R)
    subprocess.run("git -C %s archive HEAD | tar -x -C %s" % (REPO, R), shell=True, check=True)
    p = os.path.join(R, m["file"])
    d = open(p, "rb").read()
    open(p, "wb").write(d[:m["a"]] + m["new"].encode() + d[m["b"]:])
    return top, R


UNTESTED = ("maMDP/environments.py", "maMDP/agents.py", "maMDP/env_io.py", "maMDP/plotting.py", "maMDP/algorithms/policy_learning.py", "maMDP/algorithms/irl.py")


def tests(m):
    if m["file"] in UNTESTED:  # no test of the repository uses these
        return m["id"], True
    top, R = copy(m)
    try:
        env = dict(os.environ, MPLBACKEND="Agg", MPLCONFIGDIR=top + "/mpl", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", NUMBA_CACHE_DIR=top + "/numba", PYTHONPATH=R,
                   OMP_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
        r = subprocess.run("timeout 120 %s -m pytest tests -x -q -p no:cacheprovider --timeout=60" % PY, shell=True, cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return m["id"], r.returncode == 0
    finally:
        shutil.rmtree(top)


def checks(m):
    top, R = copy(m)
    try:
        for c in FILES[m["file"]].split():
            e = dict(os.environ, VERIF_REPO=R, VERIF_SEED="1", VERIF_TIER="quick", VERIF_OUT=top + "/o", VERIF_JOBS="2")
            r = subprocess.run("timeout 1200 %s run.py %s --tier quick" % (PY, c), shell=True, cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and "VIOLATION property=" in r.stdout:
                return c
            if r.returncode != 0:
                return "%s rc %d %s" % (c, r.returncode, r.stdout[-200:])
        return None
    finally:
        shutil.rmtree(top)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen()
    elif sys.argv[1] == "tests":
        ms = json.load(open(W + "/mutants.json"))
        alive = []
        with cf.ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
            for k, (i, ok) in enumerate(ex.map(tests, ms)):
                if ok:
                    alive.append(ms[i])
                if k % 50 == 0:
                    print(k, len(alive), flush=True)
                    json.dump(alive, open(W + "/alive.json", "w"), indent=0)
        json.dump(alive, open(W + "/alive.json", "w"), indent=0)
        print(len(ms), len(alive))
    else:
        rp = W + "/result.json"
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        alive = json.load(open(os.environ.get("ALIVE", W + "/alive.json")))
        # at most one of each kind per line; quick look first
        random.Random(1).shuffle(alive)
        first = {}
        for m in alive:
            first.setdefault((m["file"], m["line"]), m)
        alive = list(first.values()) + [m for m in alive if first[(m["file"], m["line"])] is not m]
        todo = [m for m in alive if str(m["id"]) not in res and (len(sys.argv) <= 2 or m["file"] in sys.argv[2:])]
        import threading
        lock = threading.Lock()

        def go(m):
            try:
                c = checks(m)
            except Exception as e:
                c = "error %r" % e
            with lock:
                res[str(m["id"])] = dict(m, caught=c)
                print(m["id"], m["file"], m["line"], m["what"], "=>", c or "SURVIVED <<<<", flush=True)
                json.dump(res, open(rp, "w"), indent=0)

        with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
            list(ex.map(go, todo))
