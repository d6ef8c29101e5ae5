"""C19 the successor representation and its action values are those of moving at random"""
import itertools
import numpy as np
from . import model, sut

PROPERTY = "C19"
ASSUMPTIONS = ["deterministic transitions (what the construction covers)", "moving at random means picking among all actions, an impossible one ending the walk"]
BOUNDS = {"quick": "all deterministic MDPs with 2 states x 2 actions, 3 x 1, every 3 x 2; all wall masks of 2x2 and 3x1 grids; discounts 0, 0.5, 0.95, 0.99",
          "thorough": "plus 2x3 and 3x2 wall masks, 2 states x 3 actions, 4 states x 1"}


def jobs(tier):
    q = tier == "quick"
    out = [{"det": [2, 2], "part": 0, "of": 1}, {"det": [3, 1], "part": 0, "of": 1}, {"det": [1, 2], "part": 0, "of": 1}]
    out += [{"det": [3, 2], "part": i, "of": 16} for i in range(16)]
    if not q:
        out += [{"det": [2, 3], "part": 0, "of": 1}, {"det": [4, 1], "part": 0, "of": 1}]
    for kind in ("square", "hex"):
        for st in (False, True):
            for sh in ((2, 2), (3, 1)) if q else ((2, 2), (3, 1), (2, 3), (3, 2)):
                out.append({"grid": kind, "shape": sh, "self": st})
    return out


def warm():
    check_fns()
    from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values
    s = np.ones((1, 1, 1))
    sr = get_sa_sr(s, 0.5)
    get_sr_q_values(np.ones(1), np.ones((1, 1)), sr, s, 1, 1)
    for k in (int, bool):
        get_sa_sr(s.astype(k), 0.5)
        for t in (float, int):
            get_sr_q_values(np.ones(1, dtype=t), np.ones((1, 1), dtype=k), sr, s.astype(k), 1, 1)


def check_fns():
    pass


def run(job, ctx):
    if "det" in job:
        n, m = job["det"]
        for i, t in enumerate(itertools.product([None] + list(range(n)), repeat=n * m)):
            if i % job["of"] == job["part"]:
                one(ctx, [list(t[s * m:(s + 1) * m]) for s in range(n)], kind=(float, int, float, bool)[i // job["of"] % 4])
    else:
        w, h = job["shape"]
        succ = model.lattice(job["grid"], w, h, job["self"])
        for mask in model.masks(w * h):
            mdp = sut.grid(job["grid"], (w, h), walls=list(mask), self_transitions=job["self"])
            one(ctx, model.with_walls(succ, mask), np.asarray(mdp.sas, dtype=float))


def one(ctx, succ, sas=None, kind=float):
    from maMDP.algorithms.successor_representation import get_sa_sr, get_sr_q_values
    n, m = len(succ), len(succ[0])
    if sas is None:
        sas = model.succ_to_sas(succ).astype(kind)
    ctx.case = {"succ": succ}
    ctx.states += 1
    for g in (0.0, 0.5, 0.95, 0.99):
        keep = sas.copy()
        sr = np.asarray(get_sa_sr(sas, g))
        ctx.traces += 1
        ctx.transitions += n * m
        if sr.shape != (n * m, n * m) or not np.all(np.isfinite(sr)):
            ctx.fail("shape of the representation", got=sr.shape)
        if not np.array_equal(keep, sas):
            ctx.fail("the transitions were overwritten")
        # expected discounted occupancy of each pair, one step at a time
        for s in range(n):
            for a in range(m):
                want = np.zeros(n * m)
                want[s * m + a] = 1
                t = succ[s][a]
                if t is not None:
                    want = want + g * np.mean([sr[t * m + b] for b in range(m)], axis=0)
                if np.max(np.abs(sr[s * m + a] - want)) > 1e-7 * (1 + np.max(np.abs(want))):
                    ctx.fail("occupancies do not follow from those of the next state", discount=g, state=s, action=a, got=sr[s * m + a], want=want)
        F = np.array([[float((3 * k + 1) % 4 - 1) for k in range(n)], [float(k % 2) for k in range(n)]])
        if kind is not float:
            F = F.astype(kind)
        for theta in (np.array([1.0, 0.0]), np.array([0.5, -2.0])) if kind is float else (np.array([1, 2]), np.array([0.5, -2.0])):
            th, f0 = theta.copy(), F.copy()
            q = np.asarray(get_sr_q_values(theta, F, sr, sas, n, m))
            r = np.dot(theta, F)
            want = np.full((n, m), -np.inf)
            # value of walking at random: solve by iteration
            A = np.eye(n)
            for s in range(n):
                for a in range(m):
                    if succ[s][a] is not None:
                        A[s, succ[s][a]] -= g / m
            V = np.linalg.solve(A, r)
            for s in range(n):
                for a in range(m):
                    if succ[s][a] is not None:
                        want[s, a] = r[s] + g * V[succ[s][a]]
            ok = np.array_equal(np.isneginf(q), np.isneginf(want)) and q.shape == want.shape
            fin = ~np.isneginf(want)
            if not ok or np.any(np.abs(q[fin] - want[fin]) > 1e-7 * (1 + np.abs(want[fin]))):
                ctx.fail("action values of moving at random", discount=g, theta=theta, got=q, want=want)
            if not (np.array_equal(th, theta) and np.array_equal(f0, F)):
                ctx.fail("the inputs were overwritten")
