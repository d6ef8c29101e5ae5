"""C15 learners that count features: exactly those met, or seen along the way, on every trajectory"""
import itertools
import numpy as np
from . import model, sut

PROPERTY = "C15"
ASSUMPTIONS = ["non-negative feature intensities where counts are normalised", "a trajectory is a sequence of states each reachable from the one before in one move"]
BOUNDS = {"quick": "every trajectory of up to 3 moves on 2x2, 3x1, 1x3 square and hex grids (2 moves on 3x2), with and without staying put, four feature sets, one wall; every pair of trajectories of up to 2 moves, in the same or in different worlds; every set of ignored features; three and four trajectories in as many worlds (1 in 3 / 1 in 7 of those of up to 2 moves); views over grids of up to 16 cells in a row",
          "thorough": "4 moves, pairs of up to 2 moves on 3x2"}

FEATS = [[[1, 0, 2, 0.5, 3, 0], [0, 0, 1, 1, 0, 2]], [[0, 0, 0, 0, 0, 0], [1, 2, 0, 0, 0, 1]], [[1, 1, 1, 1, 1, 1], [0, 1, 0, 0, 4, 0.25], [2, 0, 0, 0, 0, 0]],
         [[.1, 0, .02, 0, .05, .3], [0, .01, 0, .1, 0, 0]]]


def jobs(tier):
    out = []
    for kind in ("square", "hex"):
        for shape in ((2, 2), (3, 1), (1, 3), (3, 2)):
            for st in (False, True):
                for f in range(len(FEATS)):
                    for wall in (None, 1):
                        out.append({"kind": kind, "shape": shape, "self": st, "f": f, "wall": wall, "L": (3 if shape != (3, 2) else 2) + (tier == "thorough")})
                    out.append({"kind": kind, "shape": shape, "self": st, "f": f, "pairs": 2 if shape != (3, 2) or tier == "thorough" else 1})
    for kind in ("square", "hex"):
        for st in (False, True):
            out += [{"kind": kind, "shape": sh, "self": st, "f": 0, "long": True} for sh in ((10, 1), (1, 10), (8, 2), (2, 8), (5, 5), (17, 1), (1, 15))]
            out += [{"kind": kind, "shape": (2, 2), "self": st, "f": 0, "many": k} for k in (3, 4)]
    return out


def long_features(n):
    return [[(i * 7 + 3) % 5 + .25 * i for i in range(n)], [float(2 ** (i % 12)) for i in range(n)], [1.0 if i % 4 == 3 else 0.0 for i in range(n)]]


def warm():
    sut.grid("hex", (2, 2))


def world(job, f=None, wall=None, whole=False):
    w, h = job["shape"]
    n = w * h
    F = np.array([r[:n] for r in (FEATS[job["f"] if f is None else f] if "long" not in job else long_features(n))], dtype=float)
    walls = [0] * n
    if wall is not None:
        walls[wall] = 1
    succ = model.with_walls(model.lattice(job["kind"], w, h, job["self"]), walls)
    return sut.grid(job["kind"], (w, h), F.astype(int) if whole else F, walls=walls if wall is not None else None, self_transitions=job["self"]), F, succ


def paths(succ, L, lo=0):
    out = []

    def rec(p):
        if len(p) - 1 >= lo:
            out.append(list(p))
        if len(p) - 1 < L:
            for t in sorted({t for t in succ[p[-1]] if t is not None}):
                rec(p + [t])

    for s in range(len(succ)):
        rec([s])
    return out


def action(succ, s, t):
    return [a for a, u in enumerate(succ[s]) if u == t][0]


def eyeline(F, succ, s, a):
    seen = [s]
    while succ[seen[-1]][a] is not None and succ[seen[-1]][a] not in seen:
        seen.append(succ[seen[-1]][a])
    return F[:, seen].sum(axis=1)


def norm(x):
    return x / x.sum() if np.any(x != 0) else x


def eye(F, succ, t):
    c = np.zeros(len(F))
    for s, u in zip(t, t[1:]):
        c += eyeline(F, succ, s, action(succ, s, u))
    return norm(c)


def diff(F, succ, t):
    c, d = np.zeros(len(F)), np.zeros(len(F))
    for s, u in zip(t, t[1:]):
        ch = action(succ, s, u)
        for a in range(len(succ[0])):
            if succ[s][a] == s:
                continue
            if a == ch:
                c += eyeline(F, succ, s, a)
            else:
                d += eyeline(F, succ, s, a)
    return norm(c) - norm(d)


def same(ctx, msg, got, want, **note):
    got = np.asarray(got, dtype=float)
    if got.shape != want.shape or not np.allclose(got, want, atol=1e-9, rtol=1e-9):
        ctx.fail(msg, got=got, want=want, **note)


def run(job, ctx):
    from maMDP.algorithms import irl
    if "pairs" in job:
        worlds = [world(job), world(job, f=(job["f"] + 1) % 2 if job["f"] < 2 else job["f"], wall=None)]
        if job["f"] == 1:
            worlds[0] = world(job, whole=True)   # features that are whole numbers, held as such
        ps = [paths(w[2], job["pairs"], 0) for w in worlds]
        for ta, tb in itertools.product(ps[0], ps[1]):
            ctx.case = {"job": job, "trajectories": [ta, tb]}
            ctx.states += 1
            ctx.traces += 4
            ctx.transitions += len(ta) + len(tb) - 2
            m0, m1 = worlds[0], worlds[1]
            for ig in ([], [0], [len(m0[1]) - 1]):
                got = irl.MFFeatureMatching().fit([m0[0], m1[0]], [list(ta), list(tb)], ignore_features=list(ig))
                want = m0[1][:, ta[1:]].sum(axis=1) + m1[1][:, tb[1:]].sum(axis=1)
                want[ig] = 0
                same(ctx, "feature counts over two trajectories in two worlds", got, want, ignored=ig)
            want = m0[1][:, ta[1:] + tb[1:]].sum(axis=1)
            same(ctx, "feature counts over two trajectories in one world", irl.MFFeatureMatching().fit(m0[0], [list(ta), list(tb)]), want)
            for cls, fn in ((irl.SimpleActionIRL, eye), (irl.SimpleActionFeatureDiffIRL, diff)):
                want = fn(m0[1], m0[2], ta) + fn(m1[1], m1[2], tb)
                le = cls()
                same(ctx, "features seen along two trajectories in two worlds", le.fit([m0[0], m1[0]], [list(ta), list(tb)]), want, learner=cls.__name__)
                # again, from scratch and adding up
                same(ctx, "refitting starts from scratch", le.fit([m0[0]], [list(ta)]), fn(m0[1], m0[2], ta), learner=cls.__name__)
                same(ctx, "refitting without reset adds to the estimate", le.fit([m1[0]], [list(tb)], reset=False), want, learner=cls.__name__)
        return
    if "long" in job:
        # long views: every pair of moves of a larger grid, and one walk across it
        mdp, F, succ = world(job)
        n = len(succ)
        if hasattr(irl, "get_eyeline_features"):
            for s in range(n):
                for a in range(len(succ[0])):
                    ctx.traces += 1
                    same(ctx, "features seen from a state in a direction", irl.get_eyeline_features(mdp, s, a), eyeline(F, succ, s, a), state=s, action=a)
        walks = paths(succ, 1, 1)
        if len(walks) < 60:
            walks = paths(succ, 2, 1)
        for first in (0, n - 1):
            t, seen = [first], {first}
            while True:
                nxt = [u for u in succ[t[-1]] if u is not None and u not in seen]
                if not nxt:
                    break
                t.append(nxt[0])
                seen.add(nxt[0])
            walks += [t, t + t[-2::-1], t[:len(t) // 2]]
        for t in walks:
            ctx.case = {"job": job, "trajectory": t}
            ctx.states += 1
            ctx.traces += 3
            ctx.transitions += len(t) - 1
            same(ctx, "feature counts over a trajectory", irl.MFFeatureMatching().fit(mdp, [list(t)]), F[:, t[1:]].sum(axis=1))
            same(ctx, "features seen along a trajectory", irl.SimpleActionIRL().fit([mdp], [list(t)]), eye(F, succ, t))
            same(ctx, "features seen along a trajectory, relative to other directions", irl.SimpleActionFeatureDiffIRL().fit([mdp], [list(t)]), diff(F, succ, t))
        return
    if "many" in job:
        # three and four trajectories, each in a world of its own or all in one
        k = job["many"]
        ws = [world(job, f=i % 2, wall=[None, 1, None, 3][i]) for i in range(k)]
        ps = [[p for i, p in enumerate(paths(w[2], 2)) if k == 3 and i % 3 == 0 or i % 7 == 0] for w in ws]
        for ts in itertools.product(*ps):
            ctx.case = {"job": job, "trajectories": ts}
            ctx.states += 1
            ctx.traces += 4
            ctx.transitions += sum(len(t) - 1 for t in ts)
            trajs = [list(t) for t in ts]
            same(ctx, "feature counts over several trajectories in several worlds", irl.MFFeatureMatching().fit([w[0] for w in ws], [list(t) for t in ts]),
                 sum(w[1][:, t[1:]].sum(axis=1) for w, t in zip(ws, trajs)))
            for cls, fn in ((irl.SimpleActionIRL, eye), (irl.SimpleActionFeatureDiffIRL, diff)):
                same(ctx, "features seen along several trajectories in several worlds", cls().fit([w[0] for w in ws], [list(t) for t in ts]),
                     sum(fn(w[1], w[2], t) for w, t in zip(ws, trajs)), learner=cls.__name__)
        return
    mdp, F, succ = world(job, wall=job["wall"])
    for t in paths(succ, job["L"]):
        ctx.case = {"job": job, "trajectory": t}
        ctx.states += 1
        ctx.traces += 3
        ctx.transitions += len(t) - 1
        for k in range(len(F) + 1):
            for ig in itertools.combinations(range(len(F)), k):
                want = F[:, t[1:]].sum(axis=1)
                want[list(ig)] = 0
                same(ctx, "feature counts over a trajectory", irl.MFFeatureMatching().fit(mdp, [list(t)], ignore_features=list(ig)), want, ignored=ig)
        same(ctx, "features seen along a trajectory", irl.SimpleActionIRL().fit([mdp], [list(t)]), eye(F, succ, t))
        same(ctx, "features seen along a trajectory, relative to other directions", irl.SimpleActionFeatureDiffIRL().fit([mdp], [list(t)]), diff(F, succ, t))
    if not np.array_equal(np.asarray(mdp.features, dtype=float), F):
        ctx.fail("learning changed the features")
    for f, want_fn in (("get_trajectory_eyeline_features", eye), ("get_trajectory_eyeline_features_diff", diff)):
        g = getattr(irl, f, None)
        if g is None:
            ctx.skip(f)
            continue
        for t in paths(succ, 2):
            for s in range(len(succ)):
                for a in range(len(succ[0])):
                    if hasattr(irl, "get_eyeline_features"):
                        same(ctx, "features seen from a state in a direction", irl.get_eyeline_features(mdp, s, a), eyeline(F, succ, s, a), state=s, action=a)
                break
            same(ctx, "features seen along a trajectory (function)", g(mdp, [list(t)]), want_fn(F, succ, t), trajectory=t)
        for s in range(len(succ)):
            for u in range(len(succ)):
                if u not in succ[s]:
                    try:
                        g(mdp, [[s, u]])
                    except (AttributeError, ValueError, IndexError):
                        continue
                    ctx.fail("a trajectory that jumps was accepted", trajectory=[s, u])
