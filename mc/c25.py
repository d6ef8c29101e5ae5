"""C25 entropy-based and hypothesis-testing inverse reinforcement learning follow their update rules on every trajectory"""
import itertools
import math
import numpy as np
from . import model, sut
from .c15 import paths, same

PROPERTY = "C25"
ASSUMPTIONS = ["agreement to 1e-6 (1e-3 for features that are almost the same everywhere, limited by how far planning converges) with an independent implementation of the documented update", "cases in which the hypothesis test divides by a spread of less than 1e-7 are not compared"]
BOUNDS = {"quick": "every trajectory of up to 2 moves on 2x2, 3x1 square and hex grids, every pair and every order of trajectories of up to 1 move, sets of three to six, 1-3 iterations, learning-rate decay 0, 0.5, 1, 2, soft and hard planning, every set of ignored features, initial weights or none; walks of 4, 6 and 9 moves from every state, and one of 60; up to 45 iterations; worlds with walls; features given as integers, or almost the same everywhere",
          "thorough": "3 moves, 1-6 iterations, pairs of up to 2 moves, sets of four"}

FEATS = [[[1, 0, 2, 0.5, .25, 0], [0, 0, 1, 1, 0, .75]], [[0, 1, 0, 0], [1, 2, 0, 0], [1, 0, 0, 3]]]


def jobs(tier):
    out = []
    for kind, shape in (("square", (2, 2)), ("hex", (2, 2)), ("square", (3, 1)), ("hex", (1, 3))):
        for st in (False, True):
            for f in range(2):
                for soft in (True, False):
                    out.append({"alg": "ent", "kind": kind, "shape": shape, "self": st, "f": f, "soft": soft, "L": 2 + (tier == "thorough"), "iters": [1, 3] if tier == "quick" else [1, 2, 4, 6]})
                    out.append({"alg": "ent2", "kind": kind, "shape": shape, "self": st, "f": f, "soft": soft, "L": 1 + (tier == "thorough")})
                    out.append({"alg": "hyp", "kind": kind, "shape": shape, "self": st, "f": f, "soft": soft, "L": 2 + (tier == "thorough")})
                    out.append({"alg": "hyp2", "kind": kind, "shape": shape, "self": st, "f": f, "soft": soft, "L": 1 + (tier == "thorough")})
    # walls, which may leave a state without any move
    for kind in ("square", "hex"):
        for shape, wall in (((2, 3), 1), ((2, 3), 3), ((1, 3), 1), ((4, 1), 1)):
            for soft in (True, False):
                for alg in ("ent", "hyp"):
                    out.append({"alg": alg, "kind": kind, "shape": shape, "self": False, "f": 0, "soft": soft, "L": 1 + (tier == "thorough"), "iters": [1, 3], "wall": wall, "T": 500})
    # features that are almost the same everywhere
    for kind, shape in (("square", (3, 1)), ("hex", (2, 2)), ("square", (2, 2))):
        for soft in (True, False):
            for f in range(2):
                out.append({"alg": "hyp", "kind": kind, "shape": shape, "self": True, "f": f, "soft": soft, "L": 1, "scale": 1e-4})
    out += [{"alg": "slow", "kind": kind, "shape": (2, 2), "self": True, "f": f, "soft": True} for kind in ("square", "hex") for f in range(2)]
    return out


def warm():
    from maMDP.algorithms import irl
    m = sut.grid("square", (2, 2), [[1, 0, 0, 1]], self_transitions=True)
    i = sut.grid("hex", (2, 2), np.array([[1, 0, 0, 1]]), self_transitions=True)
    for soft, m in itertools.product((True, False), (m, i)):
        irl.MaxCausalEntIRL(max_iter_irl=1, soft=soft).fit(m, [[0, 1]], show_progress=False)
        irl.HyptestIRL(normalisation="z-score", soft=soft).fit(m, [[0, 1]], show_progress=False)


def world(job, f=None):
    w, h = job["shape"]
    n = w * h
    F = np.array([r[:n] for r in FEATS[job["f"] if f is None else f]], dtype=float)
    if "scale" in job:
        F = 1 + job["scale"] * F
    walls = [1 if i == job.get("wall") else 0 for i in range(n)]
    succ = model.with_walls(model.lattice(job["kind"], w, h, job["self"]), walls)
    # the second set is of whole numbers, held as such in hexagonal grids
    return sut.grid(job["kind"], (w, h), F.astype(int) if job["kind"] == "hex" and np.array_equal(F, F.astype(int)) else F, walls=walls if "wall" in job else None, self_transitions=job["self"]), F, succ


class Ref:
    def __init__(self, F, succ, soft, max_iter, discount=0.9):
        self.F, self.succ, self.soft, self.T, self.d = F, succ, soft, max_iter, discount
        self.sas = model.succ_to_sas(succ)

    def q(self, theta):
        r = np.dot(theta, self.F)
        return model.soft_optimal(self.sas, r, self.d, 1e-12)[1] if self.soft else model.optimal(self.sas, r, self.d)[1]

    def policy(self, theta):
        q = self.q(theta)
        out = np.zeros(q.shape)
        live = [s for s in range(len(q)) if np.isfinite(q[s]).any()]
        for s in live:
            if self.soft:
                out[s] = model.softmax(q[s], 1)
            else:
                best = np.abs(q[s] - q[s].max()) < 1e-9
                out[s] = best / best.sum()
        gap = min([1.0] + [(float(np.min((q[s].max() - q[s])[(q[s].max() - q[s]) > 1e-9])) if np.any((q[s].max() - q[s]) > 1e-9) else 1.0) for s in live])
        ties = any(np.sum(np.abs(q[s] - q[s].max()) < 1e-9) > 1 for s in live)
        return out, (gap > 1e-6 and not ties) or self.soft

    def expected(self, theta, starts):
        """How often each feature is met when following the policy for T steps, per step."""
        pi, ok = self.policy(theta)
        P = np.einsum("sa,sat->st", pi, self.sas)
        p = np.array(starts, dtype=float)
        tot = np.zeros(len(p))
        for _ in range(self.T):
            tot += p
            p = p @ P
        return self.F @ (tot / tot.sum()), ok

    def maxent(self, trajs, iters, lr, decay, theta, ignore, tol=1e-8):
        n = self.F.shape[1]
        obs = np.zeros(n)
        starts = np.zeros(n)
        for t in trajs:
            for s in t:
                obs[s] += 1 / len(t) / len(trajs)
            starts[t[0]] += 1 / len(trajs)
        want = self.F @ obs
        keep = np.array([f not in ignore for f in range(len(self.F))], dtype=float)
        theta = (np.zeros(len(self.F)) if theta is None else np.array(theta, dtype=float)) * keep
        sure = True
        for i in range(iters):
            e, ok = self.expected(theta, starts)
            sure = sure and ok
            err = (want - e) * keep
            theta = theta + lr * (i + 1) ** (-float(decay)) * err
            if np.mean(np.abs(err)) < tol:
                break
        return theta, sure

    def zscores(self, f, s):
        th = np.zeros(len(self.F))
        th[f] = 1
        if f not in self.cache:
            self.cache[f] = self.q(th)
        q = self.cache[f][s]
        acts = [a for a in range(len(self.succ[0])) if self.succ[s][a] is not None]
        sd = math.sqrt(np.mean((q[acts] - q[acts].mean()) ** 2))
        z = {a: ((q[a] - q[acts].mean()) / sd if sd > 1e-7 else 0.0) for a in acts}
        return z, sd

    cache = None


def hyp(refs, trajs, lr, decay, asym, theta, ignore):
    nf = len(refs[0].F)
    R = np.zeros(nf) if theta is None else np.array(theta, dtype=float)
    k = 1
    sure = True
    steps, ends = [], []
    for ref, t in zip(refs, trajs):
        for s, u in zip(t, t[1:]):
            a = [x for x in range(len(ref.succ[0])) if ref.succ[s][x] == u][0]
            r = np.zeros(nf)
            for f in range(nf):
                if f in ignore:
                    continue
                z, sd = ref.zscores(f, s)
                if sd <= 1e-7:
                    sure = False
                r[f] = z[a]
            delta = r - R
            if decay > 0:
                dd = np.abs(r) - np.abs(R)
                if np.any(np.abs(dd) < 1e-7) and np.any((np.abs(dd) < 1e-7) & (np.abs(delta) > 1e-7)):
                    sure = False
                R = R + np.where(dd < 0, lr * asym, lr / asym) * float(k) ** (-float(decay)) * delta
            else:
                R = R + lr * delta
            k += 1
            steps.append(R.copy())
        ends.append(R.copy())
    return R, steps, ends, sure


def walks(succ):
    """Longer walks, from every state."""
    out = []
    for s in range(len(succ)):
        for L in (4, 6, 9) + ((60,) if s == 1 else ()):
            t = [s]
            for k in range(L):
                opts = sorted({u for u in succ[t[-1]] if u is not None})
                if not opts:
                    break
                t.append(opts[(k * k + s + L) % len(opts)])
            if len(t) > 1:
                out.append(t)
    return out


def ignores(nf):
    return [ig for k in range(nf + 1) for ig in itertools.combinations(range(nf), k)]


def run(job, ctx):
    from maMDP.algorithms import irl
    mdp, F, succ = world(job)
    nf = len(F)
    disc = [0.9, 0.5][job["f"]]

    def close(msg, got, want, **note):
        got = np.asarray(got, dtype=float)
        if got.shape != np.shape(want) or np.any(~np.isfinite(got)) or np.max(np.abs(got - want)) > (1e-3 if "scale" in job else 1e-6) * (1 + np.max(np.abs(want))):
            ctx.fail(msg, got=got, want=want, **note)

    if job["alg"] == "slow":
        # learning rates that have decayed to almost nothing
        ref = Ref(F, succ, True, 60, .5)
        for t in walks(succ)[::3] + paths(succ, 1, 1)[::4]:
            for iters, decay, lr in ((12, 3, .4), (130, 1, 2.0), (60, .5, .05), (40, 2, 30.0)):
                for theta in (None, [0.5, -1, 0.25][:nf]):
                    ctx.case = {"job": job, "trajectory": t, "iterations": iters, "decay": decay}
                    want, sure = ref.maxent([t], iters, lr, decay, theta, ())
                    ctx.traces += 1
                    ctx.states += 1
                    ctx.transitions += iters
                    le = irl.MaxCausalEntIRL(learning_rate=lr, decay=decay, max_iter_irl=iters, theta=None if theta is None else np.array(theta), VI_max_iter=60, VI_discount=.5)
                    close("weights inferred with a learning rate that decays", le.fit(mdp, [list(t)], show_progress=False), want)
        return
    if job["alg"].startswith("ent"):
        T = job.get("T", 300)  # planning converges, and visitations are counted over the same horizon
        ref = Ref(F, succ, job["soft"], T, disc)

        def fit(trajs, iters, decay, theta, ig):
            le = irl.MaxCausalEntIRL(learning_rate=0.4, decay=decay, max_iter_irl=iters, theta=None if theta is None else np.array(theta), soft=job["soft"],
                                     VI_max_iter=T, tol=1e-8, VI_discount=disc)
            return le.fit(mdp, [list(t) for t in trajs], ignore_features=tuple(ig), show_progress=False)

        if job["alg"] == "ent":
            ts = paths(succ, job["L"])
            for k, t in enumerate(ts):
                for iters in job["iters"]:
                    decay, theta = [(1, None), (0, [0.5, -1, 0.25][:nf]), (0.5, None), (2, [1.0, 0.0, -0.5][:nf])][k % 4]
                    igs = ignores(nf)
                    ig = igs[k % len(igs)]
                    ctx.case = {"job": job, "trajectory": t, "iterations": iters, "decay": decay, "theta": theta, "ignored": ig}
                    want, sure = ref.maxent([t], iters, 0.4, decay, theta, ig)
                    ctx.traces += 1
                    ctx.states += 1
                    ctx.transitions += iters
                    got = fit([t], iters, decay, theta, ig)
                    if sure:
                        close("weights inferred from one trajectory", got, want)
            for k, t in enumerate(walks(succ)):
                for iters, decay in ((1, 0), (3, 1), (12, 0.5)) + (((45, 1), (45, 0)) if k == 1 else ()):
                    ctx.case = {"job": job, "trajectory": t, "iterations": iters, "decay": decay}
                    want, sure = ref.maxent([t], iters, 0.4, decay, None, ())
                    ctx.traces += 1
                    ctx.states += 1
                    ctx.transitions += iters
                    got = fit([t], iters, decay, None, ())
                    if sure:
                        close("weights inferred from one long trajectory", got, want)
            t = ts[-1]
            for iters in job["iters"]:
                for decay in (0, 0.5, 1, 2):
                    for theta in (None, [0.5, -1, 0.25][:nf]):
                        for ig in ignores(nf):
                            ctx.case = {"job": job, "trajectory": t, "iterations": iters, "decay": decay, "theta": theta, "ignored": ig}
                            want, sure = ref.maxent([t], iters, 0.4, decay, theta, ig)
                            ctx.traces += 1
                            ctx.states += 1
                            ctx.transitions += iters
                            got = fit([t], iters, decay, theta, ig)
                            if sure:
                                close("weights inferred from one trajectory", got, want)
                            if any(got[f] != 0 for f in ig):
                                ctx.fail("an ignored feature got a weight", got=got)
        else:
            ts = paths(succ, job["L"])
            for a, b in itertools.product(ts, ts):
                ctx.case = {"job": job, "trajectories": [a, b]}
                ctx.traces += 1
                ctx.states += 1
                ctx.transitions += 2
                got = fit([a, b], 2, 1, None, ())
                want, sure = ref.maxent([a, b], 2, 0.4, 1, None, ())
                if sure:
                    close("weights inferred from two trajectories", got, want)
            # three and four trajectories of different lengths, which may start in the same state
            one = [t for t in ts if len(t) == 1]
            two = [t for t in ts if len(t) == 2]
            more = list(itertools.product(one, one, two)) + list(itertools.product(two[:4], two, one[:2]))
            more += list(itertools.product(one[:2], two[:2], one[1:2], two[1:3])) + [tuple(one[:2] + two[:2] + one[-1:]), tuple(two[:4] + one[:2])]
            if job["L"] > 1:
                more += list(itertools.product(one, one, one, two))
            for tr in more:
                ctx.case = {"job": job, "trajectories": list(tr)}
                ctx.traces += 1
                ctx.states += 1
                ctx.transitions += 2
                got = fit(list(tr), 2, 0, None, ())
                want, sure = ref.maxent(list(tr), 2, 0.4, 0, None, ())
                if sure:
                    close("weights inferred from several trajectories", got, want)
        return

    def fith(trajs, decay, asym, theta, ig, mdps=None):
        le = irl.HyptestIRL(learning_rate=0.4, decay=decay, asymmetry=asym, theta=None if theta is None else np.array(theta), soft=job["soft"],
                            normalisation="z-score", VI_max_iter=1000, tol=1e-10, VI_discount=disc)
        le.fit(mdps or mdp, [list(t) for t in trajs], ignore_features=tuple(ig), show_progress=False)
        return le

    ref = Ref(F, succ, job["soft"], 1, disc)
    ref.cache = {}
    if job["alg"] == "hyp":
        for k, t in enumerate(paths(succ, job["L"], 1) + walks(succ)):
            igs = ignores(nf)
            for decay, theta, asym in ((0, None, 2), (1, None, 2), (0.5, [0.5, -1, 0.25][:nf], 3), (2, [1.0, 0.0, -0.5][:nf], 1.5)):
                for ig in (igs if k % 3 == 0 else igs[:2]):
                    ctx.case = {"job": job, "trajectory": t, "decay": decay, "theta": theta, "ignored": ig}
                    want, steps, ends, sure = hyp([ref], [t], 0.4, decay, asym, theta, ig)
                    ctx.traces += 1
                    ctx.states += 1
                    ctx.transitions += len(t) - 1
                    le = fith([t], decay, asym, theta, ig)
                    if sure:
                        close("weights inferred from one trajectory", le.theta, want)
                        close("weights inferred after each move", le.theta_array, np.array(steps))
                        close("weights inferred after each trajectory", le.trajectory_theta, np.array(ends))
                    elif np.any(~np.isfinite(le.theta)):
                        ctx.fail("weights are not finite", got=le.theta)
    else:
        m2, F2, succ2 = world(job)
        F2 = F[:, ::-1].copy()
        m2 = sut.grid(job["kind"], job["shape"], F2, self_transitions=job["self"])
        ref2 = Ref(F2, succ, job["soft"], 1, disc)
        ref2.cache = {}
        ts = paths(succ, job["L"], 1)
        for k, (a, b, c) in enumerate(itertools.product(ts[::2], walks(succ)[::4], ts[::3])):
            ctx.case = {"job": job, "trajectories": [a, b, c]}
            ctx.traces += 1
            ctx.states += 1
            ctx.transitions += len(a) + len(b) + len(c) - 3
            order = [(ref, mdp), (ref2, m2), (ref, mdp)] if k % 2 else [(ref2, m2), (ref, mdp), (ref2, m2)]
            want, steps, ends, sure = hyp([o[0] for o in order], [a, b, c], 0.4, 1, 2, None, ())
            le = fith([a, b, c], 1, 2, None, (), mdps=[o[1] for o in order])
            if sure:
                close("weights inferred from three trajectories", le.theta, want)
                close("weights inferred after each of three trajectories", le.trajectory_theta, np.array(ends))
            elif np.any(~np.isfinite(le.theta)):
                ctx.fail("weights are not finite", got=le.theta)
        for a, b in itertools.product(ts, ts):
            for two in (False, True):
                ctx.case = {"job": job, "trajectories": [a, b], "two_worlds": two}
                ctx.traces += 1
                ctx.states += 1
                ctx.transitions += len(a) + len(b) - 2
                want, steps, ends, sure = hyp([ref, ref2 if two else ref], [a, b], 0.4, 1, 2, None, ())
                le = fith([a, b], 1, 2, None, (), mdps=[mdp, m2] if two else None)
                if sure:
                    close("weights inferred from two trajectories", le.theta, want)
                    close("weights inferred after each trajectory", le.trajectory_theta, np.array(ends))
                elif np.any(~np.isfinite(le.theta)):
                    ctx.fail("weights are not finite", got=le.theta)
