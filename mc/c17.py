"""C17 policy learning from observed moves follows its error-driven update on every trajectory"""
import itertools
import numpy as np
from . import model, sut
from .c15 import paths

PROPERTY = "C17"
ASSUMPTIONS = ["the shape of the generalisation between actions is only required to be a symmetric function of the angle between them, highest (1) for the action itself and falling with the angle"]
BOUNDS = {"quick": "every trajectory of up to 3 moves and every pair of trajectories of up to 2 moves (in the same world or two worlds), 2x2, 3x1 square and hex grids with and without staying put, learning rates 0.3 and 1, decay 0, 0.5, 1, 2, initial values or none, with and without generalisation, three and four trajectories (a third of those of up to 1 move), empty trajectories",
          "thorough": "4 moves, triples"}


def jobs(tier):
    out = []
    for kind, shape in (("square", (2, 2)), ("hex", (2, 2)), ("square", (3, 1)), ("square", (1, 3)), ("hex", (3, 2))):
        for st in (False, True):
            for kernel in (False, True):
                out.append({"kind": kind, "shape": shape, "self": st, "kernel": kernel, "L": (3 if shape != (3, 2) else 2) + (tier == "thorough")})
                if shape != (3, 2):
                    out.append({"kind": kind, "shape": shape, "self": st, "kernel": kernel, "pairs": 2 if not (kind == "hex" and st) or tier == "thorough" else 1, "triple": tier == "thorough"})
    return out


def warm():
    sut.grid("hex", (2, 2))


def learner(**kw):
    from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
    return TDGeneralPolicyLearner(**kw)


def world(job, wall=None):
    w, h = job["shape"]
    walls = [0] * (w * h)
    if wall is not None:
        walls[wall] = 1
    succ = model.with_walls(model.lattice(job["kind"], w, h, job["self"]), walls)
    return sut.grid(job["kind"], (w, h), walls=walls if wall is not None else None, self_transitions=job["self"]), succ


def act(succ, s, t):
    return [a for a, u in enumerate(succ[s]) if u == t][0]


def kernels(ctx, job, mdp, succ, ls):
    """What one observation of each action adds, measured with a learning rate of 1; checks its shape."""
    na = len(succ[0])
    K = {}
    for s in range(len(succ)):
        for a, t in enumerate(succ[s]):
            if t is not None and a not in K and act(succ, s, t) == a:
                le = learner(learning_rate=1.0, decay=0, kernel=job["kernel"], ls=ls)
                le.fit(mdp, [[s, t]])
                K[a] = np.array(le.get_q_values(s), dtype=float)
                ctx.traces += 1
    for a, k in K.items():
        if k.shape != (na,) or abs(k[a] - 1) > 1e-9:
            ctx.fail("an action that was seen is not valued most", action=a, got=k)
        for b in range(na):
            if not job["kernel"]:
                if b != a and k[b] != 0:
                    ctx.fail("an action that was not seen is valued", action=a, other=b, got=k)
                continue
            for c in range(na):
                db, dc = [min((x - a) % na, (a - x) % na) for x in (b, c)]
                if db == dc and abs(k[b] - k[c]) > 1e-9:
                    ctx.fail("generalisation depends on more than the angle between actions", action=a, got=k)
                if db < dc and k[b] <= k[c]:
                    ctx.fail("generalisation does not fall with the angle between actions", action=a, got=k)
        for a2, k2 in K.items():
            for d in range(na):
                if job["kernel"] and abs(k[(a + d) % na] - k2[(a2 + d) % na]) > 1e-9:
                    ctx.fail("generalisation depends on the action itself", actions=[a, a2], got=[k, k2])
    return K


def ref(K, succs, trajs, lr, decay, Q, na):
    Q = np.zeros(na) if Q is None else np.array(Q, dtype=float)
    n = 1
    for succ, t in zip(succs, trajs):
        for s, u in zip(t, t[1:]):
            Q = Q + lr * (float(n) ** (-float(decay)) if decay > 0 else 1.0) * (K[act(succ, s, u)] - Q)
            n += 1
    return Q


def run(job, ctx):
    mdp, succ = world(job)
    na = len(succ[0])
    init = [0.25 * i - 0.5 for i in range(na)]
    ls = 0.015 if job["kernel"] else 0.02
    K = kernels(ctx, job, mdp, succ, ls)
    confs = [(lr, d, q) for lr in (0.3, 1.0) for d in (0, 0.5, 1, 2) for q in (None, init)]

    def go(mdps, succs, trajs, lr, d, q):
        ctx.case = {"job": job, "trajectories": trajs, "learning_rate": lr, "decay": d, "initial": q}
        le = learner(learning_rate=lr, decay=d, Q=None if q is None else np.array(q), kernel=job["kernel"], ls=ls)
        le.fit(mdps, [list(t) for t in trajs])
        want = ref(K, succs, trajs, lr, d, q, na)
        ctx.traces += 1
        ctx.transitions += sum(max(0, len(t) - 1) for t in trajs)
        for s in range(len(succ)):
            got = np.asarray(le.get_q_values(s), dtype=float)
            if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-9:
                ctx.fail("learned action values", state=s, got=got, want=want)

    if "L" in job:
        for t in paths(succ, job["L"]):
            ctx.states += 1
            for c in confs:
                go(mdp, [succ], [t], *c)
        # long walks
        for s in range(len(succ)):
            for w in range(2):
                t = [s]
                for k in range(15 if s or w else 260):
                    opts = sorted({u for u in succ[t[-1]] if u is not None})
                    t.append(opts[(k * (w + 1) + s) % len(opts)])
                ctx.states += 1
                for c in confs:
                    go(mdp, [succ], [t], *c)
        go([mdp, mdp], [succ, succ], [[], paths(succ, 1)[-1]], 0.3, 0.5, init)
        go(mdp, [succ], [[]], 0.3, 0.5, init)
        return
    # two worlds of the same size, in which the same states are linked by different moves
    other = dict(job)
    if job["kind"] == "square" and job["shape"][0] != job["shape"][1]:
        other["shape"] = job["shape"][::-1]
    m2, succ2 = world(other)
    if job["shape"] == (2, 2) or list(job["shape"]) == [2, 2]:
        m2, succ2 = world(job, wall=3)
    for a, k in kernels(ctx, job, m2, succ2, ls).items():
        if a in K and np.max(np.abs(K[a] - k)) > 1e-12:
            ctx.fail("what an observation adds depends on the world it was made in", action=a, got=[K[a], k])
        K[a] = k
    pa, pb = paths(succ, job["pairs"]), paths(succ2, job["pairs"])
    for a, b in itertools.product(pa, pb):
        ctx.states += 1
        go([mdp, m2], [succ, succ2], [a, b], 0.3, 0.5, None)
        go([m2, mdp], [succ2, succ], [b, a], 0.3, 1, init)
    for a, b in itertools.product(pa, pa):
        ctx.states += 1
        go(mdp, [succ, succ], [a, b], 0.3, 1, None)
    p1 = paths(succ, 1)
    if not job.get("triple"):
        p1 = p1[::2] if len(p1) < 24 else p1[::4]
    for k, (a, b, c, d) in enumerate(itertools.product(p1, p1[::3], p1[::2], p1[::5])):
        if k % 3 == 0:
            ctx.states += 1
            go([mdp, m2, mdp, m2], [succ, succ2, succ, succ2], [a] + [t if all(u in succ2[s] for s, u in zip(t, t[1:])) else [0] for t in [b]] + [c] +
               [t if all(u in succ2[s] for s, u in zip(t, t[1:])) else [] for t in [d]], 0.3, 0.5, None)
    if True:
        for a, b, c in itertools.product(p1, p1, p1):
            ctx.states += 1
            go(mdp, [succ] * 3, [a, b, c], 0.3, 0.5, None)
