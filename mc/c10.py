"""C10 the distribution of an agent's next position is exact and looking at it changes nothing"""
import itertools
import numpy as np
from . import core, envmc, model, sut

PROPERTY = "C10"
ASSUMPTIONS = ["the step counter is not compared"]
BOUNDS = {"quick": "2x2 and 3x1 grids, all wall masks that leave the agent a move, stochastic 3-state MDPs over halves, max and softmax agents, all starting distributions over {0,1,3}^n, every random outcome of the real step; starting distributions with tiny entries, or over all states of grids with 20 and 272 states; temperatures 0.5 and 0.15",
          "thorough": "plus 2x3 grids and starting distributions over {0,1,2,3}^n"}
TEMP = {"soft": 0.5, "cold": 0.15}


def jobs(tier):
    out = []
    for kind in ("square", "hex"):
        for shape in ((2, 2), (3, 1)) if tier == "quick" else ((2, 2), (3, 1), (2, 3)):
            for st in (False, True):
                for sel in ("max", "soft", "cold"):
                    n = shape[0] * shape[1]
                    for w in model.masks(n):
                        if sel == "cold" and sum(w):
                            continue
                        if sum(w) <= (1 if tier == "quick" else 2):
                            out.append({"kind": kind, "shape": shape, "self": st, "sel": sel, "walls": w, "tier": tier})
    for kind, shape in (("square", (5, 4)), ("hex", (4, 5)), ("square", (17, 16)), ("hex", (1, 20))):
        for sel in ("max", "soft"):
            n = shape[0] * shape[1]
            out.append({"kind": kind, "shape": shape, "self": True, "sel": sel, "walls": [1 if i == 7 else 0 for i in range(n)], "tier": tier})
    for i in range(len(sto())):
        for sel in ("max", "soft", "cold"):
            if sel == "cold" and i % 4:
                continue
            out.append({"sto": i, "sel": sel, "tier": tier})
            if tier == "thorough" or i % 5 == 0:
                for w in ((0, 1, 0), (0, 0, 1), (1, 0, 0)):
                    out.append({"sto": i, "sel": sel, "tier": tier, "walls": w})
    return out


def sto():
    R = [[1, 0, 0], [0, 0, 1], [.5, .5, 0], [0, .5, .5], [.25, .25, .5]]
    out = []
    for r in itertools.product(R, repeat=3):
        s = np.zeros((3, 2, 3))
        s[0, 0], s[0, 1], s[1, 0] = r
        s[1, 1] = [0, 1, 0]
        s[2, 0] = r[0]
        out.append(s)
    return out


def warm():
    sut.SoftmaxActionSelector().get_pi_p(np.array([[0.0, 1.0]]))
    sut.grid("hex", (2, 2))


class Fixed(sut.Algorithm):
    """Values chosen to have ties and differences in every state."""

    def __init__(self):
        self.name = "fixed"
        super().__init__()

    def _fit(self, mdp, reward_function, position, n_moves, *a, **k):
        q = np.array([[float((s * 2 + a * a) % 3) * 0.5 for a in range(mdp.n_actions)] for s in range(mdp.n_states)])
        q[np.asarray(mdp.sas).sum(axis=-1) == 0] = -np.inf
        return np.zeros(mdp.n_states), q


def run(job, ctx):
    ctx.case = job
    if "sto" in job:
        sas = sto()[job["sto"]]
        n = 3
        open_sas = sas
        if "walls" in job:
            sas = model.sas_with_walls(sas, job["walls"])
            mk = lambda: sut.MDP(np.array([[1.0, 0, 2]]), open_sas.copy(), walls=np.array(job["walls"]))
        else:
            mk = lambda: sut.MDP(np.array([[1.0, 0, 2]]), sas.copy())
    else:
        kind, shape, st = job["kind"], tuple(job["shape"]), job["self"]
        n = shape[0] * shape[1]
        sas = model.succ_to_sas(model.with_walls(model.lattice(kind, shape[0], shape[1], st), job["walls"]))
        mk = lambda: sut.grid(kind, shape, [[1] * n], walls=job["walls"], self_transitions=st)
    A = sas.shape[1]
    free = [s for s in range(n) if model.valid(sas, s)]
    if not free:
        return
    q = np.array([[float((s * 2 + a * a) % 3) * 0.5 for a in range(A)] for s in range(n)])
    q[sas.sum(axis=-1) == 0] = -np.inf
    sel = (lambda: dict(action_selector=sut.MaxActionSelector)) if job["sel"] == "max" else \
        (lambda: dict(action_selector=sut.SoftmaxActionSelector, action_kwargs={"temperature": TEMP[job["sel"]]}))
    pol = np.zeros((n, A))
    for s in free:
        if job["sel"] == "max":
            b = [a for a in range(A) if q[s, a] == q[s].max()]
            pol[s, b] = 1 / len(b)
        else:
            pol[s] = model.softmax(q[s], TEMP[job["sel"]])

    def fresh(pos):
        ag = sut.Agent("a", algorithm=Fixed, **sel())
        other = sut.Agent("b", algorithm=Fixed)
        env = sut.Environment(mk(), {ag: (pos, [1.0, 0, 0], [0]), other: (free[0], [1.0, 0, 0], [])})
        env.fit("a")
        return env

    nxt = np.zeros((n, n))
    for s in free:
        for a in range(A):
            if pol[s, a] > 0:
                nxt[s] += pol[s, a] * sas[s, a]

    def snapshot(env):
        return (env.agents["a"].position, env.agents["b"].position, np.array(env.mdp.features).tobytes(), np.array(env.mdp.sas).tobytes(),
                tuple(env.get_agent_position_history("a")), np.array(env.agents["a"].consumed).tobytes(),
                np.array(env.get_agent_q_values("a")).tobytes())

    for pos in free if n < 50 else free[::37] + free[-1:]:
        env = fresh(pos)
        before = snapshot(env)
        got = np.asarray(env.step_proba("a"))
        ctx.states += 1
        ctx.traces += 1
        ctx.case = dict(job, position=pos)
        if np.any(np.abs(got - nxt[pos]) > 1e-13 + 1e-9 * nxt[pos]):
            ctx.fail("distribution of the next position", got=got, want=nxt[pos])
        if snapshot(env) != before:
            ctx.fail("looking at the distribution of the next position changed the environment")
        # and it is the distribution of what the real step does, over all its random outcomes
        def once():
            e = fresh(pos)
            return int(e.step("a"))

        if n <= 4:
            dist, info = real_step(ctx, fresh, pos)
            if info["choices"]:
                if core.off(dist, {t: got[t] for t in range(n) if got[t] > 0}, info):
                    ctx.fail("stepping and the distribution of the next position disagree", stepped=dist, distribution=got)
            else:
                for t in dist:
                    if got[t] <= 0:
                        ctx.fail("stepping led to a state of probability zero", stepped=dist, distribution=got)
    vals = (0, .25, 3, 2e-8) if job["tier"] == "quick" else (0, .125, 2, 3, 2e-8)
    if n > 4:
        vals = (0, .3)
    env = fresh(free[0])
    before = snapshot(env)
    starts = itertools.product(vals, repeat=n) if n < 10 else \
        [[1.0] * n, [float(i + 1) for i in range(n)], [float(i % 2) for i in range(n)], [float(n - i) ** 3 for i in range(n)], [.5 if i < 3 else 1e-4 for i in range(n)],
         [1.0 if i == n - 1 else .0 for i in range(n)], [2.0 ** -(i % 40) for i in range(n)]]
    for p in starts:
        p = [x if n < 10 or s in free else 0.0 for s, x in enumerate(p)]
        if sum(p) == 0 or any(p[s] and s not in free for s in range(n)):
            continue
        start = np.array(p, dtype=float)
        keep = start.copy()
        got = np.asarray(env.step_proba("a", position=start))
        want = (keep / keep.sum()) @ nxt
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += int((keep > 0).sum())
        ctx.case = dict(job, start=p)
        if np.any(np.abs(got - want) > 1e-13 + 1e-9 * want):
            ctx.fail("distribution of the next position from a distribution of positions", start=p, got=got, want=want)
        if abs(got.sum() - 1) > 1e-9:
            ctx.fail("probability is not conserved", start=p, got=got)
        if not np.array_equal(start, keep):
            ctx.fail("the caller's distribution was changed")
    if snapshot(env) != before:
        ctx.fail("looking at the distribution of the next position changed the environment")


def real_step(ctx, fresh, pos):
    """Outcome distribution of the real step.  The policy draws one action per state, but only the draw for the current
    state matters, so the draws for the other states are enumerated only where they tie with it."""
    env = fresh(pos)
    q = np.array(env.get_agent_q_values("a"))
    # the same values, with every other state made unambiguous
    for s in range(q.shape[0]):
        if s != pos and np.any(np.isfinite(q[s])):
            b = int(np.argmax(q[s]))
            for a in range(q.shape[1]):
                if a != b:
                    q[s, a] = -np.inf

    def once():
        e = fresh(pos)
        e.agents["a"].algorithm.q_values = q.copy()
        return int(e.step("a"))

    out = {}
    info = {"choices": 0, "exact": True}

    def run1(ch):
        e = fresh(pos)
        e.agents["a"].algorithm.q_values = q.copy()
        with core.ControlledRandom(ch):
            r = int(e.step("a"))
        out[r] = out.get(r, 0.0) + ch.weight
        info["choices"] += len(ch.trace)
        info["exact"] = info["exact"] and ch.exact

    core.explore(run1, ctx, 3000, 600)
    info["truncated"] = ctx.last_truncated
    return out, info
