"""C12 interactive tree search: other agents take their turns, act in their own interest, eat and are eaten once"""
import itertools
import numpy as np
from . import core, envmc, mctsmc, model, sut
from .c11 import warm as _w

PROPERTY = "C12"
ASSUMPTIONS = ["deterministic MDPs, as documented", "agents have no preference for their own position",
               "random draws of the compiled functions are explored on the Python they are compiled from; the compiled ones are replayed against the model too"]
BOUNDS = {"quick": "two and three agents on 2x2, 3x1 and 1x4 grids, 1-3 simulations of up to 6 moves in total, every random outcome; predators, prey, chains, competitors; random / greedy / softmax opponents; prey worth nothing or less; turns of up to 7 moves in worlds in which most moves are forced",
          "thorough": "up to 4 simulations, 8 moves, 2x3 grids"}


def A(pos, consumes, rf, n_moves=1):
    return {"pos": pos, "consumes": consumes, "rf": rf, "n_moves": n_moves}


def scenarios():
    """(kind, shape, self, features, agents) - feature 0 is food, agent features follow in order."""
    out = []
    sq, hx, line, col = ("square", (2, 2)), ("hex", (2, 2)), ("square", (4, 1)), ("square", (1, 3))
    food = {4: [0, 1, 1, 0.5], 3: [1, 0, 2]}
    for kind, shape in (sq, hx, line, col):
        n = shape[0] * shape[1]
        f = [food[n]]
        for p, o in ((0, n - 1), (n - 1, 0), (0, 1), (1, 1), (1, n - 1)):
            # the planner is hunted
            out.append((kind, shape, [A(p, [0], [1, 0, 0]), A(o, [1], [0, 2, 0])], f))
            # the planner hunts; the prey eats food and avoids it
            out.append((kind, shape, [A(p, [2], [0.5, 0, 3]), A(o, [0], [1, -2, 0])], f))
            # competitors for the same food, nobody eats anybody
            out.append((kind, shape, [A(p, [0], [1, 0, 0]), A(o, [0], [2, 0, 0])], f))
            # both would eat the other
            out.append((kind, shape, [A(p, [2], [0, 0, 2]), A(o, [1], [0, 1, 0])], f))
            # indifferent opponent
            out.append((kind, shape, [A(p, [0], [1, 0, -1]), A(o, [], [0, 0, 0])], f))
    return out


def jobs(tier):
    q = tier == "quick"
    out = [{"jit": i} for i in range(2)]
    sc = scenarios()
    for k, (kind, shape, ags, f) in enumerate(sc):
        base = {"kind": kind, "shape": shape, "self": False, "features": f, "walls": None, "agents": ags, "interactive": True, "C": 1, "caught_cost": -7}
        for n_iter, moves in ((2, [[1, 1], [1, 1]]), (2, [[2], [1]]), (2, [[1], [2]]), (1, [[2, 1], [1, 2]]), (2, [[1, 1], [0, 1]]), (2, [[0, 1], [1, 0]]), (2, [[0, 1, 1], [1, 1, 0]])):
            out.append(dict(base, policy="solve", n_iter=n_iter, moves=moves))
        for n_iter, moves in ((2, [[1, 1], [1, 1]]), (1, [[2], [2]]), (1, [[1, 1, 1], [1, 1, 1]])):
            if q and n_iter == 2 and k % 2:
                continue
            out.append(dict(base, policy="random", n_iter=n_iter, moves=moves))
        out.append(dict(base, policy="solve", n_iter=2, moves=None, n_steps=3))
        out.append(dict(base, policy="random", n_iter=1, moves=None, n_steps=4))
        out.append(dict(base, who=1, policy="solve", n_iter=2, moves=[[1, 1], [1, 1]]))
        idle = not any(ags[1]["rf"])  # every move of the opponent is a tie: many more outcomes
        if q and idle:
            continue
        if k % 2 == 0 or not q:
            out.append(dict(base, policy="solve", n_iter=2, moves=[[1, 1], [1, 1]], self=True))
            out.append(dict(base, policy="solve", n_iter=1, moves=[[1], [1]], selection="softmax", temperature=0.7))
            out.append(dict(base, policy="solve", n_iter=2, moves=[[1, 1], [1, 1]], caching=True))
            out.append(dict(base, policy="solve", n_iter=2, moves=[[2, 1], [1, 1]], VI_kwargs={"VI_discount": 0.5}))
            out.append(dict(base, policy="solve", n_iter=3 if q else 4, moves=[[1, 1], [1, 1]], C=0))
    # softmax opponents: rare choices, low and high temperatures
    for kind, shape, pos in (("square", (2, 2), (0, 3)), ("square", (3, 1), (0, 1)), ("hex", (2, 2), (2, 1))):
        for rf, temp in (([.1, 0, 0], 0.1), ([.1, 0, 0], .04), ([.1, 0, 0], .03), ([.1, 0, 0], .02), ([1, 0, 0], .4), ([1, 0, 0], .25), ([1, 0, 0], .2), ([1, 0, 0], .15), ([3, .2, 0], 1), ([3, .2, 0], 20), ([.02, -.01, 0], .01)):
            f = [[1, 0, .4][:3] if shape == (3, 1) else [0, 1, .4, 0]]
            out.append({"kind": kind, "shape": shape, "self": False, "features": f, "walls": None, "agents": [A(pos[0], [0], [1, 0, 0]), A(pos[1], [], rf)],
                        "interactive": True, "C": 1, "caught_cost": -7, "policy": "solve", "n_iter": 1, "moves": [[1], [1]], "selection": "softmax",
                        "temperature": temp, "grid": 300 if q else 1000})
    # eating what one would rather not; a predator or prey of any worth
    for kind, shape in (("square", (2, 2)), ("square", (3, 1)), ("hex", (2, 2))):
        n = shape[0] * shape[1]
        for worth in (-3, 0, 5, -.01):
            for o in range(n):
                base = {"kind": kind, "shape": shape, "self": False, "features": [[.5, 0, 1, .25][:n]], "walls": None, "agents": [A(0, [2], [.5, 0, worth]), A(o, [0], [1, -.5, 0])],
                        "interactive": True, "C": 1, "caught_cost": -7}
                out.append(dict(base, policy="random", n_iter=2, moves=[[1], [1]]))
                out.append(dict(base, policy="solve", n_iter=2, moves=[[1, 1], [1, 1]]))
                out.append(dict(base, policy="solve", n_iter=1, moves=[[1, 1], [1, 1]], caught_cost=0, agents=[A(0, [2], [.5, 0, worth]), A(o, [0, 1], [1, worth, 0])]))
                out.append(dict(base, policy="solve", n_iter=1, moves=[[1, 1], [1, 1]], caught_cost=6, agents=[A(0, [], [.5, 0, worth]), A(o, [0, 1], [1, 2, 0])]))
    # turns of many moves, in a world so small that most moves are forced
    for pos in ((0, 1), (1, 0), (0, 0)):
        for eats in (([0], [0]), ([2], []), ([], [1]), ([0], [])):
            ags = [A(pos[0], eats[0], [1, 0, 1.5]), A(pos[1], eats[1], [1, 1, 0])]
            for moves in ([[5], [5]], [[6, 2], [1, 5]], [[1, 7], [6, 1]], [[3, 3, 3], [2, 0, 5]]):
                out.append({"kind": "square", "shape": (2, 1), "self": False, "features": [[1, 2]], "walls": None, "agents": ags, "interactive": True, "C": 1, "caught_cost": -7,
                            "policy": "solve", "n_iter": 2, "moves": moves})
            for steps in (9, 14):
                out.append({"kind": "square", "shape": (2, 1), "self": False, "features": [[1, 2]], "walls": None, "interactive": True, "C": 1, "caught_cost": -7,
                            "agents": [dict(ags[0], n_moves=5), dict(ags[1], n_moves=6)], "policy": "random", "n_iter": 2, "moves": None, "n_steps": steps})
    # three agents: a chain, two predators, two prey, a bystander
    three = [
        [A(0, [0], [1, 0, 0, 0]), A(3, [1], [0, 2, 0, 0]), A(2, [2], [0, 0, 2, 0])],
        [A(0, [2, 3], [0, 0, 1, 2]), A(1, [], [1, -1, 0, 0]), A(3, [0], [1, -1, 0, 0], 2)],
        [A(1, [3], [1, 0, 0, 4]), A(0, [1], [0, 3, 0, 0]), A(2, [0], [1, 0, 0, 0])],
        [A(0, [], [1, -1, 0, 0], 2), A(3, [1, 3], [0, 2, 0, 1]), A(3, [], [0, 0, -1, 0])],
        [A(2, [2], [0, 0, 1, 0]), A(2, [0], [1, 0, 0, 0]), A(0, [1], [0, 1, 0, 0])],
        [A(0, [2, 3], [1, 0, -1, 2]), A(1, [0], [1, .5, 0, 0]), A(2, [1, 2], [0, -.5, 1, 0])],
        [A(0, [2, 3], [.5, 0, 0, -2]), A(2, [3], [1, 0, 0, -1.5]), A(1, [0], [1, 1, 0, 0])],
    ]
    for ags in three:
        for kind, shape in (("square", (2, 2)), ("hex", (2, 2)), ("square", (4, 1))):
            base = {"kind": kind, "shape": shape, "self": False, "features": [[1, 0, 1, 1]], "walls": None, "agents": ags, "interactive": True, "C": 1, "caught_cost": -9}
            for who in (0, 1, 2):
                out.append(dict(base, who=who, policy="solve", n_iter=2, moves=[[1, 1], [1, 1], [1, 1]]))
                out.append(dict(base, who=who, policy="solve", n_iter=1, moves=[[2, 1], [1, 1], [1, 2]]))
                out.append(dict(base, who=who, policy="random", n_iter=1, moves=[[1, 1], [1, 1], [1, 1]]))
                out.append(dict(base, who=who, policy="solve", n_iter=2, moves=None, n_steps=5))
    # three agents: every relation of who eats whom
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    for k, bits in enumerate(itertools.product((0, 1), repeat=6)):
        eats = {p for p, b in zip(pairs, bits) if b}
        for v, (kind, shape, pos) in enumerate((("square", (2, 2), (0, 3, 1)), ("square", (4, 1), (1, 3, 2)), ("square", (2, 2), (1, 1, 0)), ("square", (1, 4), (0, 1, 3)))):
            ags = [A(pos[i], ([0] if (k + i) % 2 else []) + [1 + j for j in range(3) if (i, j) in eats],
                     [1 if i else .5] + [0 if i == j else 2 + j if (i, j) in eats else -1.5 if (j, i) in eats else .5 for j in range(3)]) for i in range(3)]
            base = {"kind": kind, "shape": shape, "self": False, "features": [[1, .5, 1, 1]], "walls": None, "agents": ags, "interactive": True, "C": 1, "caught_cost": -9}
            for who in (0, 1, 2):
                if q and (k + v + who) % 2:
                    continue
                out.append(dict(base, who=who, policy="random", n_iter=1, moves=[[1, 1], [1, 1], [1, 0]]))
                out.append(dict(base, who=who, policy="solve", n_iter=1, moves=[[1, 1], [1, 1], [1, 1]], caching=bool((k + v) % 3 == 0)))
    if not q:
        for k, (kind, shape, ags, f) in enumerate(sc):
            base = {"kind": kind, "shape": shape, "self": False, "features": f, "walls": None, "agents": ags, "interactive": True, "C": 1, "caught_cost": -7}
            out.append(dict(base, policy="solve", n_iter=3, moves=[[2, 1], [1, 1]]))
            out.append(dict(base, policy="solve", n_iter=4, moves=[[1, 1], [1, 1]]))
            out.append(dict(base, policy="random", n_iter=2, moves=[[2], [2]]))
            out.append(dict(base, policy="random", n_iter=2, moves=[[1, 1], [1, 1]], self=True))
    return out


def warm():
    _w()
    from maMDP.algorithms.dynamic_programming import ValueIteration
    m = sut.MDP(np.zeros((1, 1)), np.ones((1, 1, 1)))
    ValueIteration().fit(m, np.ones(1), 0)


def run(job, ctx):
    if "jit" in job:
        return run_jit(job, ctx)
    if "grid" in job:
        old, core.U_GRID = core.U_GRID, job["grid"]
        try:
            return explore(job, ctx)
        finally:
            core.U_GRID = old
    explore(job, ctx)


def explore(job, ctx):
    with core.unjit_random():
        seen, total = mctsmc.explore(job, ctx)
        if job.get("caught_cost") is not None:
            mctsmc.first_moves(seen, job, ctx, total)
        if seen.truncated:
            return
        if job.get("selection") == "softmax":
            soft(job, ctx, seen)
        if job.get("policy") == "random":
            even(job, ctx, seen)


def _first_opp(job, ctx, seen):
    """Distribution of the second agent's first move given the planner's first move."""
    d = {}
    for (paths, others), p in seen.items():
        if paths and paths[0] and others and others[0] and others[0][0]:
            d.setdefault(paths[0][:job["moves"][0][0]] if job.get("moves") else paths[0][:1], {}).setdefault(others[0][0][0], 0.0)
            key = paths[0][:job["moves"][0][0]] if job.get("moves") else paths[0][:1]
            d[key][others[0][0][0]] += p
    return d


def soft(job, ctx, seen):
    sim = mctsmc.Sim(job, ctx)
    for first, dist in _first_opp(job, ctx, seen).items():
        tot = sum(dist.values())
        F = sim.F0.copy()
        F[sim.rows[0]] = 0
        F[sim.rows[0], first[-1]] = 1
        for v in first:
            for f in sim.consumes[0]:
                F[f, v] = 0
        q = sim.opponent_q(1, F)[sim.pos0[1]]
        p = model.softmax(q, job["temperature"])
        for a, t in enumerate(sim.succ[sim.pos0[1]]):
            if t is not None and abs(dist.get(t, 0.0) / tot - p[a]) > 1.01 / core.U_GRID + (1e-2 if "grid" not in job else 2e-3 + 2.5e-4 / job["temperature"]):
                ctx.fail("a softmax opponent does not choose with softmax probabilities", after=first, got=dist, want=p)


def even(job, ctx, seen):
    sim = mctsmc.Sim(job, ctx)
    opts = [t for t in sim.succ[sim.pos0[1]] if t is not None]
    for first, dist in _first_opp(job, ctx, seen).items():
        tot = sum(dist.values())
        if set(dist) != set(opts) or any(abs(dist[t] / tot - 1 / len(opts)) > seen.tol for t in opts):
            ctx.fail("a random opponent does not move at random", after=first, got=dist, options=opts)


def run_jit(job, ctx):
    i = job["jit"]
    for k in range(8 if ctx.tier == "quick" else 40):
        kind = ("square", "hex")[k % 2]
        shape = [(3, 3), (4, 3)][i]
        n = shape[0] * shape[1]
        ags = [A(0, [0], [1, 0, 0, 0]), A(n - 1, [1], [0, 2, 0, 0]), A(n // 2, [0], [1, -1, 0, 0], 2)]
        if k % 3 == 1:
            ags = [A(1, [2, 3], [0.5, 0, 2, 3], 2), A(n - 1, [0], [1, -1, 0, 0]), A(n - 2, [1], [0, 0.5, 0, 0])]
        cfg = {"kind": kind, "shape": shape, "self": k % 4 == 0, "features": [[(j * 3 + k) % 3 * 0.5 for j in range(n)]], "walls": None, "C": 2,
               "n_iter": 15, "moves": None if k % 2 else [[1, 2], [1, 1], [2, 1]], "n_steps": 7, "interactive": True, "caught_cost": -10,
               "policy": ["solve", "random", "solve"][k % 3], "caching": k % 2 == 1, "who": k % 3,
               "agents": ags}
        ctx.case = {"cfg": cfg}
        env = mctsmc.build(cfg)
        before = mctsmc.snapshot(env)
        mctsmc.fit(env, cfg)
        if mctsmc.snapshot(env) != before:
            ctx.fail("planning changed the environment")
        mctsmc.Sim(cfg, ctx).check_fit(env)
        ctx.traces += 1
