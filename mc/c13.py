"""C13 remembering opponents' action values changes nothing but the speed"""
import itertools
import numpy as np
from . import core, envmc, mctsmc, model, sut
from .c12 import A, scenarios, warm  # noqa: F401

PROPERTY = "C13"
ASSUMPTIONS = ["random draws of the compiled functions are explored on the Python they are compiled from"]
BOUNDS = {"quick": "two and three agents on 2x2, 4x1, 1x3 grids, 1-2 simulations of up to 6 moves; plans made again after relocations, resets and edits of walls, features, tastes and diets, with the memory cleared in between (the default) or kept; every random outcome of planning with and without memory",
          "thorough": "all scenarios, up to 3 simulations, 8 moves"}


def jobs(tier):
    q = tier == "quick"
    out = []
    for k, (kind, shape, ags, f) in enumerate(scenarios()):
        idle = not any(ags[1]["rf"])
        if idle and q:
            continue
        base = {"kind": kind, "shape": shape, "self": False, "features": f, "walls": None, "agents": ags, "interactive": True, "C": 1, "caught_cost": -7, "policy": "solve"}
        opts = [(1, [[1, 1, 1], [1, 1, 1]]), (2, [[1, 1], [1, 1]]), (1, [[2, 1], [2, 1]])]
        if not q:
            opts += [(2, [[2, 1], [1, 2]]), (3, [[1, 1], [1, 1]])]
        for i, (n_iter, moves) in enumerate(opts):
            if q and i and (k + i) % 2:
                continue
            if idle and n_iter * sum(sum(m) for m in moves) > 6:
                continue
            out.append(dict(base, n_iter=n_iter, moves=moves))
        if k % 3 == 0 or not q:
            out += [dict(base, n_iter=1, moves=[[1, 1], [1, 1]], between="all", keep=keep) for keep in (False, True)]
    three = [
        [A(0, [0], [1, 0, 0, 0, 0]), A(3, [2], [0, .5, 2, 0, 0]), A(2, [3], [0, 0, 0, 2, 0])],
        [A(0, [3, 4], [0, 0, 0, 1, 2]), A(1, [1], [1, 1, -1, 0, 0]), A(3, [0], [1, .5, -1, 0, 0], 2)],
        [A(1, [4], [1, 0, 0, 0, 4]), A(0, [2], [0, 0, 3, 0, 0]), A(2, [0, 1], [1, 2, 0, 0, 0])],
        [A(0, [0, 1], [1, 1, -1, 0, 0], 2), A(3, [], [2, 1, 0, 0, 0]), A(3, [1], [1, 1, 0, -1, 0])],
        [A(2, [1], [0, 1, 0, 1, 0]), A(2, [0], [1, 0, 0, 0, 0]), A(0, [2], [0, 1, 1, 0, 0])],
    ]
    for ags in three:
        for kind, shape in (("square", (2, 2)), ("hex", (2, 2)), ("square", (4, 1))):
            base = {"kind": kind, "shape": shape, "self": False, "features": [[1, 0, 1, 1], [0, 1, 0.5, 0]], "walls": None, "agents": ags,
                    "interactive": True, "C": 1, "caught_cost": -9, "policy": "solve"}
            for who in (0, 1, 2):
                out.append(dict(base, who=who, n_iter=2, moves=[[1, 1], [1, 1], [1, 1]]))
                out.append(dict(base, who=who, n_iter=1, moves=[[2, 1], [1, 1], [1, 2]]))
                out.append(dict(base, who=who, n_iter=1, moves=None, n_steps=7))
            for who in (0, 1, 2):
                out += [dict(base, who=who, n_iter=1, moves=[[1], [1], [1]], between="all", keep=keep) for keep in (False, True)]
            out.append(dict(base, n_iter=1, moves=[[1], [1], [1]], selection="softmax", temperature=0.5))
    # opponents that care very little about things
    faint = [[A(0, [0], [1, 0, 0, 0]), A(3, [1], [.001, .04, 0, 0])], [A(0, [0, 1], [1, .5, 0, 0]), A(3, [0], [1e-4, -.02, .03, 0])]]
    for ags in faint:
        for kind, shape in (("square", (2, 2)), ("hex", (2, 2)), ("square", (4, 1))):
            for i, (n_iter, moves) in enumerate([(1, [[1, 1, 1], [1, 1, 1]]), (2, [[1, 1], [1, 1]])]):
                out.append({"kind": kind, "shape": shape, "self": True, "features": [[1, 0, 1, 1], [0, 1, 0.5, 0]], "walls": None, "agents": ags,
                            "interactive": True, "C": 1, "caught_cost": -9, "policy": "solve", "n_iter": n_iter, "moves": moves})
    # three agents: every relation of who eats whom
    pairs = [(i, j) for i in range(3) for j in range(3) if i != j]
    for k, bits in enumerate(itertools.product((0, 1), repeat=6)):
        eats = {p for p, b in zip(pairs, bits) if b}
        for v, (kind, shape, pos) in enumerate((("hex", (2, 2), (0, 2, 3)), ("square", (3, 1), (0, 2, 0)), ("square", (2, 2), (0, 3, 1)), ("square", (3, 1), (1, 0, 2)))):
            ags = [A(pos[i], ([0] if (k + i) % 2 else []) + [1 + j for j in range(3) if (i, j) in eats],
                     [1 if i else .5] + [0 if i == j else 2 + j if (i, j) in eats else -1.5 if (j, i) in eats and (k + v) % 2 else .5 for j in range(3)]) for i in range(3)]
            base = {"kind": kind, "shape": shape, "self": v % 2 == 1, "features": [[1, .5, 1, 1][:shape[0] * shape[1]]], "walls": None, "agents": ags,
                    "interactive": True, "C": 1, "caught_cost": -9, "policy": "solve"}
            for who in (0, 1, 2):
                if q and (k + v + who) % 2:
                    continue
                out.append(dict(base, who=who, n_iter=1, moves=[[1, 1], [1, 1], [1, 1]]))
                out.append(dict(base, who=who, n_iter=2, moves=[[1, 1], [1, 1], [1, 1]]))
    return out


def outcome(env, cfg):
    nm = envmc.name(cfg.get("who", 0))
    alg = env.agents[nm].algorithm
    return (mctsmc.freeze(alg.visited_states, alg.other_agent_visited_states), tuple(np.round(np.asarray(alg.values, dtype=float), 9)),
            tuple(np.round(np.nan_to_num(np.asarray(alg.q_values, dtype=float), nan=-12345.0).ravel(), 9)))


def dist(cfg, ctx, caching, between=None):
    out = {}
    keep = {"reset_cache": False} if cfg.get("keep") else {}

    def once(ch):
        env = mctsmc.build(cfg, caching=caching, **(keep if caching else {}))
        ctx.case = {"cfg": cfg, "caching": caching, "between": between}
        with core.ControlledRandom(ch):
            mctsmc.fit_and_policy(env, cfg, ch)
            r = [outcome(env, cfg)]
            if between is not None:
                change(env, between)
                mctsmc.fit(env, cfg)
                r.append(outcome(env, cfg))
        k = tuple(r)
        out[k] = out.get(k, 0.0) + ch.weight

    core.explore(once, ctx, 60000)
    if ctx.last_truncated:
        raise Truncated
    ctx.states += len(out)
    return out


def changes(cfg):
    n = cfg["shape"][0] * cfg["shape"][1]
    out = []
    for i in range(len(cfg["agents"])):
        for p in range(n):
            if p != cfg["agents"][i]["pos"]:
                out.append(["place", i, p])
        out.append(["like", i])
        out.append(["eats", i])
    out += [["feature", s] for s in (0, n - 1)] + [["reset"]]
    occ = {a["pos"] for a in cfg["agents"]}
    w, h = cfg["shape"]
    for p in range(n):
        walls = [int(s == p) for s in range(n)]
        succ = model.with_walls(model.lattice(cfg["kind"], w, h, cfg["self"]), walls)
        if p not in occ and all(any(t is not None for t in succ[s]) for s in range(n) if s != p):
            out.append(["walls", walls])
    return out


def change(env, c):
    if c[0] == "place":
        env.set_agent_position(envmc.name(c[1]), c[2])
    elif c[0] == "like":
        a = env.agents[envmc.name(c[1])]
        a.reward_function = -np.array(a.reward_function, dtype=float)
    elif c[0] == "feature":
        env.mdp.features[0, c[1]] = 3 - env.mdp.features[0, c[1]]
    elif c[0] == "eats":
        env.agents[envmc.name(c[1])].consumes = [] if len(env.agents[envmc.name(c[1])].consumes) else [0]
    elif c[0] == "walls":
        env.mdp.walls = np.array(c[1])
    elif c[0] == "reset":
        env.reset()


def compare(ctx, a, b, **note):
    if set(a) != set(b):
        d = sorted(set(a) ^ set(b))[0]
        ctx.fail("planning with memory does not do what planning without does", only_in="without" if d in a else "with", outcome=d, **note)
    for k in a:
        if abs(a[k] - b[k]) > 1e-6:
            ctx.fail("planning with memory makes outcomes more or less likely than planning without", outcome=k, without=a[k], with_=b[k], **note)


def run(job, ctx):
    try:
        explore(job, ctx)
    except Truncated:
        ctx.skip("comparison of the outcomes (too many of them)")


class Truncated(Exception):
    pass


def explore(job, ctx):
    with core.unjit_random():
        if job.get("between") == "all":
            for c in changes(job):
                compare(ctx, dist(job, ctx, False, c), dist(job, ctx, True, c), change=c)
        else:
            compare(ctx, dist(job, ctx, False), dist(job, ctx, True))
