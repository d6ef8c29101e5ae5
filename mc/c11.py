"""C11 single-agent tree search: every random outcome is a legal, correctly valued set of simulations"""
import itertools
import numpy as np
from . import core, envmc, mctsmc, model, sut

PROPERTY = "C11"
ASSUMPTIONS = ["deterministic MDPs, as documented", "random draws of the compiled functions are explored on the Python they are compiled from; the compiled ones are replayed against the model too",
               "the planning agent has no preference for its own position"]
BOUNDS = {"quick": "2x2 square and hex and 3x1 grids, 1-4 simulations of 1-3 moves, every random outcome, C in {0,1,5}, consuming or not, with another agent present or not; simulations of up to 25 moves, and up to 300 of them, in worlds in which nearly every move is forced",
          "thorough": "up to 5 simulations of 3 moves, 2x3 grids, walls"}


def jobs(tier):
    out = [{"jit": i} for i in range(3)]
    q = tier == "quick"
    for kind, shape in (("square", (2, 2)), ("hex", (2, 2)), ("square", (3, 1)), ("square", (1, 3))) + (() if q else (("hex", (3, 1)), ("square", (2, 3)))):
        n = shape[0] * shape[1]
        for st in (False, True):
            for start in range(n):
                for C in (0, 1, 5):
                    for consumes in ([], [0], [0, 1]):
                        for n_iter, moves in ((4, [[1]]), (3, [[2]]), (2, [[1, 2]]), (2, None), (4, [[2]]), (2, [[0, 2]])):
                            if q and st and (n_iter > 3 and moves != [[1]]):
                                continue
                            if q and st and kind == "hex" and n_iter * (sum(moves[0]) if moves else 3) > 4 and C != 1:
                                continue
                            if n > 4 and n_iter * (sum(moves[0]) if moves else 3) > 6:
                                continue
                            f0 = [1, 0, 0.5, -1, 2, 0][:n] if start % 2 else [2, 1, 0, 1, 1, 3][:n]
                            f1 = [0, 1, 1, 0, 0, 1][:n]
                            out.append({"kind": kind, "shape": shape, "self": st, "features": [f0, f1], "walls": None, "C": C, "n_iter": n_iter,
                                        "moves": moves, "n_steps": 3 if not moves else 10,
                                        "agents": [{"pos": start, "consumes": consumes, "rf": [1, -0.5, 0]}]})
    # another agent is there but not simulated: its position is part of the world; either may be the planner
    for kind in ("square", "hex"):
        for who in (0, 1):
            for consumes in ([], [1 + (1 - who)], [0, 1 + (1 - who)]):
                for pos in ((0, 1), (0, 3), (2, 2)):
                    ags = [{"pos": pos[0], "consumes": [], "rf": [0, 0, 0], "n_moves": 2}, {"pos": pos[1], "consumes": [], "rf": [0, 0, 0], "n_moves": 1}]
                    ags[who] = dict(ags[who], consumes=consumes, rf=[1, 4, 0] if who == 1 else [1, 0, 4])
                    for n_iter, moves in ((3, [[2]]), (2, [[3]]), (2, None), (3, [[1, 1], [2, 2]])):
                        out.append({"kind": kind, "shape": (2, 2), "self": False, "features": [[0, 1, 1, 0.5]], "walls": None, "C": 1, "who": who,
                                    "n_iter": n_iter, "moves": moves, "n_steps": 2, "agents": ags})
    # walls
    for w in ([0, 0, 0, 1, 0, 0], [0, 0, 1, 0, 0, 0]):
        for kind in ("square", "hex"):
            out.append({"kind": kind, "shape": (3, 2), "self": False, "features": [[1, 2, 0, 1, 1, 3]], "walls": w, "C": 1, "n_iter": 3, "moves": [[2]],
                        "agents": [{"pos": 0, "consumes": [0], "rf": [1, 0]}]})
    if not q:
        for kind in ("square", "hex"):
            for n_iter, k in ((5, 2), (4, 2), (3, 3)):
                for start in range(4):
                    out.append({"kind": kind, "shape": (2, 2), "self": False, "features": [[1, 2, 0, 1]], "walls": None, "C": 1, "n_iter": n_iter,
                                "moves": [[k]], "agents": [{"pos": start, "consumes": [0], "rf": [1, 0]}]})
    # values that differ by little, compared with their size
    for kind, shape in (("square", (2, 2)), ("square", (3, 1)), ("hex", (2, 2))):
        n = shape[0] * shape[1]
        for start in range(n):
            for sign, step in ((1, .004), (-1, .004), (1, -.004), (-1, .03)):
                out.append({"kind": kind, "shape": shape, "self": False, "features": [[sign * 1e6 + step * i for i in range(n)], [0] * n], "walls": None, "C": 0, "n_iter": 4,
                            "moves": [[1]], "agents": [{"pos": start, "consumes": [], "rf": [1, 0, 0]}]})
    # long simulations, and many of them, in worlds so small that nearly every move is forced
    for shape in ((2, 1), (1, 2)):
        for st_, n_iter, steps in ((False, 2, 9), (False, 300, 3), (False, 3, 25), (True, 1, 7)):
            for consumes in ([], [0]):
                out.append({"kind": "square", "shape": shape, "self": st_, "features": [[1, 2]], "walls": None, "C": 1, "n_iter": n_iter, "moves": None, "n_steps": steps,
                            "agents": [{"pos": 1, "consumes": consumes, "rf": [1, 0], "n_moves": 2}]})
    for kind in ("square", "hex"):
        out.append({"kind": kind, "shape": (3, 1), "self": False, "features": [[1, 2, 0]], "walls": None, "C": 1, "n_iter": 1, "moves": None, "n_steps": 11,
                    "agents": [{"pos": 1, "consumes": [0], "rf": [1, 0]}]})
    return out


def warm():
    sut.grid("hex", (2, 2))


def run(job, ctx):
    if "jit" in job:
        return run_jit(job, ctx)
    with core.unjit_random():
        seen, total = mctsmc.explore(job, ctx)
        mctsmc.first_moves(seen, job, ctx, total)


def run_jit(job, ctx):
    """The compiled functions, driven by their own random numbers, on larger problems: every fit replayed on the model."""
    i = job["jit"]
    for k in range(6 if ctx.tier == "quick" else 40):
        kind = ("square", "hex")[k % 2]
        shape = [(3, 3), (4, 3), (5, 5)][i]
        n = shape[0] * shape[1]
        cfg = {"kind": kind, "shape": shape, "self": k % 3 == 0, "features": [[(j * 7 + k) % 4 * 0.5 for j in range(n)], [(j + k) % 2 for j in range(n)]],
               "walls": [1 if (j == 4 and k % 2) else 0 for j in range(n)], "C": [0.5, 2, 10][k % 3], "n_iter": 40, "moves": None if k % 2 else [[3, 4]], "n_steps": 6,
               "agents": [{"pos": (k * 5) % 4, "consumes": [[], [0], [1, 0]][k % 3], "rf": [1, -0.5, 0]}]}
        ctx.case = {"cfg": cfg}
        env = mctsmc.build(cfg)
        before = mctsmc.snapshot(env)
        mctsmc.fit(env, cfg)
        if mctsmc.snapshot(env) != before:
            ctx.fail("planning changed the environment")
        mctsmc.Sim(cfg, ctx).check_fit(env)
        ctx.traces += 1
