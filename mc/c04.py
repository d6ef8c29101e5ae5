"""C04 positions, moves and the features that mark agents stay in step over every sequence of operations"""
import numpy as np
from . import envmc, model, sut

PROPERTY = "C04"
ASSUMPTIONS = ["small grids and up to three agents; the moves are scripted through the library's own Algorithm extension point"]
BOUNDS = {"quick": "all reachable states of 32 environments (up to 300 states, 6 agents, 12 features) within 1-5 operations (step by any agent in any direction, set position, reset); every history of 26 operations that repeats up to 3 of them, of 290 that repeats 2, or of 1100 that repeats one",
          "thorough": "same environments within 3-7 operations"}


def jobs(tier):
    cs = envmc.configs(tier)
    out = []
    for c in cs:
        m = envmc.EnvModel(c)
        for k in range(len(m.ops())):
            out.append(dict(c, first=k, walk=None))
    return out + envmc.walk_jobs(tier)


def warm():
    sut.grid("hex", (2, 2))


def split_bfs(job, ctx, visit):
    """BFS below the job's first operation (each job owns one first operation)."""
    cfg = job
    m = envmc.EnvModel(cfg)
    op0 = m.ops()[job["first"]]
    m1 = visit([], op0)
    ctx.traces += 1
    seen = {m1.key()}
    ctx.states += 1
    frontier = [[op0]]
    for d in range(cfg["depth"] - 1):
        nxt = []
        for path in frontier:
            m = envmc.EnvModel(cfg)
            for op in path:
                m.apply(op)
            for op in m.ops():
                ctx.traces += 1
                k = visit(path, op).key()
                if k not in seen:
                    seen.add(k)
                    ctx.states += 1
                    nxt.append(path + [op])
        frontier = nxt


def rejects(ctx, env, fn, path, what):
    try:
        fn()
    except (ValueError, TypeError, KeyError, IndexError, AttributeError):
        return
    ctx.fail("%s was accepted" % what, path=path)


def run(job, ctx):
    if job["walk"]:
        return envmc.walk(job, ctx, ("moves",))
    static = {}

    def visit(path, op):
        ctx.case = {"path": path + [op]}
        m = envmc.EnvModel(job)
        for o in path:
            m.apply(o)
        env, script = envmc.replay(ctx, job, path)
        r = envmc.do(env, script, op)
        ctx.transitions += 1
        m.apply(op)
        envmc.observe(ctx, env, m, path + [op], ("moves",))
        if op[0] == "step" and int(r) != m.pos[op[1]]:
            ctx.fail("step returns a position other than the new one", path=path + [op], got=r)
        if "sas" not in static:
            static["sas"], static["walls"] = np.array(envmc.build(job)[0].mdp.sas), np.array(envmc.build(job)[0].mdp.walls)
        if job.get("edits"):
            same = np.array_equal(env.mdp.sas, model.succ_to_sas(m.succ)) and [int(x) for x in env.mdp.walls] == m.walls
        else:
            same = np.array_equal(env.mdp.sas, static["sas"]) and np.array_equal(env.mdp.walls, static["walls"])
        if not same:
            ctx.fail("moving agents changed the transitions or walls", path=path + [op])
        if len(path) <= 1:
            # operations that must fail, and leave everything as it was
            rejects(ctx, env, lambda: env.set_agent_position(envmc.name(0), -1), path, "a negative position")
            rejects(ctx, env, lambda: env.set_agent_position(envmc.name(m.na - 1), m.n), path, "a position outside the MDP")
            rejects(ctx, env, lambda: env.step("nobody"), path, "an unknown agent")
            rejects(ctx, env, lambda: env.set_agent_position("nobody", 0), path, "an unknown agent")
            envmc.observe(ctx, env, m, path + [op, "rejected operations"], ("moves", "features"))
        return m

    split_bfs(job, ctx, visit)
