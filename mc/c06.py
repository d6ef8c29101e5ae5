"""C06 reset: from any reachable state, indistinguishable from a fresh environment"""
import numpy as np
from . import envmc, model, sut
from .c04 import split_bfs

PROPERTY = "C06"
ASSUMPTIONS = ["the policy of an agent after a reset is not compared (agents are refitted before they are moved)"]
BOUNDS = {"quick": "reset in all reachable states of 32 environments (up to 300 states, 6 agents, 12 features) within 1-4 operations, then operations after it; every history of 26 operations that repeats up to 3 of them, of 290 that repeats 2, or of 1100 that repeats one",
          "thorough": "within 2-6 operations"}


def jobs(tier):
    out = []
    for c in envmc.configs(tier):
        c = dict(c, depth=max(1, c["depth"] - 1))
        out += [dict(c, first=k, walk=None) for k in range(len(envmc.EnvModel(c).ops()))]
    return out + envmc.walk_jobs(tier)


def warm():
    sut.grid("hex", (2, 2))


def run(job, ctx):
    if job["walk"]:
        def at_end(env, script, path):
            ctx.case = {"path": path + [("reset",)]}
            env.reset()
            envmc.observe(ctx, env, envmc.EnvModel(job), path + [("reset",)])
        return envmc.walk(job, ctx, ("moves", "features"), at_end)
    fresh = envmc.EnvModel(job)
    ops = [o for o in fresh.ops() if o[0] != "walls"]

    def visit(path, op):
        m = envmc.EnvModel(job)
        for o in path + [op]:
            m.apply(o)
        env, script = envmc.replay(ctx, job, path + [op])
        full = path + [op, ("reset",)]
        ctx.case = {"path": full}
        env.reset()
        envmc.observe(ctx, env, envmc.EnvModel(job), full)
        if [int(x) for x in env.mdp.walls] != m.walls or not np.array_equal(env.mdp.sas, model.succ_to_sas(m.succ)):
            ctx.fail("resetting changed the walls or the moves", path=full)
        # and it keeps behaving like a fresh one: one operation, another reset, two operations
        if job.get("edits"):
            env.mdp.walls = np.array(fresh.walls)
        k = ctx.traces % len(ops)
        for o in (ops[k], ("reset",), ops[(k * 5 + 1) % len(ops)]):
            f = envmc.EnvModel(job) if o[0] == "reset" else fm2(job, full, o)
            full = full + [o]
            ctx.case = {"path": full}
            envmc.do(env, script, o)
            ctx.transitions += 1
            envmc.observe(ctx, env, f, full)
        return m

    split_bfs(job, ctx, visit)


def fm2(job, full, o):
    f = envmc.EnvModel(job)
    for x in full[max(i for i, p in enumerate(full) if p[0] == "reset") + 1:]:
        f.apply(x)
    f.apply(o)
    return f
