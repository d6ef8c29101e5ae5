"""C05 consumption: exactly what is listed, exactly where the agent steps, exactly once, and nothing is lost"""
import numpy as np
from . import envmc, sut
from .c04 import split_bfs

PROPERTY = "C05"
ASSUMPTIONS = ["feature intensities are non-negative", "no agent lists itself as something it consumes"]
BOUNDS = {"quick": "all reachable states of 32 environments (up to 300 states, 6 agents, 12 features) within 1-5 operations; every history of 26 operations that repeats up to 3 of them, of 290 that repeats 2, or of 1100 that repeats one", "thorough": "within 1-7 operations; repeats of up to 4"}


def jobs(tier):
    return [dict(c, first=k, walk=None) for c in envmc.configs(tier) for k in range(len(envmc.EnvModel(c).ops()))] + envmc.walk_jobs(tier)


def warm():
    sut.grid("hex", (2, 2))


def run(job, ctx):
    if job["walk"]:
        return envmc.walk(job, ctx, ("features",))
    def visit(path, op):
        ctx.case = {"path": path + [op]}
        m = envmc.EnvModel(job)
        for o in path:
            m.apply(o)
        env, script = envmc.replay(ctx, job, path)
        envmc.do(env, script, op)
        ctx.transitions += 1
        m.apply(op)
        envmc.observe(ctx, env, m, path + [op], ("features",))
        # conservation, stated on the real objects alone: what is gone is what was recorded
        F = np.asarray(env.mdp.features)[:m.nf]
        F0 = np.array(job["features"], dtype=float)
        gone = (F0 > 0).sum(axis=1) - (F > 0).sum(axis=1)
        rec = sum(np.asarray(env.agents[envmc.name(i)].consumed)[:m.nf] for i in range(m.na))
        if not np.array_equal(gone, rec):
            ctx.fail("features disappeared without being recorded as consumed (or the reverse)", path=path + [op], gone=gone, recorded=rec)
        return m

    split_bfs(job, ctx, visit)
