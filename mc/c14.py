"""C14 how planned moves are spread over turns"""
import itertools
import numpy as np
from . import envmc, model, sut

PROPERTY = "C14"
ASSUMPTIONS = ["the plan handed to an agent's algorithm is observed through the library's Algorithm extension point"]
BOUNDS = {"quick": "all (current move < moves <= 5, turns <= 4, total <= 22); step_multi with 1-3 moves, 1-3 turns, plans of 1-7 moves or the default one for 1-4 agents; interactive stepping with 2-4 agents; plans spread over longer turns",
          "thorough": "moves <= 8, turns <= 6, total <= 50; plans 1-10"}


def jobs(tier):
    out = []
    M, T = (5, 4) if tier == "quick" else (8, 6)
    out += [{"fn": True, "moves": m, "turns": t} for m in range(1, M + 1) for t in range(1, T + 1)]
    out += [{"fn": True, "moves": m, "turns": t} for m, t in ((12, 3), (1, 15), (24, 9))]
    for na in (1, 2, 3, 4):
        for k in (1, 2, 3):
            for turns in (1, 2, 3, 5):
                for how in ("int", "attr", "list"):
                    out.append({"multi": na, "k": k, "turns": turns, "how": how, "max": 7 if tier == "quick" else 10})
    for na in (2, 3, 4):
        for turns in (1, 2, 3, 4, 6):
            for order in (0, 1):
                out.append({"inter": na, "turns": turns, "order": order})
    return out


def plan(cur, turns, moves, total):
    out = []
    for t in range(turns):
        cap = moves - cur if t == 0 else moves
        out.append(min(cap, total))
        total -= out[-1]
    return out


def warm():
    sut.grid("hex", (2, 2))


def others_moves(i):
    return [2, 1, 3, 2][i]


def mk(na, n0):
    log, script, ags = [], {}, {}
    mdp = sut.grid("square", (2, 2), [[1, 0, 0, 1]], self_transitions=True)
    for i in range(na):
        ag = sut.Agent(envmc.name(i), n_moves=n0 if i == 0 else others_moves(i), algorithm=sut.Scripted,
                       algorithm_kwargs={"script": script, "log": log})
        ags[ag] = (i, [1.0] * (1 + na), [])
    return sut.Environment(mdp, ags), log


def run(job, ctx):
    ctx.case = job
    if "fn" in job:
        import maMDP.environments as E
        f = getattr(E, "get_n_moves_plan", None)
        if f is None:
            ctx.skip("get_n_moves_plan")
            return
        for cur in range(job["moves"]):
            for total in range(0, job["moves"] * job["turns"] + 3):
                ctx.states += 1
                ctx.traces += 1
                ctx.transitions += 1
                got = f(cur, job["turns"], job["moves"], total)
                if [int(i) for i in got] != plan(cur, job["turns"], job["moves"], total):
                    ctx.fail("planned moves per turn", current=cur, total=total, got=got, want=plan(cur, job["turns"], job["moves"], total))
        for cur in (job["moves"], job["moves"] + 1):
            try:
                f(cur, job["turns"], job["moves"], 3)
            except ValueError:
                continue
            ctx.fail("a current move beyond the first turn was accepted", current=cur)
        return
    if "multi" in job:
        na, k, T = job["multi"], job["k"], job["turns"]
        other = [(1, 2, 3), (3, 1, 2), (2, 4, 5)]
        for p0 in [None] + list(range(1, job["max"] + 1)):
            for o in other if p0 else other[:1]:
                for who in range(na):
                    env, log = mk(na, k)
                    # by default, as many moves are planned as the agents make in one turn, the planner's first
                    P = [p0] + list(o)[:na - 1] if p0 else [env.agents[envmc.name(i)].n_moves for i in [who] + [j for j in range(na) if j != who]]
                    nm = envmc.name(who)
                    rest = [i for i in range(na) if i != who]
                    kw = {}
                    own = env.agents[nm].n_moves
                    if job["how"] == "attr":
                        steps = own
                        oth = [env.agents[envmc.name(i)].n_moves for i in rest]
                    elif job["how"] == "int":
                        steps = kw["n_steps"] = k
                        oth = [env.agents[envmc.name(i)].n_moves for i in rest]
                    else:
                        steps = k
                        oth = [1, 2, 3][:na - 1]
                        kw["n_steps"] = [k] + oth
                    given = tuple(P) if p0 else None
                    env.step_multi(nm, n_moves_plan=given, n_turns_plan=T, refit=True, **kw)
                    ctx.states += 1
                    ctx.traces += 1
                    want = [[plan(i, T, steps, P[0])] + [plan(0, T, oth[j], P[j + 1]) for j in range(na - 1)] for i in range(steps)]
                    got = [x[2] for x in log]
                    ctx.transitions += len(got)
                    ctx.case = dict(job, agent=who, n_moves_plan=P)
                    if got != want:
                        ctx.fail("planned moves handed to the planner", got=got, want=want)
                    if p0 and given != tuple(P):
                        ctx.fail("the caller's plan was changed")
        # a plan is needed for every agent, and has to be positive
        env, log = mk(na, k)
        for bad in ([1] * (na + 1), [0] + [1] * (na - 1), [1] * (na - 1) + [-1]):
            try:
                env.step_multi(envmc.name(0), n_moves_plan=tuple(bad), refit=True)
            except ValueError:
                if log or env.n_steps:
                    ctx.fail("an invalid plan was rejected only after moving", plan=bad)
                continue
            ctx.fail("an invalid plan was accepted", plan=bad)
        return
    na, T = job["inter"], job["turns"]
    order = list(range(na)) if job["order"] == 0 else list(range(na))[::-1]
    for P in [None] + list(itertools.product((1, 3, 5) if na < 4 else (2, 5), repeat=na)):
        env, log = mk(na, 2)
        env.step_multi_interactive(agent_names=[envmc.name(i) for i in order], n_turns=T, n_moves_plan=P, refit=True)
        ctx.states += 1
        ctx.traces += 1
        want = []
        for t in range(T):
            for i in order:
                n_own = env.agents[envmc.name(i)].n_moves
                oth = [env.agents[envmc.name(j)].n_moves for j in range(na) if j != i]
                p = P or [n_own] + oth
                for c in range(n_own):
                    want.append((envmc.name(i), [plan(c, T - t, n_own, p[0])] + [plan(0, T - t, oth[j], p[j + 1]) for j in range(na - 1)]))
        got = [(x[0], x[2]) for x in log]
        ctx.transitions += len(got)
        ctx.case = dict(job, n_moves_plan=P)
        if got != want:
            ctx.fail("planned moves handed to the planner while taking turns", got=got, want=want)
