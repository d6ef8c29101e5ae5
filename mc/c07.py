"""C07 moving several steps and taking turns: who moves, how often, in what order, and when it stops"""
import itertools
import numpy as np
from . import envmc, model, sut

PROPERTY = "C07"
ASSUMPTIONS = ["whether an agent that walks into another one that eats it counts as caught at once is left open"]
BOUNDS = {"quick": "every legal action sequence of up to 3 moves on 3x1 / 2x2 grids for one agent, every pair of sequences of 1-2 moves per turn and 1-2 turns for two agents, all orders; every run of 4 moves on 3x1 and of 5-6 moves on 2x1, 270 moves where every move is forced; the mover first or last of the agents, and with several turns in a round; agents that plan for themselves by value iteration from every pair of positions",
          "thorough": "up to 4 moves, three agents, 3 turns"}


def jobs(tier):
    out = []
    N = 3 if tier == "quick" else 4
    for kind, shape in (("square", (3, 1)), ("square", (2, 2)), ("hex", (2, 2))):
        n = shape[0] * shape[1]
        for start in range(n):
            for prey in range(n):
                if prey == start and kind == "hex":
                    continue
                for consumes in ([], [0], [2], [0, 2]):
                    for refit in (True, False):
                        out.append({"one": True, "kind": kind, "shape": shape, "start": start, "prey": prey, "consumes": consumes,
                                    "refit": refit, "max": N})
    # the agent that moves is not the first one
    for kind, shape in (("square", (3, 1)), ("hex", (2, 2))):
        for start in range(shape[0] * shape[1]):
            for consumes in ([], [0], [1], [1, 0]):
                for refit in (True, False):
                    out.append({"one": True, "last": True, "kind": kind, "shape": shape, "start": start, "prey": 1, "consumes": consumes, "refit": refit, "max": N})
    # longer runs
    for start in range(2):
        for consumes in ([], [0, 2]):
            for refit in (True, False):
                for k in (4, 5, 6):
                    out.append({"one": True, "kind": "square", "shape": (2, 1) if k > 4 else (3, 1), "start": start, "prey": 1, "consumes": consumes, "refit": refit, "max": k, "min": k})
    # very long runs, in a world in which every move is forced
    for consumes in ([], [0], [0, 2]):
        for refit in (True, False):
            for k in (40, 270):
                out.append({"one": True, "kind": "square", "shape": (2, 1), "start": 0, "prey": 1, "consumes": consumes, "refit": refit, "max": k, "min": k, "forced": True})
    # agents that plan for themselves
    for kind in ("square", "hex"):
        for a in range(4):
            for b in range(4):
                out.append({"plan": kind, "a": a, "b": b})
    turns = [(1, 1), (1, 2), (2, 1), (2, 2)] if tier == "quick" else [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)]
    for a, b in turns:
        for nt in (1, 2) if tier == "quick" else (1, 2, 3):
            if (a + b) * nt > 6:
                continue
            for order in (None, [0, 1], [1, 0], [1], [0]):
                for eats in (None, (0, 1), (1, 0)):
                    for how in ("attr", "tuple"):
                        out.append({"many": 2, "moves": [a, b], "turns": nt, "order": order, "eats": eats, "how": how})
    for order in ([2, 0, 1], None):
        for eats in (None, (1, 2), (0, 2)):
            for how in ("attr", "tuple"):
                out.append({"many": 3, "moves": [1, 1, 1], "turns": 1, "order": order, "eats": eats, "how": how})
                out.append({"many": 3, "moves": [1, 2, 1], "turns": 1, "order": order, "eats": eats, "how": how})
    # an agent that eats two others, at every pair of positions
    for shape in ((3, 1), (2, 2)) if tier == "quick" else ((3, 1), (2, 2), (4, 1)):
        for diet in ([2, 3], [3, 2], [3], [2, 0], [3, 0, 2], [1, 3], [2, 1]):
            for p in itertools.product(range(shape[0] * shape[1]), repeat=3):
                out.append({"two": True, "shape": shape, "diet": diet, "pos": list(p), "max": 2 if tier == "quick" else 3})
    # uneven numbers of moves per turn, given explicitly
    for order in ([0, 1], [1, 0]):
        for table in ([[2, 1], [1, 2]], [[1, 2], [2, 1]], [[1, 0], [1, 1]], [[0, 1], [2, 0]]):
            for eats in (None, (1, 0)):
                out.append({"many": 2, "moves": [1, 1], "turns": 2, "order": order, "eats": eats, "how": "table", "table": table})
    # an agent that has several turns in a round
    for order in ([0, 0, 1], [0, 1, 0], [1, 0, 0], [1, 1], [0, 1, 1]):
        for eats in (None, (1, 0), (0, 1)):
            out.append({"many": 2, "moves": [2, 1], "turns": 1, "order": order, "eats": eats, "how": "attr"})
            out.append({"many": 2, "moves": [1, 2], "turns": 1, "order": order, "eats": eats, "how": "attr"})
            out.append({"many": 2, "moves": [1, 1], "turns": 1, "order": order, "eats": eats, "how": "table", "by_turn": [[2], [0], [1]]})
            out.append({"many": 2, "moves": [1, 1], "turns": 2, "order": order, "eats": eats, "how": "table", "by_turn": [[1, 0], [0, 2], [1, 1]]})
    return out


def warm():
    from maMDP.algorithms.dynamic_programming import ValueIteration
    ValueIteration().fit(sut.MDP(np.zeros((1, 1)), np.ones((1, 1, 1))), np.ones(1), 0)
    sut.grid("hex", (2, 2))


def seqs(succ, s, k):
    """All legal action sequences of length k from s, with the states visited."""
    if k == 0:
        return [([], [])]
    out = []
    for a, t in enumerate(succ[s]):
        if t is not None:
            out += [([a] + x, [t] + y) for x, y in seqs(succ, t, k - 1)]
    return out


def run(job, ctx):
    if job.get("one"):
        run_one(job, ctx)
    elif job.get("plan"):
        run_plan(job, ctx)
    elif job.get("two"):
        run_two(job, ctx)
    else:
        run_many(job, ctx)


def mk(kind, shape, agents, st=True):
    n = shape[0] * shape[1]
    cfg = {"kind": kind, "shape": list(shape), "self": st, "features": [[1] * n], "walls": None, "agents": agents}
    w, h = shape
    log = []
    script = {}
    mdp = sut.grid(kind, (w, h), cfg["features"], self_transitions=st)
    ags = {}
    for i, a in enumerate(agents):
        ag = sut.Agent(envmc.name(i), n_moves=a["n_moves"], algorithm=sut.Scripted, algorithm_kwargs={"script": script, "log": log})
        ags[ag] = (a["pos"], [1.0] * (1 + len(agents)), list(a["consumes"]))
    return sut.Environment(mdp, ags), script, log, envmc.EnvModel(cfg)


def run_one(job, ctx):
    kind, shape = job["kind"], tuple(job["shape"])
    succ = model.lattice(kind, shape[0], shape[1], not job.get("forced"))
    refit = job["refit"]
    for k in range(job.get("min", 0), job["max"] + 1):
        for acts, states in seqs(succ, job["start"], k):
            if not refit:
                # a stationary policy has to produce this path
                pol = {}
                ok = True
                for s, a in zip([job["start"]] + states[:-1] if states else [], acts):
                    ok = ok and pol.setdefault(s, a) == a
                if not ok:
                    continue
            for how in ("int", "attr", "list"):
                if how == "attr" and k == 0:
                    continue
                for stop in (True, False):
                    ctx.states += 1
                    ctx.traces += 1
                    ctx.case = {"actions": acts, "n_steps": how, "stop_on_caught": stop}
                    env, script, log, m = mk(kind, shape, [
                        {"pos": job["start"], "consumes": job["consumes"], "n_moves": k if how == "attr" else 2},
                        {"pos": job["prey"], "consumes": [], "n_moves": 1}][::-1 if job.get("last") else 1], not job.get("forced"))
                    me = 1 if job.get("last") else 0
                    if refit:
                        script[envmc.name(me)] = list(acts)
                    else:
                        script[envmc.name(me)] = dict(pol)
                        env.fit(envmc.name(me))
                    n_steps = {"int": k, "attr": None, "list": [k, k + 1]}[how]
                    r = env.step_multi(envmc.name(me), n_steps=n_steps, refit=refit, stop_on_caught=stop)
                    made = []
                    caught = False
                    for a in acts:
                        m.step(me, a)
                        made.append(m.pos[me])
                        ctx.transitions += 1
                        if (1 if me else 2) in job["consumes"] and m.pos[0] == m.pos[1]:
                            caught = True
                            if stop:
                                break
                    envmc.observe(ctx, env, m, ctx.case)
                    if not (caught and stop) and [int(x) for x in r] != made:
                        ctx.fail("step_multi does not return the states moved to", got=r, want=made)
                    if refit and len(log) != len(made):
                        ctx.fail("the agent was not refitted before every step", fits=len(log), steps=len(made))


def run_plan(job, ctx):
    """Agents that plan by value iteration: runs with refitting equal planning and stepping one move at a time."""
    from maMDP.algorithms.dynamic_programming import ValueIteration
    shape = (3, 2)
    n = 6
    for rf in ([1, -2, 0], [1, 0, 2], [.5, -3, -1], [0, 1, 1]):
        for consumes in ([], [0], [0, 2]):
            for k in range(1, 5):
                def make():
                    mdp = sut.grid(job["plan"], shape, [[(3 * i + 1) % 5 + .37 * i for i in range(n)]], self_transitions=True)
                    return sut.Environment(mdp, {sut.Agent("a", n_moves=k, algorithm=ValueIteration): (job["a"], [float(x) for x in rf], list(consumes)),
                                                 sut.Agent("b", n_moves=2, algorithm=ValueIteration): (job["b"] + 1, [1.0, 2.5, 0.25], [0])})

                def look(env):
                    return [[int(env.agents[x].position), [int(i) for i in env.agents[x].position_history], env.agents[x].consumed.tolist()] for x in "ab"] + \
                        [env.mdp.features.tolist(), env.n_steps]

                def single(env, who):
                    env.fit(who)
                    q = np.asarray(env.get_agent_q_values(who))[int(env.agents[who].position)]
                    best = np.sort(q[np.isfinite(q)])
                    env.step(who)
                    return len(best) < 2 or best[-1] - best[-2] > 1e-6     # whether the choice was forced

                for turns in (False, True):
                    ref, env = make(), make()
                    forced = True
                    if turns:
                        for _ in range(2):
                            for who, m in (("a", k), ("b", 2)):
                                for _ in range(m):
                                    forced = single(ref, who) and forced
                        if not forced:
                            continue
                        env.step_multi_interactive(n_turns=2, refit=True, stop_on_caught=False)
                    else:
                        for _ in range(k):
                            forced = single(ref, "a") and forced
                        if not forced:
                            continue
                        env.step_multi("a", refit=True, stop_on_caught=False)
                    ctx.states += 1
                    ctx.traces += 1
                    ctx.transitions += k
                    ctx.case = {"rf": rf, "consumes": consumes, "moves": k, "turns": turns}
                    if look(ref) != look(env):
                        ctx.fail("a run with refitting differs from planning and stepping one move at a time", got=look(env), want=look(ref))


def run_two(job, ctx):
    """The agent (in the middle of the list of agents) moves; the others stay.  Features: 0 terrain, 1-3 the agents."""
    shape = tuple(job["shape"])
    succ = model.lattice("square", shape[0], shape[1], True)
    me = next(i for i in range(3) if 1 + i not in job["diet"])
    for k in range(1, job["max"] + 1):
        for acts, states in seqs(succ, job["pos"][me], k):
            for stop in (True, False):
                for multi in (False, True):
                    ctx.states += 1
                    ctx.traces += 1
                    ctx.case = {"actions": acts, "stop_on_caught": stop, "turns": multi}
                    env, script, log, m = mk("square", shape, [
                        {"pos": job["pos"][i], "consumes": job["diet"] if i == me else [], "n_moves": k if i == me else 1} for i in range(3)])
                    script[envmc.name(me)] = list(acts)
                    if multi:
                        env.step_multi_interactive(agent_names=[envmc.name(me)], n_moves=[[k]], refit=True, stop_on_caught=stop)
                    else:
                        env.step_multi(envmc.name(me), n_steps=k, refit=True, stop_on_caught=stop)
                    for a in acts:
                        m.step(me, a)
                        ctx.transitions += 1
                        if stop and any(1 + j in job["diet"] and j != me and m.pos[j] == m.pos[me] for j in range(3)):
                            break
                    envmc.observe(ctx, env, m, ctx.case)


def run_many(job, ctx):
    shape = (3, 1)
    na = job["many"]
    succ = model.lattice("square", 3, 1, True)
    starts = [0, 2, 1][:na]
    order = job["order"] if job["order"] is not None else list(range(na))
    T = job["turns"]
    nf = 1

    def moves_of(k, t):
        """Moves of the k-th agent of the round in turn t."""
        if "by_turn" in job:
            return job["by_turn"][k][t]
        if job["how"] == "table":
            return job["table"][order[k]][t]
        return job["moves"][order[k]]

    consumes = [[] for _ in range(na)]
    if job["eats"]:
        consumes[job["eats"][0]] = [nf + job["eats"][1]]
    consumes[-1] = consumes[-1] + [0]
    total = [sum(moves_of(k, t) for t in range(T) for k in range(len(order)) if order[k] == i) for i in range(na)]
    spaces = [seqs(succ, starts[i], total[i]) for i in range(na)]
    for combo in itertools.product(*spaces):
        if any(len(c[0]) > 3 for c in combo) and na > 2:
            continue
        for stop in (True, False):
            env, script, log, m = mk("square", shape, [{"pos": starts[i], "consumes": consumes[i], "n_moves": job["moves"][i]} for i in range(na)])
            for i in range(na):
                script[envmc.name(i)] = list(combo[i][0])
            ctx.states += 1
            ctx.traces += 1
            ctx.case = {"actions": [c[0] for c in combo], "stop_on_caught": stop}
            # model
            want = []
            left = [list(c[0]) for c in combo]
            stopped = open_ = False
            for t in range(T):
                for k, i in enumerate(order):
                    for _ in range(moves_of(k, t)):
                        m_pos = m.pos[i]
                        want.append((envmc.name(i), m_pos))
                        m.step(i, left[i].pop(0))
                        ctx.transitions += 1
                        for j in range(na):
                            if nf + j in consumes[i] and m.pos[i] == m.pos[j]:
                                stopped = stop
                            if nf + i in consumes[j] and m.pos[i] == m.pos[j]:
                                open_ = True  # walked into the one that eats it: left open
                        if stopped:
                            break
                    if stopped:
                        break
                if stopped:
                    break
            if open_ and stop:
                ctx.states -= 1
                continue
            kw = {}
            if job["order"] is not None:
                kw["agent_names"] = [envmc.name(i) for i in order]
            if job["how"] == "attr":
                kw["n_turns"] = T
            else:
                kw["n_moves"] = [[moves_of(k, t) for t in range(T)] for k in range(len(order))]
            env.step_multi_interactive(refit=True, stop_on_caught=stop, **kw)
            got = [(a, p) for a, p, _ in log]
            if got != want:
                ctx.fail("the agents did not move in the expected order, number of times, or did not stop", got=got, want=want)
            envmc.observe(ctx, env, m, ctx.case)
