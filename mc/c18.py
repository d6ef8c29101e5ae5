"""C18 saved hexagonal environments load as the same environment"""
import itertools
import json
import os
import numpy as np
from . import envmc, model, sut

PROPERTY = "C18"
ASSUMPTIONS = ["features are 0 or 1 (what the format can express)", "value iteration agents with maximising or softmax selection (what loading supports)"]
BOUNDS = {"quick": "2x2: every pair of binary feature maps with every wall mask of up to one wall, every wall mask with four maps; 3x2, 1x4, 4x1: every map of one feature with every single wall; 1-3 agents, in every state reachable by up to 2 operations; index and coordinate formats; dictionary, string and file",
          "thorough": "all feature maps x all wall masks on 2x2, 3 operations"}


def agents(k, n):
    A = lambda name, pos, rf, cons, moves=1, sel="max", akw={}, skw={}: dict(name=name, pos=pos, rf=rf, consumes=cons, n_moves=moves, sel=sel, akw=akw, skw=skw)
    return [
        lambda nf: [A("alone", 0, [1.5, -0.25, 0.1][:nf] + [0], [0], 2)],
        lambda nf: [A("pred", n - 1, [0.0, 0.5, 1][:nf] + [0, 2.75], [nf + 1], 3, "softmax", {"discount": 0.5}, {"temperature": 0.25}),
                    A("prey", 0, [1, 1, 1][:nf] + [-1e-3, 0], [0], 1)],
        lambda nf: [A("z", 1, [0.1] * nf + [0, 1, 1], [], 1, "max", {"max_iter": 50, "tol": 1e-6}),
                    A("a", n - 1, [-3] * nf + [0.3, 0, 0], list(range(nf)), 4, "softmax", {}, {"temperature": 2}),
                    A("m", 1, [7] + [0.7] * (nf - 1) + [0, 0, 0], [nf], 2)],
        # eats everything there is; numbers that need all their digits; arguments that are falsy
        lambda nf: [A("Glutton 1", 0, [1 / 3, 1e-9, -123456.789012345][:nf] + [0, 2 / 7], [nf + 1] + list(range(nf))[::-1], 1, "max", {"tol": 0}, {"seed": 0}),
                    A("x-y", n - 2, [-1e-7, 1e12, 0.1 + 0.2][:nf] + [1 / 7, 0], list(range(nf + 1)), 12, "softmax", {"discount": 1 / 3, "max_iter": 1}, {"temperature": 1e-3, "seed": 0})],
    ][k]


def jobs(tier):
    out = []
    masks4 = model.masks(4)
    for k in range(4):
        for st in (False, True):
            fm = list(itertools.product(range(16), range(16)))
            for part in range(4):
                out.append({"shape": (2, 2), "self": st, "agents": k, "part": part, "of": 4, "walls": "few" if tier == "quick" else "all"})
            out.append({"shape": (2, 2), "self": st, "agents": k, "walls": "all", "maps": [[0, 15], [9, 6], [0, 0], [3, 5]]})
            for sh in ((3, 2), (1, 4), (4, 1), (2, 3)):
                out.append({"shape": sh, "self": st, "agents": k, "walls": "one", "maps": "single"})
        out.append({"shape": (12, 11), "self": k % 2 == 0, "agents": k, "walls": "one", "maps": [[sum(1 << i for i in range(0, 132, 3)), sum(1 << i for i in (0, 9, 10, 99, 100, 101, 131))]]})
        out.append({"shape": (20, 15), "self": k % 2 == 1, "agents": k, "walls": "ends", "maps": [[sum(1 << i for i in range(1, 300, 4)), sum(1 << i for i in (0, 127, 128, 254, 255, 256, 257, 299))]]})
        out.append({"ops": 2 if tier == "quick" else 3, "agents": k, "self": k % 2 == 0})
    out.append({"errors": True})
    return out


def bits(v, n):
    return [(v >> i) & 1 for i in range(n)]


def warm():
    from maMDP.algorithms.dynamic_programming import ValueIteration
    m = sut.MDP(np.zeros((1, 1)), np.ones((1, 1, 1)))
    ValueIteration().fit(m, np.ones(1), 0)
    sut.grid("hex", (2, 2))


def build(shape, st, feats, walls, ags):
    from maMDP.algorithms.dynamic_programming import ValueIteration
    mdp = sut.grid("hex", shape, feats, walls=walls, self_transitions=st)
    d = {}
    for a in ags:
        sel = {"max": sut.MaxActionSelector, "softmax": sut.SoftmaxActionSelector}[a["sel"]]
        ag = sut.Agent(a["name"], n_moves=a["n_moves"], algorithm=ValueIteration, algorithm_kwargs=dict(a["akw"]), action_selector=sel, action_kwargs=dict(a["skw"]))
        d[ag] = (a["pos"], list(a["rf"]), list(a["consumes"]))
    return sut.Environment(mdp, d)


def view(env, policy=False):
    out = {"shape": [int(i) for i in env.mdp.shape], "features": np.asarray(env.mdp.features, dtype=float)[:env.mdp.n_features - len(env.agents)].tolist(), "walls": np.asarray(env.mdp.walls, dtype=float).tolist(),
           "sas": np.asarray(env.mdp.sas, dtype=float).tolist(), "self": bool(env.mdp.self_transitions), "agents": []}
    for nm, a in env.agents.items():
        out["agents"].append([nm, int(a.position), int(a.n_moves), [float(x) for x in a.reward_function], [int(i) for i in a.consumes],
                              type(a.algorithm).__name__, type(a.action_selector).__name__, dict(a.algorithm_kwargs), dict(a.action_kwargs)])
        if policy:
            env.fit(nm)
            out["agents"][-1].append(np.round(np.nan_to_num(np.asarray(env.get_agent_q_values(nm), dtype=float), neginf=-1e9), 9).tolist())
            p = env.agents[nm].pi_p
            out["agents"][-1].append(np.round(np.nan_to_num(np.asarray(p, dtype=float), nan=-1), 9).tolist())
    return out


def check(ctx, env, names, deep, fname=None):
    from maMDP import env_io
    before = view(env)
    d = env_io.hex_env_to_dict(env, feature_names=list(names))
    ctx.traces += 1
    ctx.transitions += 2
    if view(env) != before:
        ctx.fail("saving changes the environment")
    s = json.dumps(d)
    ways = {"dictionary": env_io.hex_environment_from_dict(json.loads(s)), "dictionary with names": env_io.hex_environment_from_dict(json.loads(s), list(names))}
    js = env_io.hex_env_to_json(env, list(names), return_string=True)
    if json.loads(js) != json.loads(s):
        ctx.fail("the string and the dictionary differ", string=js, dictionary=s)
    ways["string"] = env_io.hex_environment_from_json(js)
    if fname:
        env_io.hex_env_to_json(env, list(names), fname=fname)
        ways["file"] = env_io.hex_environment_from_json(open(fname).read())
    for w, e in ways.items():
        got = view(e)
        F = np.asarray(e.mdp.features, dtype=float)
        for i, a in enumerate(e.agents.values()):  # (whether an agent has been eaten is not saved)
            row = np.zeros(e.mdp.n_states)
            row[a.position] = 1
            if not np.array_equal(F[len(names) + i], row):
                ctx.fail("agents of the loaded environment are not marked where they are (%s)" % w, got=F)
        if got != before:
            ctx.fail("the loaded environment is not the saved one (%s)" % w, got={k: v for k, v in got.items() if v != before[k]}, want={k: v for k, v in before.items() if v != got[k]})
    if deep and all(np.asarray(env.mdp.features)[len(names) + i].sum() for i in range(len(env.agents))):
        a, b = view(env, True), view(ways["string"], True)
        if a != b:
            ctx.fail("agents of the loaded environment value actions differently", got=b["agents"], want=a["agents"])
    # the saved environment goes on as before
    n = env.mdp.n_states
    feats = np.array(env.mdp.features, dtype=float)
    for i, (nm, ag) in enumerate(env.agents.items()):
        at, hist = ag.position, list(ag.position_history)
        if not feats[len(names) + i, at] or [int(x) for x in feats[len(names) + i]].count(0) != n - 1:
            continue  # eaten, or on its way back
        to = (int(at) + 1) % n
        env.set_agent_position(nm, to)
        row = np.zeros(n)
        row[to] = 1
        want = feats.copy()
        want[len(names) + i] = row
        if int(ag.position) != to or not np.array_equal(np.asarray(env.mdp.features, dtype=float), want):
            ctx.fail("a saved environment does not relocate its agents as before", agent=nm, to=to, got=np.asarray(env.mdp.features))
        env.set_agent_position(nm, int(at))
        if int(ag.position) != int(at) or not np.array_equal(np.asarray(env.mdp.features, dtype=float), feats) or list(ag.position_history) != hist:
            ctx.fail("a saved environment does not relocate its agents as before", agent=nm, to=int(at), got=np.asarray(env.mdp.features))
    # what the dictionary says
    nf = len(names)
    w, h = env.mdp.shape
    for i, nm in enumerate(names):
        states = [s for s in range(n) if env.mdp.features[i, s]]
        if sorted(d["features"][nm]) != states:
            ctx.fail("states listed for a feature", feature=nm, got=d["features"][nm], want=states)
    c = env_io.hex_env_to_dict(env, feature_names=list(names), format="coords")
    json.dumps(c)
    xy = lambda s: [s // h, s % h]
    for i, nm in enumerate(names):
        want = [xy(s) for s in range(n) if env.mdp.features[i, s]]
        if sorted(c["features"][nm]) != want:
            ctx.fail("coordinates listed for a feature", feature=nm, got=c["features"][nm], want=want)
    if sorted(c["walls"]) != [xy(s) for s in range(n) if env.mdp.walls[s]]:
        ctx.fail("coordinates listed for the walls", got=c["walls"])
    for a, (nm, ag) in zip(c["agents"], env.agents.items()):
        if a[nm]["position"] != [xy(ag.position)]:
            ctx.fail("coordinates listed for an agent", got=a[nm]["position"], want=xy(ag.position))


def run(job, ctx):
    from maMDP import env_io
    if "errors" in job:
        env = build((2, 2), False, [[1, 0, 0, 1], [0, 1, 0, 0]], None, agents(1, 4)(2))
        for names in ([], ["a"], ["a", "b", "c"], ["a", "b", "c", "d"]):
            ctx.traces += 1
            ctx.states += 1
            try:
                env_io.hex_env_to_dict(env, feature_names=names)
            except (AttributeError, ValueError):
                continue
            ctx.fail("a wrong number of feature names was accepted", names=names)
        d = env_io.hex_env_to_dict(env, feature_names=["a", "b"])
        for key, val in (("type", "square"),):
            try:
                env_io.hex_environment_from_dict(dict(d, **{key: val}))
            except NotImplementedError:
                continue
            ctx.fail("an environment of unknown type was loaded")
        env_io.hex_env_to_dict(env)  # names are optional
        return
    if "ops" in job:
        feats = [[1, 0, 1, 1], [1, 1, 0, 0]]
        ags = agents(job["agents"], 4)(2)

        def rec(path):
            env = build((2, 2), job["self"], feats, None, ags)
            for o in path:
                nm = ags[o[0]]["name"]
                if o[1] == "go":
                    env.agents[nm].reward_function = np.array([0.0] * len(ags[o[0]]["rf"]))
                    env.fit(nm)
                    q = np.full((4, env.mdp.n_actions), -np.inf)
                    q[:, o[2]] = 1
                    q[np.asarray(env.mdp.sas).sum(axis=-1) == 0] = -np.inf
                    env.agents[nm].algorithm.q_values = q
                    env.step(nm)
                    env.agents[nm].reward_function = np.array(ags[o[0]]["rf"], dtype=float)
                elif o[1] == "put":
                    env.set_agent_position(nm, o[2])
            ctx.case = {"job": job, "operations": path}
            ctx.states += 1
            ctx.transitions += len(path)
            check(ctx, env, ["x", "y"], deep=len(path) < 2)
            if len(path) == job["ops"]:
                return
            for i in range(len(ags)):
                pos = env.agents[ags[i]["name"]].position
                for a in range(env.mdp.n_actions):
                    if env.mdp.sas[pos, a].sum() > 0:
                        rec(path + [[i, "go", a]])
                for p in range(4):
                    if p != pos:
                        rec(path + [[i, "put", p]])

        rec([])
        return
    w, h = job["shape"]
    n = w * h
    if job.get("maps") == "single":
        maps = [[v] for v in range(2 ** n)]
        names = ["food"]
    else:
        maps = job.get("maps") or [list(m) for i, m in enumerate(itertools.product(range(16), range(16))) if i % job["of"] == job["part"]]
        names = ["trees", "apples"]
    if job["walls"] == "all":
        walls = model.masks(n)
    else:
        walls = [[0] * n] + [[1 if i == j else 0 for i in range(n)] for j in range(n)]
        if job["walls"] == "ends":
            walls = [walls[0], walls[129], walls[256], walls[257], walls[-1]]
        if job["walls"] == "few":
            walls = walls[:1] + walls[-1:]
    fname = os.path.join(ctx.scratch, "env_%d.json" % os.getpid())
    for m in maps:
        feats = [bits(v, n) for v in m]
        ags = agents(job["agents"], n)(len(names))
        for wl in walls:
            ctx.case = {"job": job, "features": feats, "walls": wl}
            ctx.states += 1
            env = build((w, h), job["self"], feats, wl, ags)
            check(ctx, env, names, deep=(sum(m) % 16 == 0), fname=fname if m == maps[0] else None)
