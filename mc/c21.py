"""C21 environments are independent of each other and of the objects they were made from"""
import contextlib
import itertools
import numpy as np
from maMDP.algorithms.dynamic_programming import ValueIteration
from maMDP.algorithms.mcts import MCTS
from maMDP.algorithms.base import Null
from . import core, sut

PROPERTY = "C21"
ASSUMPTIONS = ["random draws of simulating planners are resolved by two fixed schedulers (always the first, always the last option)",
               "two environments never share one MDP at the same time"]
BOUNDS = {"quick": "two environments sharing 2 Agent objects: every sequence of 4 of their 10 operations (value iteration; 3 for the 2 combinations with simulating planners); inputs: every history of 3 operations x 8 ways of passing them; MDP reuse after every history of 2 operations; two MDPs made from the same arrays, every sequence of 3 of 13 operations; agents with seeded selectors in both environments",
          "thorough": "sequences of 5 of their 14 operations, input histories of 4, reuse after histories of 3, sequences of 4 of 13 operations"}

ALGS = {
    "vi": (ValueIteration, {"max_iter": 60, "tol": 1e-5}),
    "vi_low": (ValueIteration, {"max_iter": 60, "tol": 1e-5, "discount": 0.5}),
    "mcts": (MCTS, {"n_iter": 3, "n_steps": 2, "interactive": False}),
    "mcts_cached": (MCTS, {"n_iter": 3, "interactive": True, "caching": True}),
    # with random choices of their own, which are the same for every environment
    "seeded_soft": (ValueIteration, {"max_iter": 60, "tol": 1e-5}, sut.SoftmaxActionSelector, {"temperature": 0.8, "seed": 3}),
    "seeded_max": (Null, {}, sut.MaxActionSelector, {"seed": 0}),
}
NAMES = ("p", "q")


def world(which):
    """Two different worlds; the values are tie-free so that planning by value iteration is deterministic."""
    if which == 0:
        f = np.array([[1.0, 0.31, 0.0, 2.03], [0.0, 1.17, 0.53, 0.0]])
        return "square", (2, 2), f, None, [(0, [1.0, 0.37, 0.0, 0.11], [0]), (3, [0.23, 1.0, 0.07, 0.0], [])]
    if which == 2:  # as large as the first one
        f = np.array([[0.43, 2.3, 1.1, 0.0], [1.9, 0.0, 0.0, 0.67]])
        return "square", (2, 2), f, None, [(3, [0.9, -0.37, 0.0, 0.21], [1]), (1, [1.0, 0.3, -0.4, 0.0], [0])]
    f = np.array([[0.0, 2.11, 0.29, 0.0, 1.07, 0.41], [1.3, 0.0, 0.0, 0.7, 0.0, 0.19]])
    return "hex", (3, 2), f, [0, 0, 0, 1, 0, 0], [(1, [0.61, 1.0, 0.0, -0.13], [1, 0]), (4, [1.0, 0.0, 0.17, 0.0], [2])]


def make_agents(algs):
    out = []
    for i, a in enumerate(algs):
        kw = {"action_selector": ALGS[a][2], "action_kwargs": dict(ALGS[a][3])} if len(ALGS[a]) > 2 else {}
        out.append(sut.Agent(NAMES[i], n_moves=1 + i, algorithm=ALGS[a][0], algorithm_kwargs=dict(ALGS[a][1]), **kw))
    return out


def scheduled(job):
    """Random choices are resolved by a fixed scheduler, unless they are seeded."""
    return contextlib.nullcontext() if "seeded" in job["inter"][0] else core.ControlledRandom(Fixed(job["last"]))


def make_env(which, ags):
    kind, shape, f, walls, spec = world(which)
    mdp = sut.grid(kind, shape, f, walls=walls, self_transitions=True)
    return sut.Environment(mdp, {a: (p, np.array(r), list(c)) for a, (p, r, c) in zip(ags, spec)})


OPS = [("move", 0), ("move", 1), ("fit", 0), ("reset",), ("set", 0), ("fit", 1), ("set", 1)]


def do(env, op):
    if op[0] == "move":
        env.fit(NAMES[op[1]], n_moves=[[1, 1], [1, 1]])
        return env.step(NAMES[op[1]])
    if op[0] == "fit":
        return env.fit(NAMES[op[1]], n_moves=[[2], [1]])
    if op[0] == "set":
        return env.set_agent_position(NAMES[op[1]], env.mdp.n_states - 1 if op[1] == 0 else 2)
    return env.reset()


def see(env, policies=False):
    out = [env.n_steps, env.mdp.features.tolist(), env.mdp.sas.tobytes(), env.mdp.walls.tolist()]
    for n in NAMES:
        a = env.agents[n]
        out += [int(a.position), [int(i) for i in a.position_history], np.asarray(a.consumed, dtype=float).tolist(),
                np.asarray(a.reward_function, dtype=float).tolist(), list(a.consumes), a.n_moves, bool(a.algorithm.fit_complete)]
        q = env.get_agent_q_values(n)
        out.append(None if q is None else np.asarray(q, dtype=float).tobytes())
        for f in (env.get_agent_pi, env.get_agent_pi_p) if policies else ():
            try:
                p = f(n)
            except AttributeError:  # not planned yet
                p = None
            out.append(None if p is None else np.asarray(p, dtype=float).tobytes())
    return out


class Fixed(core.Chooser):
    def __init__(self, last):
        super().__init__()
        self.last = last

    def choose(self, n, weights=None):
        self.trace.append((0, n))
        return n - 1 if self.last else 0


COMBOS = [("vi", "vi_low"), ("vi", "mcts"), ("mcts_cached", "vi")]


def jobs(tier):
    d = 4 if tier == "quick" else 5
    n_ops = 5 if tier == "quick" else 7
    all_ops = [(e, i) for e in (0, 1) for i in range(n_ops)]
    out = [{"inter": list(c), "first": list(map(list, f)), "ops": n_ops, "depth": d if tier != "quick" or "mcts" not in "".join(c) else 3, "last": l}
           for c in COMBOS for f in itertools.product(all_ops, repeat=2 if tier == "quick" else 3)
           for l in ((False,) if "mcts" not in "".join(c) else (False, True))]
    out += [{"inter": list(COMBOS[0]), "first": [list(f)], "ops": 7, "depth": 3 if tier == "quick" else 4, "last": False, "worlds": [0, 2]} for f in itertools.product((0, 1), range(7))]
    out += [{"inter": ["seeded_soft", "seeded_max"], "first": [list(f)], "ops": 6, "depth": 3 if tier == "quick" else 4, "last": False, "worlds": w}
            for f in itertools.product((0, 1), range(6)) for w in ([0, 1], [0, 0])]
    # the second environment is made when it is first used
    out += [{"inter": list(c), "first": [list(f)], "ops": 5, "depth": 3, "last": False, "worlds": [0, 1], "late": True} for c in COMBOS for f in itertools.product((0, 1), range(5))]
    for kind in ("square", "hex", "plain"):
        for rew in ("float", "int", "list"):
            for walls in (False, True):
                out.append({"inputs": kind, "reward": rew, "walls": walls, "depth": 3 if tier == "quick" else 4})
    out += [{"reuse": c, "na": na, "first": f, "depth": 2 if tier == "quick" else 3} for c in (0, 1) for na in (1, 2, 3) for f in range(len(OPS))]
    out += [{"raw": k, "first": i, "depth": 3 if tier == "quick" else 4} for k in ("square", "hex", "plain") for i in range(len(RAW))]
    return out


# two MDPs made from the same arrays, without environments
RAW = [("consume", 0, 0, 0), ("consume", 0, 1, 3), ("consume", 1, 0, 0), ("reset", 0), ("reset", 1), ("walls", 0), ("walls", 1), ("features", 0), ("features", 1), ("no walls", 0),
       ("poke", 0), ("poke", 1), ("scribble",)]


def warm():
    for alg in ("vi",):
        e = make_env(0, make_agents((alg, alg)))
        e.fit("p"); e.step("p")


_alone = {}


def alone(job, which, ops):
    """What environment `which` looks like after `ops` when it has agents of its own and nothing else exists."""
    key = (which, ops, tuple(job["inter"]), job["last"])
    if key not in _alone:
        env = make_env(which, make_agents(job["inter"]))
        with scheduled(job):
            for i in ops:
                do(env, OPS[i])
        _alone[key] = see(env, True)
    return _alone[key]


def run(job, ctx):
    if "inter" in job:
        with core.unjit_random():
            return interleave(job, ctx)
    if "inputs" in job:
        return inputs(job, ctx)
    if "raw" in job:
        return raw(job, ctx)
    return reuse(job, ctx)


def interleave(job, ctx):
    all_ops = [(e, i) for e in (0, 1) for i in range(job["ops"])]
    first = [tuple(f) for f in job["first"]]
    for rest in itertools.product(all_ops, repeat=job["depth"] - len(first)):
        seq = first + list(rest)
        ags = make_agents(job["inter"])
        worlds = job.get("worlds", [0, 1])
        late = job.get("late")
        envs = [make_env(w, ags) if not late or w == worlds[0] else None for w in worlds]
        done = [(), ()]
        ctx.traces += 1
        with scheduled(job):
            for e, i in seq:
                if envs[e] is None:
                    envs[e] = make_env(worlds[e], ags)
                do(envs[e], OPS[i])
                done[e] += (i,)
                ctx.transitions += 1
        ctx.states += 1
        if envs[1] is None:
            envs[1] = make_env(worlds[1], ags)
        ctx.case = {"sequence": [(e, OPS[i]) for e, i in seq], "algorithms": job["inter"]}
        for e in (0, 1):
            got = see(envs[e], True)
            want = alone(job, worlds[e], done[e])
            if got != want:
                k = [j for j in range(len(got)) if got[j] != want[j]][0]
                ctx.fail("an environment was affected by another one made from the same agents", environment=e, item=k,
                         got=repr(got[k])[:300], want=repr(want[k])[:300])


def inputs(job, ctx):
    for seq in itertools.product(range(len(OPS)), repeat=job["depth"]):
        runs = []
        for scribble in (False, True):
            kind, shape, f, walls, spec = world(1 if job["walls"] else 0)
            n = f.shape[1]
            given = {"features": f.copy()}
            w = np.array(walls if walls is not None else [0] * n)
            if job["walls"] or job["inputs"] == "plain":
                given["walls"] = w
            if job["inputs"] == "plain":
                base = sut.grid(kind, shape, f, self_transitions=True)
                given["sas"] = base.sas.copy()
                mdp = sut.MDP(features=given["features"], sas=given["sas"], walls=given["walls"])
            else:
                kind = job["inputs"]
                kw = {"walls": given["walls"]} if job["walls"] else {}
                mdp = sut.GRID[kind](features=given["features"], shape=shape, self_transitions=True, **kw)
            agents = {}
            for i, (p, r, c) in enumerate(spec):
                if job["reward"] == "int":
                    r = [int(round(x * 10)) for x in r]
                given["reward %d" % i] = r = list(r) if job["reward"] == "list" else np.array(r)
                given["consumes %d" % i] = c = list(c)
                given["kwargs %d" % i] = kw = dict(ALGS["vi"][1])
                agents[sut.Agent(NAMES[i], algorithm=ValueIteration, algorithm_kwargs=kw)] = (p, r, c)
            given["agents"] = agents
            before = {k: freeze(v) for k, v in given.items()}
            env = sut.Environment(mdp, agents)
            if scribble:  # what the caller does to these afterwards is the caller's business
                for k, v in given.items():
                    if isinstance(v, np.ndarray):
                        v[...] = 1 if k == "walls" else 0
            if not scribble:
                for o in seq:
                    do(env, OPS[o])
                    ctx.transitions += 1
                    for k, v in given.items():
                        if freeze(v) != before[k]:
                            ctx.case = {"operations": [OPS[x] for x in seq]}
                            ctx.fail("an object passed in by the caller was modified", which=k)
            else:
                for o in seq:
                    do(env, OPS[o])
            runs.append(see(env))
            ctx.traces += 1
        ctx.states += 1
        ctx.case = {"operations": [OPS[x] for x in seq]}
        if runs[0] != runs[1]:
            ctx.fail("an environment changed when the caller reused an array it was made from")


def raw(job, ctx):
    kind, shape, f, _, _ = world(0)
    n = f.shape[1]
    F2, W2 = f[:, ::-1] * 2 + 1, np.array([0, 1, 0, 0])
    lat = sut.grid("square" if job["raw"] == "plain" else job["raw"], shape, f, self_transitions=True).sas.copy()
    walled = lat.copy()
    walled[:, :, 1] = 0
    walled[1] = 0
    for rest in itertools.product(RAW, repeat=job["depth"] - 1):
        seq = (RAW[job["first"]],) + rest
        given = {"features": f.copy(), "walls": np.zeros(n), "sas": lat.copy(), "features 2": F2.copy(), "walls 2": W2.copy()}
        ms = []
        for _ in (0, 1):
            if job["raw"] == "plain":
                ms.append(sut.MDP(features=given["features"], sas=given["sas"], walls=given["walls"]))
            else:
                ms.append(sut.GRID[job["raw"]](features=given["features"], shape=shape, walls=given["walls"], self_transitions=True))
        now, orig, wl = [f.copy(), f.copy()], [f.copy(), f.copy()], [np.zeros(n), np.zeros(n)]
        before = {k: freeze(v) for k, v in given.items()}
        ctx.case = {"operations": seq}
        ctx.traces += 1
        scribbled = False
        for o in seq:
            ctx.transitions += 1
            ctx.states += 1
            if o[0] == "consume":
                ms[o[1]].consume_features([o[2]], o[3])
                now[o[1]][o[2], o[3]] = 0
            elif o[0] == "reset":
                ms[o[1]].reset()
                now[o[1]] = orig[o[1]].copy()
            elif o[0] == "walls":
                given["walls 2"][...] = W2
                ms[o[1]].walls = given["walls 2"]
                wl[o[1]] = W2.copy()
            elif o[0] == "no walls":
                ms[o[1]].walls = np.zeros(n)
                wl[o[1]] = np.zeros(n)
            elif o[0] == "features":
                given["features 2"][...] = F2
                ms[o[1]].features = given["features 2"]
                now[o[1]], orig[o[1]] = F2.copy(), F2.copy()
            elif o[0] == "poke":
                ms[o[1]].features[1, 2] = 9
                now[o[1]][1, 2] = 9
            else:
                scribbled = True
                for v in given.values():
                    v[...] = -3
            for k, v in given.items():
                if not scribbled and freeze(v) != before[k]:
                    ctx.fail("an array passed in by the caller was modified", which=k)
            for e in (0, 1):
                if not np.array_equal(np.asarray(ms[e].features, dtype=float), now[e]):
                    ctx.fail("the features of an MDP are not its own", mdp=e, got=ms[e].features, want=now[e])
                if not np.array_equal(np.asarray(ms[e].walls, dtype=float), wl[e]):
                    ctx.fail("the walls of an MDP are not its own", mdp=e, got=ms[e].walls, want=wl[e])
                if not np.array_equal(ms[e].sas, walled if wl[e].any() else lat):
                    ctx.fail("the transitions of an MDP are not its own", mdp=e, walls=wl[e])


def freeze(v):
    if isinstance(v, np.ndarray):
        return v.shape, str(v.dtype), v.tobytes()
    if isinstance(v, dict):
        return [(id(k) if not isinstance(k, str) else k, id(x) if not isinstance(k, str) else x) for k, x in v.items()]
    return list(v)


def reuse(job, ctx):
    for rest in itertools.product(range(len(OPS)), repeat=job["depth"] - 1):
        seq = (job["first"],) + rest
        env = make_env(job["reuse"], make_agents(("vi", "vi_low")))
        for o in seq:
            do(env, OPS[o])
            ctx.transitions += 1
        base = env.mdp.features[:2].copy()
        kind, shape, f, walls, _ = world(job["reuse"])
        pos = [2, 0, 1][:job["na"]]
        rew = [[1.0, 0.37, -0.2, 0.11, 0.05][:2 + job["na"]], [0.3, 1.0, 0.1, 0.7, -0.3][:2 + job["na"]], [0.5, 0.2, 0.9, 0.0, 0.1][:2 + job["na"]]]
        cons = [[0], [1], []]
        second = sut.Environment(env.mdp, {sut.Agent("n%d" % i): (pos[i], list(rew[i]), list(cons[i])) for i in range(job["na"])})
        fresh_mdp = sut.grid(kind, shape, base, walls=walls, self_transitions=True)
        fresh = sut.Environment(fresh_mdp, {sut.Agent("n%d" % i): (pos[i], list(rew[i]), list(cons[i])) for i in range(job["na"])})
        ctx.case = {"operations": [OPS[x] for x in seq], "agents": job["na"]}
        ctx.traces += 1
        ctx.states += 1

        def compare(when):
            if not np.array_equal(second.mdp.features, fresh.mdp.features):
                ctx.fail("an MDP used in a second environment does not look like a fresh one", when=when,
                         got=second.mdp.features, want=fresh.mdp.features)
            for n in fresh.agents:
                a, b = second.agents[n], fresh.agents[n]
                if (int(a.position), [int(i) for i in a.position_history], list(a.consumed)) != (int(b.position), [int(i) for i in b.position_history], list(b.consumed)):
                    ctx.fail("an environment on a reused MDP does not behave like a fresh one", when=when, agent=n,
                             got=[a.position, a.position_history, a.consumed], want=[b.position, b.position_history, b.consumed])

        compare("made")
        script = [("move", i) for i in range(job["na"])] + [("set", 0)] + [("move", 0), ("reset",)] + [("move", i) for i in range(job["na"])][::-1]
        for o in script:
            for e in (second, fresh):
                if o[0] == "move":
                    e.fit("n%d" % o[1])
                    e.step("n%d" % o[1])
                elif o[0] == "set":
                    e.set_agent_position("n%d" % o[1], e.mdp.n_states - 1)
                else:
                    e.reset()
                ctx.transitions += 1
            compare(o)
