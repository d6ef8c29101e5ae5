"""Lockstep exploration of an Environment and its reference model (C04, C05, C06)."""
import itertools
import numpy as np
from . import model, sut


class EnvModel:
    def __init__(self, cfg):
        self.cfg = cfg
        w, h = cfg["shape"]
        self.open = model.lattice(cfg["kind"], w, h, cfg["self"])
        self.n = w * h
        self.wall(cfg.get("walls") or [0] * self.n)
        self.nf = len(cfg["features"])
        self.na = len(cfg["agents"])
        self.reset()

    def wall(self, walls):
        self.walls = list(walls)
        self.succ = model.with_walls(self.open, walls)

    def reset(self):
        self.pos = [a["pos"] for a in self.cfg["agents"]]
        self.feat = np.zeros((self.nf + self.na, self.n))
        self.feat[:self.nf] = np.array(self.cfg["features"], dtype=float)
        for i in range(self.na):
            self.feat[self.nf + i, self.pos[i]] = 1
        self.consumed = np.zeros((self.na, self.nf + self.na))
        self.hist = [[p] for p in self.pos]
        self.steps = 0

    def _place(self, i, p):
        self.pos[i] = p
        self.feat[self.nf + i] = 0
        self.feat[self.nf + i, p] = 1

    def can(self, i, a):
        return self.succ[self.pos[i]][a] is not None

    def step(self, i, a):
        p = self.succ[self.pos[i]][a]
        assert p is not None
        self._place(i, p)
        self.hist[i].append(p)
        for f in self.cfg["agents"][i]["consumes"]:
            if self.feat[f, p] > 0:
                self.feat[f, p] = 0
                self.consumed[i, f] += 1
        self.steps += 1

    def key(self):
        return tuple(self.walls), tuple(self.pos), self.feat.tobytes(), self.consumed.tobytes()

    def ops(self):
        out = []
        for i in range(self.na):
            for a in range(len(self.succ[0])):
                if self.can(i, a):
                    out.append(("step", i, a))
            for p in self.cfg.get("sets") or range(self.n):
                out.append(("set", i, p))
        out.append(("reset",))
        for w in self.cfg.get("edits", []):
            if w != self.walls:
                out.append(("walls", w))
        return out

    def resolve(self, op):
        """("go", agent, k): the k-th of the moves the agent has, wherever it is."""
        if op[0] != "go":
            return op
        able = [a for a in range(len(self.succ[0])) if self.can(op[1], a)]
        return ("step", op[1], able[op[2] % len(able)])

    def apply(self, op):
        if op[0] == "step":
            self.step(op[1], op[2])
        elif op[0] == "set":
            self._place(op[1], op[2])
        elif op[0] == "reset":
            self.reset()
        elif op[0] == "walls":
            self.wall(op[1])


def name(i):
    return "agent_%d" % i


def build(cfg):
    w, h = cfg["shape"]
    mdp = sut.grid(cfg["kind"], (w, h), np.array(cfg["features"], dtype=cfg["dtype"]) if "dtype" in cfg else cfg["features"], walls=cfg.get("walls"), self_transitions=cfg["self"])
    script = {}
    agents = {}
    nr = len(cfg["features"]) + len(cfg["agents"])
    diets = {}
    for i, a in enumerate(cfg["agents"]):
        ag = sut.Agent(name(i), n_moves=a.get("n_moves", 1), algorithm=sut.Scripted, algorithm_kwargs={"script": script})
        agents[ag] = (a["pos"], [0.5 * (k + 1) for k in range(nr)], diets.setdefault(tuple(a["consumes"]), list(a["consumes"])) if cfg.get("shared") else list(a["consumes"]))
    env = sut.Environment(mdp, agents)
    return env, script


def do(env, script, op):
    """Performs op on the real environment."""
    if op[0] == "step":
        nm = name(op[1])
        script[nm] = op[2]
        env.fit(nm)
        return env.step(nm)
    if op[0] == "set":
        return env.set_agent_position(name(op[1]), op[2])
    if op[0] == "reset":
        return env.reset()
    if op[0] == "walls":
        env.mdp.walls = np.array(op[1])
        return None
    raise KeyError(op)


def observe(ctx, env, m, path, what=("moves", "features")):
    if "moves" in what:
        for i in range(m.na):
            nm = name(i)
            if int(env.agents[nm].position) != m.pos[i]:
                ctx.fail("agent is in the wrong state", path=path, agent=i, got=env.agents[nm].position, want=m.pos[i])
            if [int(x) for x in env.get_agent_position_history(nm)] != m.hist[i]:
                ctx.fail("position history is not the states visited", path=path, agent=i,
                         got=env.get_agent_position_history(nm), want=m.hist[i])
        if env.n_steps != m.steps:
            ctx.fail("step count", path=path, got=env.n_steps, want=m.steps)
    F = np.asarray(env.mdp.features, dtype=float)
    if F.shape != m.feat.shape:
        ctx.fail("number of features or states", path=path, got=F.shape, want=m.feat.shape)
    if not np.array_equal(F[m.nf:], m.feat[m.nf:]):
        ctx.fail("the features marking the agents do not mark where they are", path=path, got=F[m.nf:], want=m.feat[m.nf:])
    if "features" in what:
        if not np.array_equal(F[:m.nf], m.feat[:m.nf]):
            ctx.fail("features of the environment", path=path, got=F[:m.nf], want=m.feat[:m.nf])
        for i in range(m.na):
            c = np.asarray(env.agents[name(i)].consumed, dtype=float)
            if not np.array_equal(c, m.consumed[i]):
                ctx.fail("record of what an agent has consumed", path=path, agent=i, got=c, want=m.consumed[i])


def replay(ctx, cfg, path):
    env, script = build(cfg)
    for op in path:
        do(env, script, op)
        ctx.transitions += 1
    return env, script


def bfs(cfg, ctx, depth, visit, extra_ops=None, max_states=100000):
    """Visits every state reachable within `depth` operations; visit(path, op, model_before) executes and checks one
    transition on the real environment and returns the model after it."""
    m0 = EnvModel(cfg)
    seen = {m0.key()}
    frontier = [[]]
    ctx.states += 1
    for d in range(depth):
        nxt = []
        for path in frontier:
            m = EnvModel(cfg)
            for op in path:
                m.apply(op)
            for op in m.ops():
                ctx.traces += 1
                m2 = visit(path, op)
                k = m2.key()
                if k not in seen:
                    seen.add(k)
                    ctx.states += 1
                    if len(seen) > max_states:
                        ctx.truncated = True
                        return len(seen)
                    nxt.append(path + [op])
        frontier = nxt
        if not frontier:
            break
    return len(seen)


WALK = 26


def walk_jobs(tier):
    """Long histories: every repetition of up to three (thorough: four) operations, 26 operations long, and of two and one, 290 and 1100 long."""
    out = []
    for c in configs("quick"):
        if not c.get("walk"):
            continue
        ops = walk_ops(c)
        for first in range(len(ops)):
            out.append(dict(c, walk=3 if tier == "quick" else 4, first=first))
            out.append(dict(c, walk=2, first=first, length=290))
            if ops[first][0] == "go":
                out.append(dict(c, walk=1, first=first, length=1100))
    return out


def walk_ops(c):
    n = c["shape"][0] * c["shape"][1]
    out = []
    for i in range(len(c["agents"])):
        out += [("go", i, 0), ("go", i, 1)]
    return out + [("set", 0, n - 1), ("set", len(c["agents"]) - 1, 0), ("reset",)]


def walk(job, ctx, what, at_end=None):
    ops = walk_ops(job)
    for L in range(1, job["walk"] + 1):
        for rest in itertools.product(ops, repeat=L - 1):
            pattern = (ops[job["first"]],) + rest
            m = EnvModel(job)
            env, script = build(job)
            path = []
            ctx.traces += 1
            for k in range(job.get("length", WALK)):
                op = m.resolve(pattern[k % L])
                path.append(op)
                ctx.case = {"path": path}
                r = do(env, script, op)
                m.apply(op)
                ctx.transitions += 1
                ctx.states += 1
                observe(ctx, env, m, path, what)
                if "moves" in what and op[0] == "step" and int(r) != m.pos[op[1]]:
                    ctx.fail("step returns a position other than the new one", path=path, got=r)
            if at_end:
                at_end(env, script, path)


def configs(tier):
    """Environments explored: every shape of interaction between movement, walls, features and eating that two or three
    agents on a small grid can show."""
    out = []

    def add(kind, shape, st, feats, agents, depth, walls=None, **more):
        out.append({**more, "kind": kind, "shape": list(shape), "self": st, "features": feats, "walls": walls,
                    "agents": [{"pos": p, "consumes": c} for p, c in agents], "depth": depth})

    d = 0 if tier == "quick" else 2
    one = [[1, 0, 1, 1]]
    # one agent, everything
    add("square", (2, 2), True, one, [(0, [0])], 5 + d)
    add("square", (2, 2), False, one, [(1, [0])], 5 + d)
    add("hex", (2, 2), True, [[1, 1, 0, 1], [0, 2, 0.5, 1]], [(3, [0, 1])], 4 + d)
    add("hex", (2, 2), True, [[1, 1, 0, 1], [0, 2, 0.5, 1]], [(0, [1])], 4 + d)
    add("square", (2, 2), True, [[1, 1, 0, 1], [0, 2, 0.5, 1]], [(2, [1, 0])], 4 + d)
    add("square", (3, 1), True, [[0, 1, 1], [1, 0, 1], [2, 2, 0]], [(1, [0, 2])], 5 + d)
    # two agents: same feature, different features, eating one another in either order of attachment
    for c0, c1 in (([0], [0]), ([0], [1]), ([], [0, 1]), ([2], []), ([], [2]), ([3], []), ([3, 0], [1]), ([0], [2, 0]), ([1, 3], [0, 2])):
        if 2 in c0:  # an agent does not eat itself
            c0 = [f for f in c0 if f != 2]
        add("square", (2, 2), True, [[1, 0, 0, 2], [0, 1, 0, 1]], [(0, c0), (3, [f for f in c1 if f != 3])], 3 + d // 2)
    add("hex", (2, 2), False, [[1, 0, 1, 1]], [(0, [2]), (0, [0])], 3 + d // 2)
    add("square", (3, 1), True, [[1, 1, 1]], [(0, [0, 2]), (2, [0, 1])], 4 + d // 2)
    add("square", (1, 3), False, [[1, 1, 1]], [(0, [0, 2]), (2, [0, 1])], 4 + d // 2)
    # walls
    add("square", (3, 2), True, [[1, 1, 0, 1, 1, 0]], [(0, [0])], 4 + d, walls=[0, 0, 1, 0, 0, 0])
    add("hex", (3, 2), False, [[1, 1, 0, 1, 1, 0]], [(0, [0]), (5, [1])], 3 + d // 2, walls=[0, 0, 0, 1, 0, 0])
    # three agents, a food chain, and one agent that eats both others
    add("square", (3, 1), True, [[1, 0, 1]], [(0, [2]), (1, [3]), (2, [0])], 3 + d // 2)
    add("square", (1, 3), False, [[0, 1, 1], [1, 0, 1]], [(2, [1]), (0, [0, 2, 4]), (1, [1, 0])], 3 + d // 2)
    add("hex", (2, 2), False, [[1, 0, 1, 1]], [(0, []), (1, [1, 3]), (3, [0])], 3 + d // 2)
    # larger grids, shallow
    add("hex", (4, 3), True, [[1] * 12, [0, 1] * 6], [(5, [0]), (6, [1, 2])], 2 + d // 2)
    add("square", (3, 4), True, [[1] * 12, [0, 1] * 6], [(11, [0, 1]), (0, [1])], 2 + d // 2)
    # agents whose diet is one and the same list
    add("square", (2, 2), True, [[1, 0, 2, 2], [0, 1, 0, 1]], [(0, [0, 1]), (3, [0, 1])], 3, shared=True)
    add("square", (3, 1), False, [[1, 1, 1]], [(0, [0]), (2, [0]), (1, [0])], 2, shared=True)
    # many states, many agents, many features
    far = [1, 0.5] * 150
    add("square", (1, 300), True, [far, far[::-1]], [(255, [0]), (256, [1, 2])], 2, sets=[0, 127, 128, 257, 299])
    add("hex", (20, 15), False, [far, far[::-1]], [(254, [0]), (257, [1, 2])], 2, sets=[0, 255, 256, 299])
    add("square", (3, 1), False, [[1, 1, 1]], [(0, [0]), (2, [1, 0]), (1, [5]), (0, [2, 3]), (1, [])], 2)
    add("hex", (2, 2), False, [[int((s + k) % 3 == 0) for s in range(4)] for k in range(12)], [(0, [0, 11]), (3, [10, 3, 12]), (1, [11, 14]), (2, list(range(12))), (0, [13, 1]), (1, [9])], 2, sets=[0, 3])
    # features that are whole numbers, or marks, and held as such
    add("square", (2, 2), True, [[1, 0, 2, 1], [0, 1, 3, 1]], [(0, [0, 3]), (3, [1])], 3, dtype="int64")
    add("hex", (2, 2), False, [[1, 0, 1, 1]], [(0, [0]), (3, [1])], 3, dtype="bool")
    add("square", (3, 1), True, [[1, 0, 1]], [(0, [0])], 3, dtype="uint8")
    # features present in the faintest way, or in plenty
    add("square", (2, 2), True, [[1e-3, 0, 1e-9, 1e6], [0, 1e-300, 1, 1e-5]], [(0, [0]), (3, [1, 0])], 3)
    add("hex", (3, 1), True, [[1e-4, 1e-9, .01]], [(1, [0])], 3)
    # walls edited while the agents are about
    add("square", (2, 2), True, [[1, 0, 1, 2]], [(0, [0, 2]), (3, [0])], 3, edits=[[0, 1, 0, 0], [0, 0, 0, 1], [0] * 4])
    add("hex", (3, 1), True, [[1, 1, 1]], [(0, [0])], 4, edits=[[0, 1, 0], [1, 0, 0], [0, 0, 0]], walls=[0, 0, 1])
    add("square", (3, 1), True, [[1, 1, 1]], [(0, [0]), (1, [1]), (2, [0])], 2, edits=[[0, 1, 0], [1, 0, 0], [0, 0, 0]])
    # long histories
    add("square", (2, 2), True, [[1, 0, 0.5, 2], [0, 1, 1, 1]], [(0, [0]), (3, [1, 2])], 1, walk=True)
    add("hex", (3, 2), False, [[1, 1, 1, 0.5, 0, 2]], [(2, [0]), (5, [1])], 1, walk=True)
    return out
