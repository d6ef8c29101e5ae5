"""C02 walls: after any history of edits the world is the open one minus everything touching a wall"""
import itertools
import numpy as np
from . import model, sut

PROPERTY = "C02"
ASSUMPTIONS = ["whether the end of a coordinate range is part of the wall is left open (the code and its documentation disagree)"]
BOUNDS = {"quick": "every edit history of length 2 on 2x2 grids and plain MDPs from every constructor wall mask, length 1 on 2x3, 3x2, 1x4; larger grids with single-cell walls; walls given as integers, booleans or floats",
          "thorough": "length 3 on 2x2, length 2 on 2x3 / 3x2 / 1x4"}


def edits(shape):
    w, h = shape
    n = w * h
    out = [("set", list(m)) for m in model.masks(n)]
    out += [("xy", [[x], [y]]) for x, y in model.cells(w, h)]
    out += [("reset",)]
    out += [("range", [[0, w], [y]]) for y in range(h)][:1] + [("range", [[x], [0, h]]) for x in range(w)][:1]
    out += [("bad", k) for k in ("short", "two", "2d", "half")]
    return out


def jobs(tier):
    out = []
    deep = [(2, 2)]
    for kind in ("square", "hex"):
        for st in (False, True):
            for shape in deep:
                for start in [None] + [list(m) for m in model.masks(4)]:
                    out.append({"kind": kind, "shape": shape, "self": st, "start": start, "depth": 2 if tier == "quick" else 3})
            for shape in ([(2, 3), (3, 2), (1, 4)]):
                for start in [None] + [list(m) for m in model.masks(shape[0] * shape[1])]:
                    out.append({"kind": kind, "shape": shape, "self": st, "start": start, "depth": 1 if tier == "quick" else 2})
            for shape in ((4, 5), (5, 4), (3, 3)):
                out.append({"kind": kind, "shape": shape, "self": st, "start": None, "big": True})
    for i in range(len(plain())):
        out.append({"plain": i})
    for kind in ("square", "hex"):
        out.append({"eaten": kind})
        out += [{"agents": k, "kind": kind, "self": st} for k in range(1, 5) for st in (False, True)]
    return out


def plain():
    """Plain (not grid) MDPs, deterministic and stochastic."""
    a = np.zeros((3, 2, 3))
    a[0, 0, 1] = a[1, 0, 2] = a[2, 0, 0] = 1
    a[0, 1, 0] = a[1, 1, 0] = 1
    b = np.zeros((3, 2, 3))
    b[0, 0] = [0, .5, .5]
    b[0, 1] = [.25, .25, .5]
    b[1, 0] = [1, 0, 0]
    b[1, 1] = [0, .5, .5]
    b[2, 0] = [.5, .5, 0]
    c = np.zeros((4, 1, 4))
    for i in range(4):
        c[i, 0] = [.25] * 4
    # outcomes that are almost impossible or almost certain are outcomes all the same
    d = np.zeros((3, 2, 3))
    d[0, 0] = [.001, 0, .999]
    d[0, 1] = [0, 1 - 1e-6, 1e-6]
    d[1, 0] = [.05, .9, .05]
    d[1, 1] = [.004, .004, .992]
    d[2, 0] = [0, .03, .97]
    return [a, b, c, d]


def warm():
    sut.grid("hex", (2, 2))


def observe(ctx, m, want_sas, walls, feats, what):
    n, A = want_sas.shape[:2]
    sas = np.asarray(m.sas)
    if sas.shape != want_sas.shape or np.any(np.abs(sas - want_sas) > 1e-12) or not np.array_equal(sas > 0, want_sas > 0):
        ctx.fail("transitions after wall edits are not those of the open world minus the walls", edits=what)
    if not np.array_equal(np.asarray(m.walls).astype(float), np.asarray(walls, dtype=float)):
        ctx.fail("walls reported differ from the walls set", edits=what, got=m.walls)
    adj = want_sas.sum(axis=1) > 0
    if not np.array_equal(np.asarray(m.adjacency) != 0, adj):
        ctx.fail("adjacency does not agree with the walls", edits=what)
    for s in range(n):
        if [int(i) for i in m.state_valid_actions(s)] != [a for a in range(A) if want_sas[s, a].sum() > 0]:
            ctx.fail("valid actions do not agree with the walls", edits=what, state=s)
        for t in range(n):
            if bool(m.is_adjacent(s, t)) != bool(adj[s, t]):
                ctx.fail("is_adjacent does not agree with the walls", edits=what, states=[s, t])
    if not np.array_equal(np.asarray(m.features), feats):
        ctx.fail("editing walls changed the features", edits=what)


def moves(ctx, m, succ, what):
    for s, row in enumerate(succ):
        for a, t in enumerate(row):
            if t is None:
                try:
                    r = m.get_next_state(s, a)
                except ValueError:
                    continue
                ctx.fail("a move blocked by a wall or the edge was made", edits=what, state=s, action=a, to=r)
            elif int(m.get_next_state(s, a)) != t:
                ctx.fail("a move goes to the wrong cell", edits=what, state=s, action=a)


def apply(m, e, walls, shape, ctx, hist):
    """Performs edit e on the real MDP and returns the wall mask the model expects."""
    n = len(walls)
    if e[0] == "set":
        m.walls = np.array(e[1], dtype=(int, bool, float)[(sum(e[1]) + len(hist)) % 3])
        return list(e[1])
    if e[0] == "xy":
        m.add_wall_xy(tuple(e[1][0]), tuple(e[1][1]))
        new = list(walls)
        new[e[1][0][0] * shape[1] + e[1][1][0]] = 1
        return new
    if e[0] == "range":
        xs, ys = e[1]
        m.add_wall_xy(tuple(xs), tuple(ys))
        new = list(walls)
        for x in (range(*xs) if len(xs) == 2 else xs):
            for y in (range(*ys) if len(ys) == 2 else ys):
                new[x * shape[1] + y] = 1
        return new
    if e[0] == "reset":
        m.reset_walls()
        return [0] * n
    bad = {"short": np.zeros(n + 1), "two": np.array([2] + [0] * (n - 1)), "2d": np.zeros((n, 1)),
           "half": np.array([0.5] + [0] * (n - 1))}[e[1]]
    try:
        m.walls = bad
    except (ValueError, AttributeError, TypeError, IndexError):
        return list(walls)
    ctx.fail("an invalid wall specification was accepted", edits=hist, spec=bad)


def run(job, ctx):
    ctx.case = job
    if "plain" in job:
        sas = plain()[job["plain"]]
        n = sas.shape[0]
        feats = np.arange(2 * n, dtype=float).reshape(2, n)
        for start in [None] + model.masks(n):
            for m1 in model.masks(n):
                for m2 in model.masks(n):
                    ctx.states += 1
                    ctx.traces += 1
                    m = sut.MDP(feats.copy(), sas.copy(), walls=None if start is None else np.array(start))
                    for w in ([start] if start is not None else []) + [m1, m2]:
                        ctx.transitions += 1
                        if w is not start:
                            m.walls = np.array(w, dtype=(int, bool, float)[sum(w) % 3])
                        want = model.sas_with_walls(sas, w)
                        observe(ctx, m, want, w, feats, [start, m1, m2])
        return
    if "agents" in job:
        return run_agents(job, ctx)
    if "eaten" in job:
        return run_eaten(job, ctx)
    kind, shape, st, start = job["kind"], tuple(job["shape"]), job["self"], job["start"]
    n = shape[0] * shape[1]
    succ0 = model.lattice(kind, shape[0], shape[1], st)
    feats = np.arange(2 * n, dtype=float).reshape(2, n)
    cache = {}

    def expect(walls):
        k = tuple(walls)
        if k not in cache:
            sc = model.with_walls(succ0, walls)
            cache[k] = (sc, model.succ_to_sas(sc))
        return cache[k]

    if job.get("big"):
        for k in range(n):
            m = sut.grid(kind, shape, feats, self_transitions=st)
            x, y = model.cells(*shape)[k]
            walls = apply(m, ("xy", [[x], [y]]), [0] * n, shape, ctx, [k])
            x2, y2 = model.cells(*shape)[(k * 7 + 3) % n]
            walls = apply(m, ("xy", [[x2], [y2]]), walls, shape, ctx, [k])
            sc, sas = expect(walls)
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += 2
            observe(ctx, m, sas, walls, feats, [(x, y), (x2, y2)])
            moves(ctx, m, sc, [(x, y), (x2, y2)])
            m.reset_walls()
            observe(ctx, m, expect([0] * n)[1], [0] * n, feats, [(x, y), (x2, y2), "reset"])
        return
    E = edits(shape)
    for hist in itertools.product(E, repeat=job["depth"]):
        m = sut.grid(kind, shape, feats, walls=start, self_transitions=st)
        walls = list(start) if start is not None else [0] * n
        ctx.traces += 1
        ctx.states += 1
        for e in hist:
            ctx.transitions += 1
            walls = apply(m, e, walls, shape, ctx, hist)
        sc, sas = expect(walls)
        observe(ctx, m, sas, walls, feats, [start, hist])
        if job["depth"] == 1 or hist[0] == E[0]:
            moves(ctx, m, sc, [start, hist])


def run_eaten(job, ctx):
    """Wall edits among meals and resets: editing walls neither brings features back nor changes what a reset brings back."""
    kind = job["eaten"]
    shape, n = (2, 2), 4
    feats0 = np.array([[1., 1, 0, 1], [0, 2, .5, 1]])
    succ0 = model.lattice(kind, 2, 2, True)
    E = [("set", [0, 1, 0, 0]), ("set", [1, 0, 0, 1]), ("xy", [[1], [0]]), ("reset",), ("bad", "two"), ("eat", [0, 1], 1), ("eat", [1], 3), ("restore",)]
    for hist in itertools.product(E, repeat=4):
        if not any(e[0] in ("eat", "restore") for e in hist):
            continue
        ctx.case = {"eaten": kind, "history": hist}
        m = sut.grid(kind, shape, feats0, self_transitions=True)
        f = feats0.copy()
        walls = [0] * n
        ctx.traces += 1
        ctx.states += 1
        for e in hist:
            ctx.transitions += 1
            if e[0] == "eat":
                m.consume_features(list(e[1]), e[2])
                for k in e[1]:
                    f[k, e[2]] = 0
            elif e[0] == "restore":
                m.reset()
                f = feats0.copy()
            else:
                walls = apply(m, e, walls, shape, ctx, hist)
        observe(ctx, m, model.succ_to_sas(model.with_walls(succ0, walls)), walls, f, hist)
        m.reset()
        observe(ctx, m, model.succ_to_sas(model.with_walls(succ0, walls)), walls, feats0, hist)


def run_agents(job, ctx):
    """Wall edits in a world that agents live in."""
    kind, k = job["kind"], job["agents"]
    shape, n = (2, 2), 4
    feats0 = np.array([[1., 1, 0, 1]])
    succ0 = model.lattice(kind, 2, 2, job["self"])
    E = edits(shape)
    for hist in itertools.product(E, repeat=2):
        ctx.case = {"agents": k, "kind": kind, "history": hist}
        m = sut.grid(kind, shape, feats0, self_transitions=job["self"])
        pos = [(i * 3) % n for i in range(k)]
        env = sut.Environment(m, {sut.Agent("a%d" % i): (pos[i], [1.0] * (1 + k), []) for i in range(k)})
        f = np.vstack([feats0] + [np.eye(n)[p][None] for p in pos])
        walls = [0] * n
        ctx.traces += 1
        for e in hist:
            ctx.transitions += 1
            ctx.states += 1
            walls = apply(env.mdp, e, walls, shape, ctx, hist)
            observe(ctx, env.mdp, model.succ_to_sas(model.with_walls(succ0, walls)), walls, f, hist)
        if [int(env.agents["a%d" % i].position) for i in range(k)] != pos:
            ctx.fail("editing walls moved an agent", edits=hist)
