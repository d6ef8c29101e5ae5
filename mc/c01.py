"""C01 grid geometry"""
import math
import numpy as np
from . import model, sut

PROPERTY = "C01"
ASSUMPTIONS = ["grids up to the stated size; the construction is uniform in the size"]
BOUNDS = {"quick": "square and hex grids, all shapes up to 6x6 plus 1x12, 12x1, 10x15, 3x13, 13x3, 2x40, 40x2, 1x300, 300x1, 3x70, with and without self-transitions",
          "thorough": "all shapes up to 10x10 plus 1x30, 30x1, 10x15, 16x16, 20x20, 2x40, 40x2, 1x300, 300x1, 3x140, 140x3"}


def jobs(tier):
    if tier == "quick":
        shapes = [(w, h) for w in range(1, 7) for h in range(1, 7)] + [(1, 12), (12, 1), (3, 13), (13, 3), (10, 15), (2, 40), (40, 2), (1, 300), (300, 1), (3, 70)]
    else:
        shapes = [(w, h) for w in range(1, 11) for h in range(1, 11)] + [(1, 30), (30, 1), (10, 15), (16, 16), (3, 13), (13, 3), (2, 40), (40, 2), (1, 300), (300, 1), (3, 140), (140, 3), (20, 20)]
    shapes.sort(key=lambda s: -s[0] * s[1])
    return [{"kind": k, "shape": list(s), "self": st} for s in shapes for k in ("square", "hex") for st in (False, True)]


def warm():
    sut.grid("hex", (2, 2))


def run(job, ctx):
    kind, (w, h), st = job["kind"], job["shape"], job["self"]
    n = w * h
    ctx.case = job
    ctx.traces += 1
    feats = np.array([np.arange(n), np.arange(n)[::-1]], dtype=float)
    m = sut.grid(kind, (w, h), feats, self_transitions=st)
    succ = model.lattice(kind, w, h, st)
    A = len(succ[0])
    ctx.check(m.n_states == n and m.n_actions == A, "wrong number of states or actions", got=[m.n_states, m.n_actions])
    sas = np.asarray(m.sas)
    ctx.check(sas.shape == (n, A, n), "wrong shape of the transition function", got=sas.shape)
    cl = model.cells(w, h)
    opp = {"square": 2, "hex": 3}[kind]
    ndir = {"square": 4, "hex": 6}[kind]
    for s in range(n):
        ctx.states += 1
        for a in range(A):
            ctx.transitions += 1
            got = [int(t) for t in np.nonzero(sas[s, a])[0]]
            want = [] if succ[s][a] is None else [succ[s][a]]
            if got != want or (want and sas[s, a, want[0]] != 1):
                ctx.fail("action %d in cell %s leads to %s, expected %s" % (a, cl[s], [cl[t] for t in got], [cl[t] for t in want]))
            if want and a < ndir:
                back = (a + opp) % ndir
                ctx.check(sas[want[0], back, s] == 1, "the opposite action does not lead back", cell=cl[s], action=a)
            if want:
                ctx.check(int(m.get_next_state(s, a)) == want[0], "next state differs from the lattice", state=s, action=a)
        ctx.check([int(i) for i in m.state_valid_actions(s)] == [a for a in range(A) if succ[s][a] is not None],
                  "valid actions of a cell", cell=cl[s])
        for t in range(n):
            adj = t in [x for x in succ[s]]
            if bool(m.is_adjacent(s, t)) != adj or bool(m.adjacency[s, t]) != adj:
                ctx.fail("adjacency of cells %s and %s" % (cl[s], cl[t]))
        # coordinates
        c = m.get_state_coords(s)
        ctx.check(tuple(int(i) for i in c) == cl[s], "coordinates of state", state=s, got=c)
        i = m.state_to_idx(s)
        ctx.check(tuple(int(j) for j in i) == cl[s], "index of state", state=s, got=list(map(int, i)))
        ctx.check(int(m.idx_to_state(cl[s])) == s, "state of index", state=s)
    # many states at once
    for sel in (list(range(n)), list(range(n))[::-1], [n - 1], [0, n - 1, 0]):
        try:
            i = m.state_to_idx(np.array(sel))
            ok = [tuple(int(v) for v in c) for c in zip(i[0], i[1])] == [cl[s] for s in sel]
        except TypeError:
            ctx.skip("indices of several states")
            break
        ctx.check(ok, "indices of several states", states=sel[:10])
        back = m.idx_to_state((np.array([cl[s][0] for s in sel]), np.array([cl[s][1] for s in sel])))
        ctx.check([int(v) for v in np.atleast_1d(back)] == sel, "states of several indices", states=sel[:10])
    g = np.asarray(m.features_as_grid())
    ctx.check(g.shape == (2, w, h), "features_as_grid shape", got=g.shape)
    v = np.asarray(m.flat_to_grid(np.arange(n)))
    ctx.check(v.shape == (w, h), "flat_to_grid shape", got=v.shape)
    for s, (x, y) in enumerate(cl):
        ctx.check(g[0, x, y] == s and g[1, x, y] == n - 1 - s, "features_as_grid puts a state in the wrong cell", state=s)
        ctx.check(v[x, y] == s, "flat_to_grid puts a state in the wrong cell", state=s)
    if n <= 200:
        for k in (1, 3, 5):
            g = np.asarray(sut.grid(kind, (w, h), np.array([np.arange(n) * (j + 1) + j for j in range(k)], dtype=float), self_transitions=st).features_as_grid())
            ok = g.shape == (k, w, h) and all(g[j, x, y] == s * (j + 1) + j for s, (x, y) in enumerate(cl) for j in range(k))
            ctx.check(ok, "features_as_grid of %d features" % k)
    ctx.check([int(i) for i in m.state_ids] == list(range(n)), "state ids")
