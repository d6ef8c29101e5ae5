"""C24 distances and directions on the hexagonal and square lattices"""
import itertools
import numpy as np
from . import model, sut

PROPERTY = "C24"
ASSUMPTIONS = ["cells with non-negative coordinates"]
BOUNDS = {"quick": "all pairs of cells of a 9x9 hexagonal lattice, compared with shortest paths in one with a margin; every pair of lists of one or two cells of a 2x3 lattice; directions between all pairs of cells of grids up to 5x5; distances from corners, edges and middle of grids of up to 300 rows or columns",
          "thorough": "all pairs of cells of 16x16; grids up to 8x8"}


def jobs(tier):
    n = 9 if tier == "quick" else 16
    g = 5 if tier == "quick" else 8
    far = [{"far": [w, h]} for w, h in ((40, 40), (300, 2), (2, 300), (70, 9))]
    return far + [{"dist": n, "row": i} for i in range(n)] + [{"lists": [2, 3], "first": i} for i in range(6)] + [{"dir": k, "shape": [w, h]} for k in ("square", "hex") for w in range(1, g + 1) for h in range(1, g + 1)]


def warm():
    from maMDP import grid_utils
    grid_utils.hex_dist(np.array([[0, 0]]), np.array([[0, 0]]))
    grid_utils.offset_distance(0, 0, 0, 0)


_lat = {}


def run(job, ctx):
    from maMDP import grid_utils as gu
    if "dist" in job:
        n = job["dist"]
        pad = n + 1
        pad += pad % 2  # keeps the parity of columns
        W = n + 2 * pad
        if W not in _lat:
            _lat[W] = model.lattice_fast(W, W)
        succ = _lat[W]
        cells = [(x, y) for x in range(n) for y in range(n)]
        arr = np.array(cells)
        x = job["row"]
        # lists of different cells, in different orders and of different lengths
        xa, xb = arr[x * n:(x + 1) * n], arr[(np.arange(2 * n + x) * 7 + 3 * (np.arange(2 * n + x) // 4) + x) % len(arr)]
        got = np.asarray(gu.hex_dist(xa, xb))
        ctx.traces += 1
        if got.shape != (len(xa), len(xb)):
            ctx.fail("shape of the distances between two lists of cells", got=got.shape)
        for i, (a, b) in enumerate(xa):
            d = model.bfs_distance(succ, (int(a) + pad) * W + (int(b) + pad))
            for j, (c, e) in enumerate(xb):
                ctx.states += 1
                ctx.transitions += 1
                if got[i, j] != d[(int(c) + pad) * W + int(e) + pad]:
                    ctx.fail("distance between two cells of different lists", cells=[[a, b], [c, e]], got=got[i, j])
        for y in range(n):
            ctx.case = {"from": [x, y]}
            d = model.bfs_distance(succ, (x + pad) * W + (y + pad))
            got = np.asarray(gu.hex_dist(np.array([[x, y]]), arr))[0]
            back = np.asarray(gu.hex_dist(arr, np.array([[x, y]])))[:, 0]
            for k, (a, b) in enumerate(cells):
                ctx.states += 1
                ctx.transitions += 1
                want = d[(a + pad) * W + (b + pad)]
                if got[k] != want or back[k] != want:
                    ctx.fail("distance between two cells is not the number of moves between them", to=[a, b], got=[got[k], back[k]], want=want)
                if gu.offset_distance(x, y, a, b) != want:
                    ctx.fail("distance between two cells (single)", to=[a, b], got=gu.offset_distance(x, y, a, b), want=want)
            ctx.traces += 3
        return
    if "far" in job:
        # distances along and across large grids: shortest paths between corners, edges and the middle
        w, h = job["far"]
        succ = model.lattice_fast(w, h)
        pts = sorted({(x, y) for x in (0, 1, w // 2, w - 2, w - 1) for y in (0, 1, h // 2, h - 2, h - 1) if 0 <= x < w and 0 <= y < h})
        arr = np.array([(x, y) for x in range(w) for y in range(h)])
        for x, y in pts:
            ctx.case = dict(job, cell=[x, y])
            d = model.bfs_distance(succ, x * h + y)
            got = np.asarray(gu.hex_dist(np.array([[x, y]]), arr))[0]
            ctx.traces += 1
            ctx.states += len(arr)
            ctx.transitions += len(arr)
            # a path may leave a long narrow grid only if that is a short cut; inside a grid it never is
            bad = [k for k in range(len(arr)) if got[k] != d[k]]
            if bad:
                ctx.fail("distance between two cells is not the number of moves between them", to=arr[bad[0]], got=got[bad[0]], want=d[bad[0]])
        return
    if "lists" in job:
        # every pair of lists of one or two cells (repeated cells, shared cells, any order)
        w, h = job["lists"]
        cells = model.cells(w, h)
        ls = [[i] for i in range(w * h)] + [[i, j] for i in range(w * h) for j in range(w * h)]
        W = 3 * max(w, h) + 2
        W += W % 2
        pad = 2 * ((max(w, h) + 1) // 2)
        succ = model.lattice_fast(W, W)
        D = []
        for a, b in cells:
            d = model.bfs_distance(succ, (a + pad) * W + b + pad)
            D.append([d[(c + pad) * W + e + pad] for c, e in cells])
        for A in ls:
            if A[0] != job["first"]:
                continue
            for B in ls:
                ctx.states += 1
                ctx.transitions += len(A) * len(B)
                ctx.traces += 1
                got = np.asarray(gu.hex_dist(np.array([cells[i] for i in A]), np.array([cells[i] for i in B])))
                want = [[D[i][j] for j in B] for i in A]
                if got.tolist() != want:
                    ctx.fail("distances between two lists of cells", first=[cells[i] for i in A], second=[cells[i] for i in B], got=got, want=want)
        return
    w, h = job["shape"]
    kind = job["dir"]
    succ = model.lattice(kind, w, h, False)
    cells = np.array(model.cells(w, h))
    adj = np.asarray((gu.hex_adjacency if kind == "hex" else gu.square_adjacency)(cells))
    fn = gu.get_action_from_states_hex if kind == "hex" else gu.get_action_from_states_square
    ids, idx = gu.grid_coords(np.zeros((w, h)))
    if [int(i) for i in ids] != list(range(w * h)) or not np.array_equal(np.asarray(idx), cells):
        ctx.fail("coordinates of the states", got=idx)
    for s in range(w * h):
        for t in range(w * h):
            ctx.case = {"grid": job, "from": s, "to": t}
            ctx.states += 1
            ctx.transitions += 1
            near = t in succ[s]
            if bool(adj[s, t]) != near:
                ctx.fail("cells next to each other", got=adj[s, t], want=near)
            ctx.traces += 1
            if near:
                a = fn(s, t, adj, cells)
                if succ[s][a] != t:
                    ctx.fail("the action said to lead from one cell to the next does not", got=a)
            else:
                try:
                    fn(s, t, adj, cells)
                except ValueError:
                    continue
                ctx.fail("an action was given for cells that are not next to each other")
