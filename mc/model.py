"""Reference model: small, slow, obvious, and independent of maMDP's code."""
import itertools
import math

import numpy as np

SQ_DIRS = [(0, 1), (1, 0), (0, -1), (-1, 0)]


def cells(w, h):
    return [(x, y) for x in range(w) for y in range(h)]


def hex_centre(x, y):
    """Centre of cell (x, y): columns 1.5 apart, odd columns half a cell lower than even ones."""
    return 1.5 * x, math.sqrt(3) * (y + (0.0 if x % 2 else 0.5))


def lattice(kind, w, h, self_transitions):
    """succ[state][action] = next state or None, for the open grid."""
    idx = {c: i for i, c in enumerate(cells(w, h))}
    succ = []
    for (x, y) in cells(w, h):
        row = []
        if kind == "square":
            for dx, dy in SQ_DIRS:
                row.append(idx.get((x + dx, y + dy)))
        else:
            cx, cy = hex_centre(x, y)
            for k in range(6):
                ang = math.radians(90 - 60 * k)
                tx, ty = cx + math.sqrt(3) * math.cos(ang), cy + math.sqrt(3) * math.sin(ang)
                hit = None
                for (a, b), i in idx.items():
                    if abs(a - x) <= 1 and abs(b - y) <= 1:
                        ux, uy = hex_centre(a, b)
                        if abs(ux - tx) < 1e-6 and abs(uy - ty) < 1e-6:
                            hit = i
                row.append(hit)
        if self_transitions:
            row.append(idx[(x, y)])
        succ.append(row)
    return succ


def with_walls(succ, walls):
    return [[None if (t is None or walls[s] or walls[t]) else t for t in row] for s, row in enumerate(succ)]


def succ_to_sas(succ):
    n, a = len(succ), len(succ[0])
    sas = np.zeros((n, a, n))
    for s in range(n):
        for k in range(a):
            if succ[s][k] is not None:
                sas[s, k, succ[s][k]] = 1
    return sas


def sas_with_walls(sas, walls):
    """Nothing moves into or out of a wall; what is left of an action that is partly blocked keeps its proportions."""
    out = np.zeros(sas.shape)
    for s in range(sas.shape[0]):
        for a in range(sas.shape[1]):
            left = [0.0 if walls[s] or walls[t] else sas[s, a, t] for t in range(sas.shape[2])]
            if sum(left) > 0:
                out[s, a] = np.array(left) * (sas[s, a].sum() / sum(left))
    return out


def bfs_distance(succ, s):
    d = {s: 0}
    q = [s]
    for u in q:
        for t in succ[u]:
            if t is not None and t not in d:
                d[t] = d[u] + 1
                q.append(t)
    return d


def valid(sas, s):
    return [a for a in range(sas.shape[1]) if sas[s, a].sum() > 0]


def optimal(sas, reward, discount):
    """Exact optimal values and action values (reward on entering a state; possible actions only; a state without any
    possible action is worth 0), by policy iteration with exact evaluation."""
    n, m, _ = sas.shape
    acts = [valid(sas, s) for s in range(n)]
    pol = [a[0] if a else None for a in acts]
    er = np.array([[float(np.dot(sas[s, a], reward)) for a in range(m)] for s in range(n)])
    for _ in range(10000):
        A = np.eye(n)
        b = np.zeros(n)
        for s in range(n):
            if pol[s] is not None:
                A[s] -= discount * sas[s, pol[s]]
                b[s] = er[s, pol[s]]
        V = np.linalg.solve(A, b)
        Q = er + discount * np.einsum("sat,t->sa", sas, V)
        changed = False
        for s in range(n):
            for a in acts[s]:
                if Q[s, a] > Q[s, pol[s]] + 1e-11:
                    pol[s] = a
                    changed = True
        if not changed:
            break
    for s in range(n):
        for a in range(m):
            if a not in acts[s]:
                Q[s, a] = -np.inf
    return V, Q


def brute_optimal(sas, reward, discount):
    """Maximum over every deterministic policy (used to validate optimal())."""
    n = sas.shape[0]
    acts = [valid(sas, s) or [None] for s in range(n)]
    best = None
    for pol in itertools.product(*acts):
        A = np.eye(n)
        b = np.zeros(n)
        for s in range(n):
            if pol[s] is not None:
                A[s] -= discount * sas[s, pol[s]]
                b[s] = float(np.dot(sas[s, pol[s]], reward))
        V = np.linalg.solve(A, b)
        best = V if best is None else np.maximum(best, V)
    return best


def lse(x):
    m = max(x)
    return m + math.log(sum(math.exp(v - m) for v in x))


def soft_optimal(sas, reward, discount, tol=1e-13):
    n, m, _ = sas.shape
    acts = [valid(sas, s) for s in range(n)]
    V = np.zeros(n)
    for _ in range(20000):
        Q = np.einsum("sat,t->sa", sas, reward + discount * V)
        W = np.array([lse([Q[s, a] for a in acts[s]]) if acts[s] else 0.0 for s in range(n)])
        d = np.max(np.abs(W - V))
        V = W
        if d < tol * max(1.0, np.max(np.abs(V))):
            break
    Q = np.einsum("sat,t->sa", sas, reward + discount * V)
    for s in range(n):
        for a in range(m):
            if a not in acts[s]:
                Q[s, a] = -np.inf
    return V, Q


def softmax(q, t):
    q = np.asarray(q, dtype=float)
    m = q.max()
    e = np.array([0.0 if v == -np.inf else math.exp((v - m) / t) for v in q])
    return e / e.sum()


def masks(n):
    return list(itertools.product([0, 1], repeat=n))


def lattice_fast(w, h):
    """Hexagonal lattice without directions, from the distances between cell centres."""
    succ = []
    for x in range(w):
        for y in range(h):
            cx, cy = hex_centre(x, y)
            row = []
            for a in range(max(0, x - 1), min(w, x + 2)):
                for b in range(max(0, y - 1), min(h, y + 2)):
                    if (a, b) != (x, y):
                        ux, uy = hex_centre(a, b)
                        if abs(math.hypot(ux - cx, uy - cy) - math.sqrt(3)) < 1e-6:
                            row.append(a * h + b)
            succ.append(row)
    return succ
