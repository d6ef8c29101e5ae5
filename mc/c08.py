"""C08 value iteration is optimal over the actions that are possible"""
import itertools
import numpy as np
from . import envmc, model, sut

PROPERTY = "C08"
ASSUMPTIONS = ["numerical agreement to 1e-6 (the tolerance of the solver is 1e-8)", "discount factors for which the default number of sweeps converges"]
BOUNDS = {"quick": "one solver refitted after every sequence of 3 changes (walls, features, reward function, discount, MDP, position); solver tolerances 1 to 1e-6; all deterministic MDPs with 2 states x 2 actions and 3 states x 1 action, 1 in 16 of those with 3 states x 2 actions, all 2-state stochastic ones over halves, all wall masks of 2x2 grids, refits along every history of 2 operations, rewards of either sign; outcomes with probabilities down to 1e-5; refits after small changes; features, weights and transitions given as integers, booleans or 32-bit floats",
          "thorough": "plus all 3-state x 2-action deterministic MDPs, wall masks of 3x2 / 2x3, 3-state stochastic rows, histories of 3 operations, sequences of 4 changes"}
TOL = 1e-6


def jobs(tier):
    out = [{"det": [2, 2], "part": i, "of": 8} for i in range(8)] + [{"det": [3, 1], "part": i, "of": 4} for i in range(4)]
    out += [{"det": [1, 1], "part": 0, "of": 1}, {"det": [1, 3], "part": 0, "of": 1}, {"det": [2, 1], "part": 0, "of": 1}]
    out += [{"sto": 2, "part": i, "of": 8} for i in range(8)]
    if tier == "thorough":
        out += [{"det": [3, 2], "part": i, "of": 64} for i in range(64)]
        out += [{"sto": 3, "part": i, "of": 16} for i in range(16)]
    else:
        out += [{"det": [3, 2], "part": i, "of": 512} for i in range(0, 512, 16)]
    shapes = [(2, 2), (3, 1)] if tier == "quick" else [(2, 2), (3, 1), (2, 3), (3, 2)]
    for kind in ("square", "hex"):
        for st in (False, True):
            for sh in shapes:
                out += [{"grid": kind, "shape": sh, "self": st, "part": i, "of": 4} for i in range(4)]
            out.append({"big": kind, "self": st})
    for cfg in envs():
        out.append({"env": cfg, "depth": 2 if tier == "quick" else 3})
    out.append({"soft": True})
    out.append({"discounts": True})
    out.append({"tols": True})
    out.append({"rare": True})
    out += [{"types": f, "sas": s} for f in ("int64", "bool", "float32") for s in ("int64", "bool", "float64")]
    depth = 3 if tier == "quick" else 4
    for kind in ("square", "hex"):
        out += [{"refit": kind, "first": k, "depth": depth} for k in range(len(REFITS))]
    return out


REFITS = [["walls", [0, 1, 0, 0, 0, 0]], ["walls", [0, 0, 0, 1, 0, 0]], ["walls", [0] * 6], ["rf", [1, -1]], ["rf", [-2, .5]], ["rf", [1, 1]],
          ["feature", 0, 4], ["feature", 1, 0], ["discount", .5], ["discount", .9], ["feature", 0, 3, .01], ["rf", [1, -.99998]], ["mdp", 1], ["mdp", 0], ["position", 3]]


def envs():
    out = []
    for kind in ("square", "hex"):
        out.append({"kind": kind, "shape": [2, 2], "self": True, "features": [[1, 0, 1, 1], [0, 2, 0, .5]], "walls": None,
                    "agents": [{"pos": 0, "consumes": [0], "rf": [1, -.5, 0, 2]}, {"pos": 3, "consumes": [1, 2], "rf": [-1, 1, 3, 0]}]})
        out.append({"kind": kind, "shape": [3, 1], "self": False, "features": [[1, 0, 1]], "walls": None,
                    "agents": [{"pos": 0, "consumes": [0], "rf": [2, .25]}]})
    out.append({"kind": "square", "shape": [2, 3], "self": False, "features": [[1, 0, 1, 0, 1, 1]], "walls": [0, 0, 0, 0, 1, 0],
                "agents": [{"pos": 0, "consumes": [0], "rf": [1, 0, 1, -1]}, {"pos": 2, "consumes": [1], "rf": [0, 1, 0, 0]},
                           {"pos": 3, "consumes": [], "rf": [-1, -1, -2, 0]}]})
    return out


def warm():
    from maMDP.algorithms.dynamic_programming import ValueIteration
    m = sut.MDP(np.zeros((1, 1)), np.ones((1, 1, 1)))
    for d in (float, int):
        ValueIteration().fit(m, np.ones(1, dtype=d), 0)
    sut.grid("hex", (2, 2))


def solver(**kw):
    from maMDP.algorithms.dynamic_programming import ValueIteration
    return ValueIteration(**kw)


def compare(ctx, V, Q, sas, reward, discount, note):
    V, Q = np.asarray(V), np.asarray(Q)
    V0, Q0 = model.optimal(sas, reward, discount)
    if Q.shape != Q0.shape or V.shape != V0.shape:
        ctx.fail("shape of the values", note=note)
    imp = np.isneginf(Q0)
    if not np.array_equal(np.isneginf(Q), imp):
        ctx.fail("an action is valued as impossible although possible, or the reverse", sas=sas, reward=reward, got=Q, want=Q0, note=note)
    if np.any(~np.isfinite(Q[~imp])) or np.any(np.abs(Q[~imp] - Q0[~imp]) > TOL * (1 + np.abs(Q0[~imp]))):
        ctx.fail("action values are not the optimal ones", sas=sas, reward=reward, discount=discount, got=Q, want=Q0, note=note)
    if np.any(~np.isfinite(V)) or np.any(np.abs(V - V0) > TOL * (1 + np.abs(V0))):
        ctx.fail("state values are not the optimal ones", sas=sas, reward=reward, discount=discount, got=V, want=V0, note=note)


def solve_check(ctx, m, sas, rf, discount, note=None, **kw):
    alg = solver(discount=discount, **kw)
    feats = np.array(m.features)
    sas_before = np.array(m.sas)
    alg.fit(m, np.asarray(rf), 0)
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += int((sas > 0).sum())
    compare(ctx, alg.values, alg.q_values, sas, np.dot(np.asarray(rf, dtype=float), feats), discount, note)
    if not np.array_equal(m.features, feats) or not np.array_equal(m.sas, sas_before):
        ctx.fail("solving an MDP changed it", note=note)


def run(job, ctx):
    ctx.case = job
    if "det" in job:
        n, A = job["det"]
        rew = list(itertools.product([-2, 0, 1.5], repeat=n))
        for k, tgt in enumerate(itertools.product([None] + list(range(n)), repeat=n * A)):
            if k % job["of"] != job["part"]:
                continue
            sas = model.succ_to_sas([[tgt[s * A + a] for a in range(A)] for s in range(n)])
            for i, r in enumerate(rew):
                if n == 3 and A == 2 and (i + k) % 5:
                    continue
                m = sut.MDP(np.array([r], dtype=float), sas.copy())
                solve_check(ctx, m, sas, [1.0], (0.9, 0.5)[(i + k) % 2], note=job)
                if i == 3:
                    V = model.optimal(sas, np.array(r, dtype=float), .9)[0]
                    B = model.brute_optimal(sas, np.array(r, dtype=float), .9)
                    assert np.allclose(V, B), "reference model"
        return
    if "sto" in job:
        n = job["sto"]
        R = [r for r in _rows(n, 2)]
        A = 2 if n == 2 else 1
        for k, rows in enumerate(itertools.product(R, repeat=n * A)):
            if k % job["of"] != job["part"]:
                continue
            sas = np.array(rows).reshape(n, A, n)
            for r in itertools.product([-1, 0, 2], repeat=n):
                m = sut.MDP(np.array([r, r[::-1]], dtype=float), sas.copy())
                solve_check(ctx, m, sas, [1.0, 0.25], 0.8, note=job)
            for w in model.masks(n):
                if sum(w) == 1:
                    m = sut.MDP(np.array([range(n)], dtype=float), sas.copy(), walls=np.array(w))
                    solve_check(ctx, m, model.sas_with_walls(sas, w), [1.0], 0.8, note=[job, w])
        return
    if "grid" in job:
        kind, sh, st = job["grid"], tuple(job["shape"]), job["self"]
        n = sh[0] * sh[1]
        succ = model.lattice(kind, sh[0], sh[1], st)
        f = np.array([[(i * 3 + 1) % 4 for i in range(n)], [(i * i) % 3 - 1 for i in range(n)], [0.5 * (i == n - 1) for i in range(n)]], dtype=float)
        for k, w in enumerate(model.masks(n)):
            if k % job["of"] != job["part"]:
                continue
            m = sut.grid(kind, sh, f, walls=w, self_transitions=st)
            sas = model.succ_to_sas(model.with_walls(succ, w))
            for rf in itertools.product([-1, 0, 2], repeat=3):
                solve_check(ctx, m, sas, np.array(rf) if k % 2 else np.array(rf, dtype=float), 0.9, note=[job, w])
        return
    if "big" in job:
        kind, st = job["big"], job["self"]
        for sh in ((5, 4), (10, 15), (21, 10)):
            n = sh[0] * sh[1]
            succ = model.lattice(kind, sh[0], sh[1], st)
            f = np.zeros((2, n))
            f[0, [0, n - 1, n // 2]] = 1
            f[1, ::7] = 1
            w = [1 if i % 11 == 5 else 0 for i in range(n)]
            m = sut.grid(kind, sh, f, walls=w, self_transitions=st)
            sas = model.succ_to_sas(model.with_walls(succ, w))
            solve_check(ctx, m, sas, [1.0, -0.3], 0.9, note=[job, sh])
        return
    if "env" in job:
        return run_env(job, ctx)
    if "discounts" in job:
        for kind in ("square", "hex"):
            for st in (False, True):
                succ = model.lattice(kind, 3, 2, st)
                sas = model.succ_to_sas(succ)
                f = np.array([[1, 0, 0, 3, -2, 0]], dtype=float)
                m = sut.grid(kind, (3, 2), f, self_transitions=st)
                for d in (0.01, 0.1, 0.3, 0.6, 0.75, 0.9, 0.95):
                    for r in (1, -1, 100, -0.01):
                        solve_check(ctx, m, sas, [float(r)], d, note=d)
                for d in (0.99,):
                    solve_check(ctx, m, sas, [1.0], d, note=d, max_iter=5000, tol=1e-10)
        return
    if "types" in job:
        # features and transitions held as whole numbers, truth values or single-precision numbers
        for tgt in itertools.product([None, 0, 1], repeat=4):
            sas = model.succ_to_sas([[tgt[0], tgt[1]], [tgt[2], tgt[3]]])
            for f in ([[1, 0], [0, 1]], [[0, 1], [1, 1]]):
                for rf in ([1.0, -2.5], [1, 3], [0, -1]):
                    m = sut.MDP(np.array(f, dtype=job["types"]), sas.astype(job["sas"]))
                    solve_check(ctx, m, sas, np.array(rf), .9, note=job)
                    m.walls = np.array([0, 1])
                    solve_check(ctx, m, model.sas_with_walls(sas, [0, 1]), np.array(rf), .5, note=[job, "walls"])
        return
    if "rare" in job:
        # outcomes of small probability that matter
        R = [[0, 1, 0], [.999, .001, 0], [.01, .98, .01], [1e-5, 0, 1 - 1e-5], [0, 0, 0], [.0625, .125, .8125]]
        for r0, r1, r2 in itertools.product(R, repeat=3):
            sas = np.zeros((3, 2, 3))
            sas[0, 0], sas[0, 1], sas[1, 0], sas[2, 1] = r0, r1, r2, r0[::-1]
            for r in ((0, 0, 1e4), (-1e3, 1, 0), (1e5, -1e5, 3)):
                for w in ([0, 0, 0], [0, 1, 0]):
                    m = sut.MDP(np.array([r], dtype=float), sas.copy(), walls=np.array(w))
                    solve_check(ctx, m, model.sas_with_walls(sas, w), [1.0], .9, note=[r0, r1, r2, r, w])
        return
    if "tols" in job:
        # when sweeps change the values by less than the tolerance, the values are within tol * d / (1 - d) of the optimal ones
        for kind in ("square", "hex"):
            for st in (False, True):
                sas = model.succ_to_sas(model.lattice(kind, 4, 3, st))
                f = np.zeros((2, 12))
                f[0, [0, 5]] = 1
                f[1, [3, 11]] = 1
                m = sut.grid(kind, (4, 3), f, self_transitions=st)
                for d in (.5, .9, .95):
                    for tol in (1, 1e-1, 1e-3, 1e-6):
                        for r in ((1, 0), (1000, -1), (-1000, 3), (50, 30), (1e5, 1e5), (-1, -.2)):
                            alg = solver(discount=d, tol=tol, max_iter=5000)
                            alg.fit(m, np.array(r, dtype=float), 0)
                            V0, Q0 = model.optimal(sas, np.dot(np.array(r, dtype=float), f), d)
                            ctx.states += 1
                            ctx.traces += 1
                            ctx.transitions += int((sas > 0).sum())
                            if np.any(~(np.abs(np.asarray(alg.values) - V0) <= tol * d / (1 - d) * 1.01 + 1e-8 * (1 + np.abs(V0)))):
                                ctx.fail("values are further from the optimal ones than the tolerance allows", tol=tol, discount=d, reward=r, got=alg.values, want=V0)
        return
    if "refit" in job:
        return run_refit(job, ctx)
    if "soft" in job:
        import maMDP.algorithms.dynamic_programming as dp
        f = getattr(dp, "solve_value_iteration", None)
        if f is None:
            ctx.skip("soft value iteration")
            return
        for tgt in itertools.product([None, 0, 1], repeat=4):
            sas = model.succ_to_sas([[tgt[0], tgt[1]], [tgt[2], tgt[3]]])
            for r in ((1, 0), (-1, 2), (300, -200), (-400, -400)):
                for d in (.5, .9):
                    rw = np.array([r], dtype=float)
                    V, Q = f(np.array([1.0]), rw, 500, d, sas, 1e-10, True)
                    V0, Q0 = model.soft_optimal(sas, rw[0], d)
                    ctx.states += 1
                    ctx.traces += 1
                    ctx.transitions += int((sas > 0).sum())
                    if not np.array_equal(np.isneginf(Q), np.isneginf(Q0)):
                        ctx.fail("soft value iteration: impossible actions", sas=sas, reward=r)
                    ok = ~np.isneginf(Q0)
                    if np.any(~(np.abs(V - V0) <= 1e-6 * (1 + np.abs(V0)))) or np.any(~(np.abs(Q[ok] - Q0[ok]) <= 1e-6 * (1 + np.abs(Q0[ok])))):
                        ctx.fail("soft value iteration is not at its fixed point", sas=sas, reward=r, got=[V, Q], want=[V0, Q0])


def _rows(n, den):
    out = [[0.0] * n]
    for c in itertools.product(range(den + 1), repeat=n):
        if sum(c) == den:
            out.append([i / den for i in c])
    return out


def run_env(job, ctx):
    """Refitting after any history uses the features as they are now and the walls of the MDP."""
    from maMDP.algorithms.dynamic_programming import ValueIteration
    cfg = job["env"]
    m0 = envmc.EnvModel(cfg)
    sas = model.succ_to_sas(m0.succ)

    def build():
        w, h = cfg["shape"]
        mdp = sut.grid(cfg["kind"], (w, h), cfg["features"], walls=cfg["walls"], self_transitions=cfg["self"])
        ags = {}
        for i, a in enumerate(cfg["agents"]):
            ags[sut.Agent(envmc.name(i), algorithm=ValueIteration)] = (a["pos"], a["rf"], a["consumes"])
        return sut.Environment(mdp, ags)

    def rec(path):
        m = envmc.EnvModel(cfg)
        env = build()
        for op in path:
            if op[0] == "step":
                # force the move: place through the public policy, by giving the agent the values that prefer it
                nm = envmc.name(op[1])
                env.fit(nm)
                q = np.array(env.agents[nm].algorithm.q_values)
                q[np.isfinite(q)] = 0
                q[m.pos[op[1]], op[2]] = 1
                env.agents[nm].algorithm.q_values = q
                env.step(nm)
            elif op[0] == "set":
                env.set_agent_position(envmc.name(op[1]), op[2])
            else:
                env.reset()
            m.apply(op)
        ctx.case = {"path": path}
        for i, a in enumerate(cfg["agents"]):
            nm = envmc.name(i)
            env.fit(nm)
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += len(path)
            compare(ctx, env.agents[nm].algorithm.values, env.get_agent_q_values(nm), sas,
                    np.dot(np.array(a["rf"], dtype=float), m.feat), 0.9, path)
            pi, pip = np.asarray(env.get_agent_pi(nm)), np.asarray(env.get_agent_pi_p(nm))
            Q = model.optimal(sas, np.dot(np.array(a["rf"], dtype=float), m.feat), 0.9)[1]
            for s in range(m.n):
                if model.valid(sas, s):
                    best = Q[s].max()
                    if Q[s, int(pi[s])] < best - 1e-5:
                        ctx.fail("the greedy policy takes a suboptimal action", path=path, agent=i, state=s, action=pi[s])
                    if any(pip[s, k] > 0 and Q[s, k] < best - 1e-5 for k in range(len(Q[s]))):
                        ctx.fail("the greedy policy gives a suboptimal action a chance", path=path, agent=i, state=s)
        if len(path) < job["depth"]:
            for op in m.ops():
                if op[0] != "set" or op[2] != m.pos[op[1]]:
                    rec(path + [op])

    rec([])


def run_refit(job, ctx):
    """One solver, fitted after every change of anything the solution depends on: no solution outlives its problem."""
    kind = job["refit"]
    base = model.lattice(kind, 3, 2, False)
    F = [np.array([[1, 0, 0, 2, 0, 1], [0, 1, 0, 0, 3, 0]], dtype=float), np.array([[0, 0, 1, 0, 0, 1], [2, 0, 0, 1, 0, 0]], dtype=float)]

    def fit(st, note):
        alg, ms, w, cur, rf, disc, pos = st["alg"], st["mdps"], st["walls"], st["cur"], st["rf"], st["disc"], st["pos"]
        m = ms[cur]
        alg.fit(m, np.array(rf, dtype=float), pos)
        ctx.states += 1
        sas = model.succ_to_sas(model.with_walls(base, w[cur]))
        compare(ctx, alg.values, alg.q_values, sas, np.dot(np.array(rf, dtype=float), st["feat"][cur]), disc, note)

    for rest in itertools.product(REFITS, repeat=job["depth"] - 1):
        seq = [REFITS[job["first"]]] + list(rest)
        if any(a == b for a, b in zip(seq, seq[1:])):
            continue
        ctx.case = {"kind": kind, "changes": seq}
        ctx.traces += 1
        ctx.transitions += len(seq)
        st = {"alg": solver(discount=.9), "mdps": [sut.grid(kind, (3, 2), f.copy(), walls=[0] * 6) for f in F], "walls": [[0] * 6, [0] * 6],
              "feat": [f.copy() for f in F], "cur": 0, "rf": [1, -1], "disc": .9, "pos": 0}
        fit(st, [])
        for k, c in enumerate(seq):
            cur = st["cur"]
            if c[0] == "walls":
                st["mdps"][cur].walls = np.array(c[1])
                st["walls"][cur] = c[1]
            elif c[0] == "rf":
                st["rf"] = c[1]
            elif c[0] == "feature":
                by = c[3] if len(c) > 3 else 1.5
                st["mdps"][cur].features[c[1], c[2]] += by
                st["feat"][cur][c[1], c[2]] += by
            elif c[0] == "discount":
                st["alg"].discount = st["disc"] = c[1]
            elif c[0] == "mdp":
                st["cur"] = c[1]
            else:
                st["pos"] = c[1]
            fit(st, seq[:k + 1])
