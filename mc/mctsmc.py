"""Reference model of Monte Carlo tree search, and the exploration of the real one (C11, C12, C13)."""
import math
import numpy as np
from . import core, envmc, model, sut


def build(cfg, **over):
    from maMDP.algorithms.mcts import MCTS
    w, h = cfg["shape"]
    mdp = sut.grid(cfg["kind"], (w, h), cfg["features"], walls=cfg.get("walls"), self_transitions=cfg["self"])
    kw = dict(n_iter=cfg["n_iter"], n_steps=cfg.get("n_steps", 10), C=cfg.get("C", 1), interactive=cfg.get("interactive", False),
              caught_cost=cfg.get("caught_cost", -50), opponent_policy_method=cfg.get("policy", "solve"),
              opponent_action_selection=cfg.get("selection", "max"), softmax_temperature=cfg.get("temperature", 1),
              caching=cfg.get("caching", False), return_states=True, return_other_agent_states=True)
    if "VI_kwargs" in cfg:
        kw["VI_kwargs"] = cfg["VI_kwargs"]
    kw.update(over)
    who = cfg.get("who", 0)
    ags = {}
    for i, a in enumerate(cfg["agents"]):
        if i == who:
            ag = sut.Agent(envmc.name(i), n_moves=a.get("n_moves", 1), algorithm=MCTS, algorithm_kwargs=kw)
        else:
            ag = sut.Agent(envmc.name(i), n_moves=a.get("n_moves", 1))
        ags[ag] = (a["pos"], [float(x) for x in a["rf"]], list(a["consumes"]))
    return sut.Environment(mdp, ags)


def default_moves(cfg):
    """n_steps moves, the agents taking turns with their own number of moves each."""
    who = cfg.get("who", 0)
    order = [who] + ([i for i in range(len(cfg["agents"])) if i != who] if cfg.get("interactive") else [])
    per = [cfg["agents"][i].get("n_moves", 1) for i in order]
    out = [[] for _ in order]
    left = cfg.get("n_steps", 10)
    while left > 0:
        for k in range(len(order)):
            out[k].append(min(per[k], left))
            left -= out[k][-1]
    return out


class Sim:
    """Replays the simulations a fit reports, checking each move and accumulating what it should be worth."""

    def __init__(self, cfg, ctx, feats=None, pos=None):
        self.cfg, self.ctx = cfg, ctx
        w, h = cfg["shape"]
        self.n = w * h
        self.succ = model.with_walls(model.lattice(cfg["kind"], w, h, cfg["self"]), cfg.get("walls") or [0] * self.n)
        self.sas = model.succ_to_sas(self.succ)
        self.nf = len(cfg["features"])
        who = cfg.get("who", 0)
        self.inter = cfg.get("interactive", False)
        self.order = [who] + ([i for i in range(len(cfg["agents"])) if i != who] if self.inter else [])
        m = envmc.EnvModel(cfg)
        self.F0 = m.feat if feats is None else np.array(feats, dtype=float)
        self.pos0 = [(m.pos if pos is None else pos)[i] for i in self.order]
        self.rf = [np.array(cfg["agents"][i]["rf"], dtype=float) for i in self.order]
        self.consumes = [cfg["agents"][i]["consumes"] for i in self.order]
        self.rows = [self.nf + i for i in self.order]
        self.moves = cfg.get("moves") or default_moves(cfg)
        self.V = np.zeros(self.n)
        self.N = np.zeros(self.n)
        self.qcache = {}
        self.choice_points = []

    def ucb(self, node, states):
        C = self.cfg.get("C", 1)
        out = []
        for s in states:
            out.append(self.V[s] / (1 + self.N[s]) + C * math.sqrt(2 * math.log(max(self.N[node], 1)) / (1 + self.N[s])))
        return out

    def opponent_q(self, k, F):
        d = self.cfg.get("VI_kwargs", {}).get("VI_discount", 0.9)
        key = (k, F.tobytes())
        if key not in self.qcache:
            self.qcache[key] = model.optimal(self.sas, np.dot(self.rf[k], F), d)[1]
        return self.qcache[key]

    def iteration(self, visited, others):
        ctx, cfg = self.ctx, self.cfg
        visited = [int(v) for v in visited]
        others = [[int(v) for v in o] for o in others]
        vis, oth = list(visited), [list(o) for o in others]
        F = self.F0.copy()
        pos = list(self.pos0)
        na = len(self.order)
        active = [True] * na
        reward = 0.0
        expand = True
        actor = 0
        turn, made = [0] * na, [0] * na
        total = 0
        n_total = sum(sum(m) for m in self.moves) if self.inter else sum(self.moves[0])

        def overlap():
            r = 0.0
            for a in range(na):
                for b in range(na):
                    if self.rows[b] in self.consumes[a] and active[a] and active[b] and pos[a] == pos[b]:
                        active[b] = False
                        if b == 0:
                            return r + cfg.get("caught_cost", -50), True
                        if a == 0:
                            r += self.rf[0][self.rows[b]]
            return r, False

        caught = False
        while total < n_total:
            k = self.moves[actor][turn[actor]] if self.inter else 1
            if k > 0:
                F[self.rows[actor]] = 0
                F[self.rows[actor], pos[actor]] = 1
                if self.inter:
                    r, caught = overlap()
                    reward += r
                    if caught:
                        break
                    for i in range(na):
                        if not active[i]:
                            F[self.rows[i]] = 0
                options = [t for t in self.succ[pos[actor]] if t is not None]
                if actor == 0:
                    if not vis:
                        ctx.fail("a simulation is too short", visited=visited, others=others)
                    nxt = vis.pop(0)
                    if nxt not in options:
                        ctx.fail("a simulated move of the planning agent is not possible", visited=visited, at=pos[0], to=nxt)
                    if expand:
                        new = [t for t in options if self.N[t] == 0]
                        if new:
                            if nxt not in new:
                                ctx.fail("an already explored state was chosen over unexplored ones", visited=visited, chosen=nxt, unexplored=new)
                            expand = False
                        else:
                            u = self.ucb(pos[0], options)
                            if u[options.index(nxt)] < max(u) - 1e-9 * (1 + abs(max(u))):
                                ctx.fail("the state with the highest upper confidence bound was not chosen", visited=visited, at=pos[0],
                                         chosen=nxt, options=options, bounds=u)
                    reward += float(np.dot(self.rf[0], F[:, nxt]))
                    pos[0] = nxt
                elif active[actor]:
                    if not oth[actor - 1]:
                        ctx.fail("another agent was not moved in a simulation although it was its turn", visited=visited, others=others)
                    nxt = oth[actor - 1].pop(0)
                    if nxt not in options:
                        ctx.fail("a simulated move of another agent is not possible", others=others, at=pos[actor], to=nxt)
                    if cfg.get("policy", "solve") == "solve":
                        q = self.opponent_q(actor, F)[pos[actor]]
                        best = max(q)
                        mine = max(q[a] for a, t in enumerate(self.succ[pos[actor]]) if t == nxt)
                        if cfg.get("selection", "max") == "max" and mine < best - 5e-3:
                            ctx.fail("another agent does not act in its own best interest in a simulation", visited=visited, others=others,
                                     agent=self.order[actor], at=pos[actor], to=nxt, action_values=q, features=F)
                    pos[actor] = nxt
                if active[actor]:
                    F[self.rows[actor]] = 0
                    F[self.rows[actor], pos[actor]] = 1
                    for f in self.consumes[actor]:
                        F[f, pos[actor]] = 0
                made[actor] += 1
                total += 1
                ctx.transitions += 1
            if self.inter and made[actor] == k:
                made[actor] = 0
                turn[actor] += 1
                actor = (actor + 1) % na
        if self.inter and not caught:
            reward += overlap()[0]
        if vis or any(oth):
            ctx.fail("a simulation goes on for longer than planned, or after an agent was caught or eaten", visited=visited, others=others)
        for v in visited:
            self.V[v] += reward
            self.N[v] += 1
        return reward

    def check_fit(self, env):
        """Everything a fit reports, against the replay."""
        ctx, cfg = self.ctx, self.cfg
        nm = envmc.name(cfg.get("who", 0))
        alg = env.agents[nm].algorithm
        paths, others = alg.visited_states, alg.other_agent_visited_states
        if len(paths) != cfg["n_iter"]:
            ctx.fail("number of simulations", got=len(paths))
        for i in range(cfg["n_iter"]):
            self.iteration(paths[i], others[i] if self.inter else [])
        if np.any(np.abs(np.asarray(alg.values) - self.V) > 1e-6 * (1 + np.abs(self.V))):
            ctx.fail("accumulated values do not match the simulations", paths=paths, others=others, got=alg.values, want=self.V)
        if hasattr(alg, "N") and np.any(np.asarray(alg.N) != self.N):
            ctx.fail("visit counts do not match the simulations", paths=paths, got=alg.N, want=self.N)
        q = np.asarray(env.get_agent_q_values(nm))
        want = np.full((self.n, len(self.succ[0])), np.nan)
        for a, t in enumerate(self.succ[self.pos0[0]]):
            if t is not None:
                want[self.pos0[0], a] = self.V[t] / (1 + self.N[t])
        if q.shape != want.shape or not np.array_equal(np.isnan(q), np.isnan(want)) or \
                np.any(np.abs(q - want)[~np.isnan(want)] > 1e-6 * (1 + np.abs(want[~np.isnan(want)]))):
            ctx.fail("action values do not match the simulations", paths=paths, others=others, got=q, want=want)
        return paths, others


def snapshot(env):
    out = [np.array(env.mdp.features).tobytes(), np.array(env.mdp.sas).tobytes(), np.array(env.mdp.walls).tobytes(), env.n_steps]
    for nm, a in env.agents.items():
        out += [int(a.position), tuple(int(x) for x in env.get_agent_position_history(nm)), np.array(a.consumed).tobytes(),
                np.array(a.reward_function).tobytes(), tuple(a.consumes)]
    return out


def fit(env, cfg):
    nm = envmc.name(cfg.get("who", 0))
    if cfg.get("moves"):
        env.fit(nm, n_moves=tuple(tuple(m) for m in cfg["moves"]))
    else:
        env.fit(nm)


def freeze(paths, others):
    return (tuple(tuple(int(x) for x in p) for p in paths), tuple(tuple(tuple(int(x) for x in o) for o in oo) for oo in others))


class Seen(dict):
    exact, truncated, tol = True, False, 1e-9


def explore(cfg, ctx, limit=60000):
    """Every random outcome of one fit."""
    seen = Seen()
    total = [0]

    def once(ch):
        env = build(cfg)
        before = snapshot(env)
        with core.ControlledRandom(ch):
            fit_and_policy(env, cfg, ch)
        ctx.case = {"cfg": cfg, "choices": [c for c, _ in ch.trace]}
        if snapshot(env) != before:
            ctx.fail("planning changed the environment")
        s = Sim(cfg, ctx)
        paths, others = s.check_fit(env)
        k = freeze(paths, others)
        seen[k] = seen.get(k, 0.0) + ch.weight
        total[0] += len(ch.trace)
        seen.exact = seen.exact and ch.exact

    core.explore(once, ctx, limit)
    seen.truncated = ctx.last_truncated
    seen.tol = 1e-9 if seen.exact else 2.02 / core.U_GRID
    ctx.states += len(seen)
    return seen, total[0]


class _Stop(Exception):
    pass


def fit_and_policy(env, cfg, ch):
    """Fits.  Selecting an action afterwards draws too, once per state; those draws are irrelevant here and not explored."""
    nm = envmc.name(cfg.get("who", 0))
    sel = env.agents[nm].action_selector
    sel.rng = np.random.RandomState(0)
    fit(env, cfg)


def first_moves(seen, cfg, ctx, total):
    """Exploration really covers what it should: with random rollouts and expansion every legal first move is tried first."""
    sim = Sim(cfg, ctx)
    opts = {t for t in sim.succ[sim.pos0[0]] if t is not None}
    got = {}
    for (paths, _), p in seen.items():
        if paths and paths[0]:
            got[paths[0][0]] = got.get(paths[0][0], 0.0) + p
    if total == 0 and len(opts) > 1 and got:
        ctx.skip("coverage of random outcomes (random source not under control)")
        return
    if seen.truncated:
        ctx.skip("coverage of random outcomes (too many of them)")
        return
    if sum(sim.moves[0]) and set(got) != opts and cfg["n_iter"]:
        if not (sim.inter and not got):
            ctx.fail("some possible first move is never simulated, whatever the random outcome", got=sorted(got), want=sorted(opts))
    if got and abs(sum(got.values()) - 1) < 1e-9 and max(got.values()) - min(got.values()) > seen.tol:
        ctx.fail("the first move to be simulated is not chosen evenly among the unexplored ones", got=got)
