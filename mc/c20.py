"""C20 plots show every state, feature, wall, agent, trajectory and value where it is"""
import itertools
import math
import numpy as np
from . import model, sut

PROPERTY = "C20"
ASSUMPTIONS = ["plots are rendered and looked at pixel by pixel at the centres of the cells (and along the arrows); colours are compared to within 12/255"]
BOUNDS = {"quick": "3x2, 2x3, 4x1, 1x4, 3x3 square and hex grids: a feature, a second one, a wall, an agent in every single state; every move as an arrow, every pair of moves on 3x2; every pattern of one feature on 2x2; state values in two orders; with and without agents, after moves; default colours, intensities and axes; an agent's values, hidden cells; intensities above one; agents that have been eaten",
          "thorough": "plus 5x4 and 4x5 grids, every pattern of one feature on 3x2"}

SHAPES = [(3, 2), (2, 3), (4, 1), (1, 4), (3, 3)]
LONG = [(9, 2), (2, 9)]


def jobs(tier):
    out = []
    shapes = SHAPES + ([(5, 4), (4, 5)] if tier == "thorough" else [])
    for kind in ("square", "hex"):
        for sh in shapes:
            for what in ("features", "agents", "arrows", "values", "sequence", "defaults"):
                out.append({"kind": kind, "shape": sh, "what": what})
        for sh in LONG:
            for what in ("features", "agents", "arrows", "values"):
                out.append({"kind": kind, "shape": sh, "what": what})
        for part in range(2):
            out.append({"kind": kind, "shape": (2, 2), "what": "patterns", "part": part, "of": 2})
        if tier == "thorough":
            for part in range(8):
                out.append({"kind": kind, "shape": (3, 2), "what": "patterns", "part": part, "of": 8})
        out.append({"kind": kind, "shape": (3, 2), "what": "pairs"})
    return out


def warm():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa: F401
    import logging
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    sut.grid("hex", (2, 2))


def centre(kind, s, shape):
    x, y = s // shape[1], s % shape[1]
    return (float(x), float(y)) if kind == "square" else model.hex_centre(x, y)


class Picture:
    def __init__(self, kind, shape):
        import matplotlib.pyplot as plt
        self.kind, self.shape = kind, shape
        self.fig, self.ax = plt.subplots(figsize=(4, 4), dpi=60)

    def draw(self):
        self.fig.canvas.draw()
        self.img = np.asarray(self.fig.canvas.buffer_rgba())[..., :3].astype(float) / 255
        return self

    def at(self, xy):
        px, py = self.ax.transData.transform(xy)
        r, c = int(self.img.shape[0] - py), int(px)
        if not (0 <= r < self.img.shape[0] and 0 <= c < self.img.shape[1]):
            return None
        return self.img[r, c]

    def state(self, s):
        return self.at(centre(self.kind, s, self.shape))

    def close(self):
        import matplotlib.pyplot as plt
        plt.close("all")


def rgb(c):
    import matplotlib.colors as mc
    return np.array(mc.to_rgb(c))


def over(base, colour, a):
    return base * (1 - a) + rgb(colour) * a


def near(a, b, tol=12 / 255):
    return a is not None and np.max(np.abs(np.asarray(a) - np.asarray(b))) <= tol


COL = ["#ff0000", "#0000ff"]
ALPHA = [0.5, 0.4]


def look(ctx, job, mdp, F, walls, draw, agents=(), msg="", col=COL, alpha=ALPHA, wall="#595959"):
    """Draws and compares every cell with what it should look like."""
    shape = tuple(job["shape"])
    n = shape[0] * shape[1]
    p = Picture(job["kind"], shape)
    try:
        ax = draw(p.ax)
        if ax is not None and ax is not p.ax:
            # drawn in a figure of its own
            p.ax, p.fig = ax, ax.figure
        p.draw()
        ctx.states += 1
        ctx.traces += 1
        for s in range(n):
            ctx.transitions += 1
            want = np.ones(3)
            for i, f in enumerate(F):
                want = over(want, col[i], alpha[i] * min(1, max(0, f[s])))
            if walls[s]:
                want = rgb(wall)
            for pos, c in agents:
                if pos == s:
                    want = rgb(c)
            got = p.state(s)
            if not near(got, want):
                ctx.fail("a state does not look like what is in it" + msg, state=s, got=got, want=want, features=F, walls=walls, agents=agents)
    finally:
        p.close()


def run(job, ctx):
    import matplotlib
    matplotlib.use("Agg")
    kind, shape = job["kind"], tuple(job["shape"])
    n = shape[0] * shape[1]
    what = job["what"]

    def mk(F, walls):
        return sut.grid(kind, shape, F, walls=walls)

    def draw_mdp(mdp):
        return lambda ax: mdp.plot(colours=COL[:len(mdp.features)], alphas=ALPHA[:len(mdp.features)], ax=ax)

    if what == "features":
        for s in range(n):
            for v in (1, 0.5, 3):
                for t in ((s + 1) % n, s, (s + 2) % n):
                    F = [[v if i == s else 0 for i in range(n)], [1 if i == t else 0 for i in range(n)]]
                    for wall in ([None] if v != 1 else [None, (t + 1) % n]):
                        walls = [1 if i == wall else 0 for i in range(n)]
                        ctx.case = {"job": job, "features": F, "walls": walls}
                        mdp = mk(F, walls)
                        look(ctx, job, mdp, F, walls, draw_mdp(mdp))
    elif what == "patterns":
        for k, m in enumerate(model.masks(n)):
            if k % job["of"] == job["part"]:
                for wl in ([0] * n, [1 - i for i in m]):
                    ctx.case = {"job": job, "pattern": m, "walls": wl}
                    mdp = mk([list(m)], wl)
                    look(ctx, job, mdp, [list(m)], wl, draw_mdp(mdp))
    elif what == "agents":
        F = [[1 if i == 0 else 0 for i in range(n)], [0.5 if i == n - 1 else 0 for i in range(n)]]
        for a in range(n):
            for b in sorted({0, n - 1, (a + 1) % n} - {a}):
                for moved in (False, True):
                    mdp = mk(F, None)
                    env = sut.Environment(mdp, {sut.Agent("one"): (a if not moved else b, [0.0] * 4, []), sut.Agent("two"): (b if not moved else a, [0.0] * 4, [])})
                    if moved:
                        env.set_agent_position("one", a)
                        env.set_agent_position("two", b)
                    ctx.case = {"job": job, "agents": [a, b], "moved": moved}
                    before = np.array(env.mdp.features).tobytes()
                    look(ctx, job, mdp, F, [0] * n, lambda ax: env.plot(colours=COL, alphas=ALPHA, agent_markers={"one": "s"}, agent_colours={"one": "#00ff00", "two": "#ff00ff"},
                                                                           agent_plotting_kwargs={"s": 60}, ax=ax), agents=[(a, "#00ff00"), (b, "#ff00ff")], msg=" (environment)")
                    if np.array(env.mdp.features).tobytes() != before:
                        ctx.fail("plotting changes the environment")
        # agents that were eaten, after the one that ate them has moved on, and one that comes after them
        stay = len(model.lattice(kind, shape[0], shape[1], True)[0]) - 1
        for a in range(n):
            b, c = (a + 1) % n, (a + 2) % n
            mdp = sut.grid(kind, shape, F, self_transitions=True)
            script = {"two": stay}
            env = sut.Environment(mdp, {sut.Agent("one"): (a, [0.0] * 5, []), sut.Agent("two", algorithm=sut.Scripted, algorithm_kwargs={"script": script}): (a, [0.0] * 5, [2]),
                                        sut.Agent("three"): (c, [0.0] * 5, [])})
            env.fit("two")
            env.step("two")
            env.set_agent_position("two", b)
            ctx.case = {"job": job, "eaten": a, "agents": [a, b, c]}
            look(ctx, job, mdp, F, [0] * n, lambda ax: env.plot(colours=COL, alphas=ALPHA, agent_markers={"one": "s", "two": "s", "three": "s"},
                                                                   agent_colours={"one": "#00ff00", "two": "#ff00ff", "three": "#00ffff"}, agent_plotting_kwargs={"s": 60}, ax=ax),
                 agents=[(a, "#00ff00"), (b, "#ff00ff"), (c, "#00ffff")], msg=" (an agent was eaten)")
        # an MDP that has agents attached shows the features only
        mdp = mk(F, None)
        env = sut.Environment(mdp, {sut.Agent("one"): (0, [0.0] * 3, [])})
        look(ctx, job, mdp, F, [0] * n, lambda ax: mdp.plot(colours=COL, alphas=ALPHA, ax=ax), msg=" (MDP with agents)")
    elif what in ("arrows", "pairs"):
        succ = model.lattice(kind, shape[0], shape[1], False)
        moves = [(s, t) for s in range(n) for t in succ[s] if t is not None]
        if what == "arrows":
            trajs = [list(m) for m in moves]
        else:
            trajs = [[s, t, u] for s, t in moves for u in succ[t] if u is not None]
        for k, tr in enumerate(trajs):
            ctx.case = {"job": job, "trajectory": tr}
            mdp = mk([[0] * n], None)
            src = mdp
            if k % 2:
                src = sut.Environment(mdp, {sut.Agent("one"): (0, [0.0] * 2, [])})
            p = Picture(kind, shape)
            try:
                mdp.plot(ax=p.ax)
                src.plot_trajectory(tr, ax=p.ax, colour="#00ff00")
                lo = np.min([centre(kind, s, shape) for s in range(n)], axis=0) - 1.2
                hi = np.max([centre(kind, s, shape) for s in range(n)], axis=0) + 1.2
                p.ax.set_xlim(lo[0], hi[0])
                p.ax.set_ylim(lo[1], hi[1])
                p.draw()
                ctx.states += 1
                ctx.traces += 1
                edges = set()
                for a, b in zip(tr, tr[1:]):
                    A, B = np.array(centre(kind, a, shape)), np.array(centre(kind, b, shape))
                    edges.add(frozenset((a, b)))
                    u = (B - A) / np.linalg.norm(B - A)
                    w = np.array([-u[1], u[0]])
                    if not any(near(p.at(A + 0.3 * (B - A) + e * w), rgb("#00ff00"), 0.45) for e in (0, 0.01, -0.01, 0.02, -0.02, 0.03, -0.03)):
                        ctx.fail("no arrow between two consecutive states", move=[a, b], got=p.at(A + 0.3 * (B - A)))
                    if not near(p.at(B + 0.1 * u + 0.05 * w), rgb("#00ff00"), 0.3):
                        ctx.fail("no arrow head at the state moved to", move=[a, b])
                    heads = [frozenset(e) for e in [(a, b)]]
                    if len(tr) == 2 and near(p.at(A - 0.15 * u), rgb("#00ff00"), 0.3):
                        ctx.fail("arrow head at the state moved from", move=[a, b])
                for a, b in moves:
                    ctx.transitions += 1
                    if frozenset((a, b)) not in edges and len({a, b} & set(tr)) < 2:
                        A, B = np.array(centre(kind, a, shape)), np.array(centre(kind, b, shape))
                        # away from arrow heads, which extend beyond the state moved to
                        if min(np.linalg.norm((A + B) / 2 - np.array(centre(kind, t, shape))) for t in tr[1:]) < 0.6:
                            continue
                        if near(p.at(A + 0.3 * (B - A)), rgb("#00ff00"), 0.2):
                            ctx.fail("an arrow between states that were not visited", move=[a, b], trajectory=tr)
            finally:
                p.close()
    elif what == "defaults":
        # colours and intensities that are not given, axes that are not given, another wall colour, other agents' colours
        tab = ["#1f77b4", "#ff7f0e", "#2ca02c"]
        for s in range(n):
            F = [[1 if i == (s + k) % n else 0.5 if i == (s + 2 * k + 1) % n else 0 for i in range(n)] for k in range(3)]
            walls = [1 if i == (s + 3) % n and n > 3 else 0 for i in range(n)]
            for own in (False, True):
                ctx.case = {"job": job, "features": F, "walls": walls, "own_axes": own}
                ax = lambda a: {} if own else {"ax": a}  # noqa: E731
                mdp = mk(F, walls)
                look(ctx, job, mdp, F, walls, lambda a: mdp.plot(**ax(a)), col=tab, alpha=[.5] * 3, msg=" (default colours)")
                look(ctx, job, mdp, F, walls, lambda a: mdp.plot(colours=["#00ff00", "#0000ff", "#ff0000"], wall_colour="#123456", **ax(a)), col=["#00ff00", "#0000ff", "#ff0000"],
                     alpha=[.5] * 3, wall="#123456", msg=" (default intensities)")
                look(ctx, job, mdp, F, walls, lambda a: mdp.plot(alphas=[.2, 1, .6], **ax(a)), col=tab, alpha=[.2, 1, .6], msg=" (default colours)")
            mdp = mk(F, None)
            env = sut.Environment(mdp, {sut.Agent("one"): (s, [0.0] * 5, []), sut.Agent("two"): ((s + 1) % n, [0.0] * 5, [])})
            ctx.case = {"job": job, "features": F, "agent": s}
            look(ctx, job, mdp, F, [0] * n, lambda a: env.plot(agent_markers={"two": "s"}, agent_colours={"two": "#00ff00"}, mdp_plotting_kwargs={"wall_colour": "#ff0000"},
                                                               agent_plotting_kwargs={"s": 60}, ax=a),
                 col=tab, alpha=[.5] * 3, agents=[(s, "black"), ((s + 1) % n, "#00ff00")], msg=" (environment, default colours)")
    elif what == "sequence":
        succ = model.lattice(kind, shape[0], shape[1], False)
        walk = [0]
        while len(walk) < 2 * n and any(t is not None for t in succ[walk[-1]]):
            opts = [t for t in succ[walk[-1]] if t is not None]
            walk.append(opts[len(walk) % len(opts)])
        for L in range(1, len(walk) + 1):
            for tr in (walk[:L], walk[:L][::-1]):
                ctx.case = {"job": job, "trajectory": tr}
                mdp = mk([[0] * n], None)
                p = Picture(kind, shape)
                try:
                    mdp.plot(ax=p.ax)
                    old = list(p.ax.texts)
                    (mdp if L % 2 else sut.Environment(mdp, {sut.Agent("one"): (0, [0.0] * 2, [])})).plot_sequence(tr, ax=p.ax)
                    ctx.states += 1
                    ctx.traces += 1
                    texts = [t for t in p.ax.texts if t not in old]
                    if not texts:
                        ctx.skip("numbers of a sequence (not drawn as text)")
                        continue
                    got = []
                    for t in texts:
                        x, y = t.get_position()
                        d = [np.hypot(x - centre(kind, s, shape)[0], y - centre(kind, s, shape)[1]) for s in range(n)]
                        got.append((t.get_text(), int(np.argmin(d))))
                    ctx.transitions += len(tr)
                    if sorted(got) != sorted((str(i + 1), s) for i, s in enumerate(tr)):
                        ctx.fail("numbers of a sequence are not at the states visited", got=got, want=tr)
                finally:
                    p.close()
    elif what == "values":
        import matplotlib.pyplot as plt
        cases = [list(range(n)), list(range(n))[::-1], [(3 * i + 1) % 7 * 0.5 - 1 for i in range(n)]] + [[5.0 if i == s else -1.0 for i in range(n)] for s in range(n)]
        for vals in cases:
            for cmap in ("viridis", "gray"):
                if max(vals) == min(vals):
                    continue
                mdp = mk([[0] * n], None)
                ctx.case = {"job": job, "values": vals, "cmap": cmap}
                p = Picture(kind, shape)
                try:
                    v = np.array(vals, dtype=float)
                    mdp.plot_state_values(v, cmap=cmap, ax=p.ax)
                    p.draw()
                    ctx.states += 1
                    ctx.traces += 1
                    if v.tolist() != [float(i) for i in vals]:
                        ctx.fail("plotting changes the values")
                    cm = plt.get_cmap(cmap)
                    for s in range(n):
                        ctx.transitions += 1
                        want = np.array(cm((vals[s] - min(vals)) / (max(vals) - min(vals))))[:3]
                        if not near(p.state(s), want, 16 / 255):
                            ctx.fail("the value shown in a state is not its own", state=s, got=p.state(s), want=want)
                finally:
                    p.close()
        # the values of one agent among several; cells that are hidden
        from maMDP.algorithms.dynamic_programming import ValueIteration
        for goal in range(n):
            F = [[1 if i == goal else 0 for i in range(n)], [1 if i == (goal + 2) % n else 0 for i in range(n)]]
            mdp = mk(F, None)
            env = sut.Environment(mdp, {sut.Agent("one", algorithm=ValueIteration): (0, [1.0, 0, 0, 0], []), sut.Agent("two", algorithm=ValueIteration): (n - 1, [-.1, 1.0, 0, 0], [])})
            env.fit("one")
            env.fit("two")
            for who in ("one", "two"):
                hidden = [] if kind == "square" or who == "one" else [((goal + 1) % n // shape[1], (goal + 1) % n % shape[1])]
                ctx.case = {"job": job, "goal": goal, "agent": who, "hidden": hidden}
                p = Picture(kind, shape)
                try:
                    env.plot_state_values(who, ax=p.ax, **({"hide_idx": hidden} if hidden else {}))
                    p.draw()
                    ctx.states += 1
                    ctx.traces += 1
                    v = np.array(env.agents[who].algorithm.values, dtype=float)
                    cm = plt.get_cmap("viridis")
                    for s in range(n):
                        ctx.transitions += 1
                        want = np.array(cm((v[s] - v.min()) / (v.max() - v.min())))[:3]
                        if hidden and s == (goal + 1) % n:
                            got = p.state(s)
                            if got is not None and not near(got, np.ones(3), 16 / 255):
                                ctx.fail("a hidden cell is shown", state=s, got=got)
                        elif not near(p.state(s), want, 16 / 255):
                            ctx.fail("the value of an agent shown in a state is not its own", state=s, got=p.state(s), want=want)
                finally:
                    p.close()
