"""C22 invalid requests are refused and change nothing"""
import itertools
import numpy as np
from maMDP.algorithms.base import Algorithm
from . import envmc, model, sut
from .c04 import split_bfs

PROPERTY = "C22"
ASSUMPTIONS = ["any ValueError, TypeError, AttributeError, AssertionError, KeyError, IndexError or NotImplementedError counts as a refusal"]
BOUNDS = {"quick": "about 50 invalid requests in every reachable state of 24 environments within 1-3 operations; 24 invalid constructions x 3 situations of the MDP; 55 invalid MDPs, agents, learner inputs; grid indices and walls outside the grid; interactive stepping with unknown agents or plans that do not fit",
          "thorough": "within 1-5 operations"}

REFUSAL = (ValueError, TypeError, AttributeError, AssertionError, KeyError, IndexError, NotImplementedError)


def jobs(tier):
    out = []
    for c in envmc.configs(tier):
        c = dict(c, depth=max(1, c["depth"] - 2))
        out += [dict(c, first=k) for k in range(len(envmc.EnvModel(c).ops()))]
    out += [{"ctor": k, "used": u} for k in ("square", "hex") for u in (0, 1, 2)]
    out += [{"misc": True}, {"unfit": "square"}, {"unfit": "hex"}, {"unknown": True}]
    return out


def warm():
    sut.grid("hex", (2, 2))


def refused(ctx, what, fn):
    ctx.transitions += 1
    try:
        fn()
    except REFUSAL:
        return
    ctx.fail("%s was accepted" % what, request=what)


def bad_arrays(n):
    return [("walls of the wrong length", lambda m: setattr(m, "walls", np.zeros(n + 1))),
            ("walls that are too short", lambda m: setattr(m, "walls", np.ones(n - 1))),
            ("walls with two dimensions", lambda m: setattr(m, "walls", np.zeros((n, 1)))),
            ("walls with a value of 2", lambda m: setattr(m, "walls", np.array([2] + [0] * (n - 1)))),
            ("walls with a value of -1", lambda m: setattr(m, "walls", np.array([0] * (n - 1) + [-1]))),
            ("walls with a fractional value", lambda m: setattr(m, "walls", np.array([0] * (n - 1) + [0.5]))),
            ("features for the wrong number of states", lambda m: setattr(m, "features", np.ones((1, n + 1)))),
            ("features that are a list", lambda m: setattr(m, "features", [[0.0] * n])),
            ("transitions that are a list", lambda m: setattr(m, "sas", m.sas.tolist())),
            ("transitions with two dimensions", lambda m: setattr(m, "sas", np.ones((n, n)))),
            ("transitions to the wrong number of states", lambda m: setattr(m, "sas", np.zeros((n, 2, n + 1)))),
            ("a negative probability", lambda m: setattr(m, "sas", np.where(np.arange(m.sas.size).reshape(m.sas.shape) == 0, -0.25, m.sas))),
            ("a probability above 1", lambda m: setattr(m, "sas", np.where(np.arange(m.sas.size).reshape(m.sas.shape) == m.sas.size - 1, 1.5, m.sas))),
            ]


def static(env):
    m = env.mdp
    return (m.sas.tobytes(), m.sas.shape, np.asarray(m.walls, dtype=float).tobytes(), m.adjacency.tobytes(), m.n_features, m.n_states, m.n_actions, m.n_agents,
            list(m.feature_names))


def run(job, ctx):
    ctx.case = job
    if "ctor" in job:
        return ctor(job, ctx)
    if "misc" in job:
        return misc(ctx)
    if "unfit" in job:
        return unfit(job, ctx)
    if "unknown" in job:
        return unknown_names(ctx)

    def visit(path, op):
        m = envmc.EnvModel(job)
        for o in path + [op]:
            m.apply(o)
        env, script = envmc.replay(ctx, job, path + [op])
        path = path + [op]
        before = static(env)
        n = env.mdp.n_states
        reqs = []
        for i in range(m.na):
            nm = envmc.name(i)
            for p in (-1, -n, n, n + 5, 0.5, None, "0"):
                reqs.append(("setting position %r of agent %d" % (p, i), lambda nm=nm, p=p: env.set_agent_position(nm, p)))
            for a in range(env.mdp.n_actions):
                if not m.can(i, a):
                    def imp(nm=nm, a=a):
                        script[nm] = a
                        env.fit(nm)
                        env.step(nm)
                    reqs.append(("an impossible action %d of agent %d" % (a, i), imp))
                    reqs.append(("the next state of an impossible action", lambda p=m.pos[i], a=a: env.mdp.get_next_state(p, a)))
            reqs.append(("the next state of action -1", lambda p=m.pos[i]: env.mdp.get_next_state(p, -1)))
            reqs.append(("a plan for too many agents", lambda nm=nm: env.step_multi(nm, n_steps=1, n_moves_plan=[1] * (m.na + 1), refit=True)))
            if m.na > 1:
                for rest in (0, -1):
                    reqs.append(("a plan of %d moves for another agent" % rest, lambda nm=nm, rest=rest: env.step_multi(nm, n_steps=1, n_moves_plan=[2] * (m.na - 1) + [rest], refit=True)))
            reqs.append(("a plan of no moves", lambda nm=nm: env.step_multi(nm, n_steps=1, n_moves_plan=[0] + [1] * (m.na - 1), refit=True)))
        for bad in ("nobody", "", "agent_%d" % m.na):
            for what, fn in (("fit", lambda b=bad: env.fit(b)), ("step", lambda b=bad: env.step(b)), ("step_multi", lambda b=bad: env.step_multi(b, n_steps=1)),
                             ("step_proba", lambda b=bad: env.step_proba(b)), ("set position", lambda b=bad: env.set_agent_position(b, 0)),
                             ("interactive", lambda b=bad: env.step_multi_interactive([envmc.name(0), b], refit=True)),
                             ("interactive, with numbers of moves", lambda b=bad: env.step_multi_interactive([envmc.name(0), b], n_moves=[[1], [1]], refit=True))):
                reqs.append(("%s of unknown agent %r" % (what, bad), fn))
        if m.na > 1:
            for what, moves in (("numbers of moves for one agent only", [[1]]), ("numbers of moves for one turn only for the second agent", [[1, 1], [1]]),
                                ("numbers of moves of which one is empty", [[1], []])):
                reqs.append((what, lambda moves=moves: env.step_multi_interactive([envmc.name(0), envmc.name(1)], n_moves=moves, refit=True, stop_on_caught=False)))
        reqs += [(w, lambda f=f: f(env.mdp)) for w, f in bad_arrays(n)]
        w, h = job["shape"]
        reqs += [("a wall outside the grid", lambda: env.mdp.add_wall_xy((w,), (0,))), ("a wall at a number", lambda: env.mdp.add_wall_xy(0, (0,))),
                 ("a wall partly outside the grid", lambda: env.mdp.add_wall_xy((0,), (0, h + 1)))]
        # every request on its own, in the same environment: a refused one changes nothing, so the next starts from the same state
        for what, fn in reqs:
            ctx.case = {"path": path, "request": what}
            refused(ctx, what, fn)
            envmc.observe(ctx, env, m, path + [what])
            if static(env) != before:
                ctx.fail("a refused request changed the environment", path=path, request=what)
        ops = m.ops()
        for o in (ops[ctx.traces % len(ops)], ops[(7 * ctx.traces + 3) % len(ops)]):
            m2 = envmc.EnvModel(job)
            for x in path + [o]:
                m2.apply(x)
            if o[0] == "step" and not m.can(o[1], o[2]):
                continue
            ctx.case = {"path": path + ["refused requests", o]}
            envmc.do(env, script, o)
            envmc.observe(ctx, env, m2, path + ["refused requests", o])
            break
        return m

    split_bfs(job, ctx, visit)


def unknown_names(ctx):
    """The read-only requests for agents that are not there, or not fitted."""
    cfg = [c for c in envmc.configs("quick") if len(c["agents"]) == 2][0]
    env, script = envmc.build(cfg)
    for fitted in (False, True):
        if fitted:
            for i in (0, 1):
                env.fit(envmc.name(i))
        for bad in ("nobody", "agent_2", "", None, 0):
            for what in ("get_agent_position_history", "get_agent_q_values", "get_agent_pi", "get_agent_pi_p", "plot_state_values", "fit", "step", "step_proba", "step_multi"):
                ctx.case = {"request": what, "agent": bad, "fitted": fitted}
                ctx.traces += 1
                refused(ctx, "%s of unknown agent %r" % (what, bad), lambda: getattr(env, what)(bad))
                envmc.observe(ctx, env, envmc.EnvModel(cfg), [what])
    ctx.states += 2


class Hole(Algorithm):
    """Knows nothing about some states, as planners that only look at the current state do."""

    def __init__(self, holes=()):
        self.holes = holes
        self.name = "hole"
        super().__init__()

    def _fit(self, mdp, reward_function, position, n_moves):
        q = np.where(mdp.sas.sum(axis=-1) == 0, -np.inf, 1.0)
        q[list(self.holes)] = np.nan
        return np.zeros(mdp.n_states), q


def unfit(job, ctx):
    n = 4
    for start in range(n):
        for prior in itertools.product([None] + list(range(n)), repeat=2):
            mdp = sut.grid(job["unfit"], (2, 2), [[1, 0, 1, 1]], self_transitions=True)
            env = sut.Environment(mdp, {sut.Agent("a"): (start, [1.0, 0.0, 0.0], [0]), sut.Agent("b"): (0, [0.0, 0.0, 1.0], [])})
            pos = start
            for p in prior:
                if p is not None:
                    env.set_agent_position("a", p)
                    pos = p
            F = env.mdp.features.copy()
            ctx.traces += 1
            ctx.states += 1
            for what, fn in (("step", lambda: env.step("a")), ("step_multi", lambda: env.step_multi("a", n_steps=2)),
                             ("step_proba", lambda: env.step_proba("a")), ("policy", lambda: env.get_agent_pi("a")),
                             ("action probabilities", lambda: env.get_agent_pi_p("a")), ("state values", lambda: env.plot_state_values("a")),
                             ("interactive stepping", lambda: env.step_multi_interactive(["a", "b"]))):
                ctx.case = {"start": start, "positions set": prior, "request": what}
                refused(ctx, what + " of an agent that has not been fitted", fn)
                if int(env.agents["a"].position) != pos or list(env.agents["a"].position_history) != [start] or env.n_steps != 0 \
                        or not np.array_equal(F, env.mdp.features) or np.any(env.agents["a"].consumed):
                    ctx.fail("a refused request changed the environment", request=what)
    # one of two agents has been fitted: nobody moves
    for start, fit in itertools.product(range(n), ("a", "b")):
        for names in (["a", "b"], ["b", "a"], None):
            for kw in ({}, {"n_moves": [[2], [1]]}, {"n_turns": 2}):
                mdp = sut.grid(job["unfit"], (2, 2), [[1, 0, 1, 1]], self_transitions=True)
                env = sut.Environment(mdp, {sut.Agent("a"): (start, [1.0, 0.0, 0.0], [0]), sut.Agent("b"): (0, [1.0, 0.0, 1.0], [0])})
                env.fit(fit)
                F = env.mdp.features.copy()
                ctx.traces += 1
                ctx.states += 1
                ctx.case = {"start": start, "fitted": fit, "agents": names, "arguments": kw}
                refused(ctx, "interactive stepping when one of the agents has not been fitted", lambda: env.step_multi_interactive(names, **kw))
                if [int(env.agents[i].position) for i in "ab"] != [start, 0] or [len(env.agents[i].position_history) for i in "ab"] != [1, 1] or env.n_steps != 0 \
                        or not np.array_equal(F, env.mdp.features):
                    ctx.fail("a refused run changed the environment")
    # values known for some states only
    for k in range(1, n):
        for holes in itertools.combinations(range(n), k):
            for start in range(n):
                mdp = sut.grid(job["unfit"], (2, 2), [[1, 1, 1, 1]], self_transitions=True)
                env = sut.Environment(mdp, {sut.Agent("a", algorithm=Hole, algorithm_kwargs={"holes": holes}): (start, [1.0, 0.0], [0])})
                env.fit("a")
                F = env.mdp.features.copy()
                ctx.case = {"states without values": holes, "position": start}
                ctx.traces += 1
                if start in holes:
                    refused(ctx, "a step from a state without known values", lambda: env.step("a"))
                    if int(env.agents["a"].position) != start or list(env.agents["a"].position_history) != [start] or env.n_steps != 0 \
                            or not np.array_equal(F, env.mdp.features):
                        ctx.fail("a refused step changed the environment")
                else:
                    env.step("a")
                    if env.n_steps != 1:
                        ctx.fail("a step from a state with known values")


def ctor(job, ctx):
    """Environments that cannot be made; the MDP may be fresh or in use by another environment."""
    n, nf = 4, 2
    A = sut.Agent
    ok = lambda k: [1.0] * (nf + k)
    feats = [[1, 0, 2, 1], [0, 1, 0, 3]]
    bads = [
        ("a reward function that is too short", lambda: {A("x"): (0, [1.0] * nf, [])}),
        ("a reward function that is too long", lambda: {A("x"): (0, [1.0] * (nf + 2), [])}),
        ("a reward function for one agent when there are two", lambda: {A("x"): (0, ok(1), []), A("y"): (1, ok(1), [])}),
        ("a second agent's reward function that is too short", lambda: {A("x"): (0, ok(2), []), A("y"): (1, ok(1), [])}),
        ("a third agent's reward function that is too long", lambda: {A("x"): (0, ok(3), []), A("y"): (1, ok(3), []), A("z"): (1, ok(4), [])}),
        ("a reward function of two dimensions", lambda: {A("x"): (0, np.ones((1, nf + 1)), [])}),
        ("a reward function that is a number", lambda: {A("x"): (0, 1.0, [])}),
        ("a reward function that is a dictionary", lambda: {A("x"): (0, {0: 1, 1: 1, 2: 1}, [])}),
        ("consuming a feature out of range", lambda: {A("x"): (0, ok(1), [nf + 1])}),
        ("consuming a feature out of range before one that is not", lambda: {A("x"): (0, ok(1), [nf + 1, 0])}),
        ("consuming only a feature far out of range", lambda: {A("x"): (0, ok(1), [nf + 40])}),
        ("a second agent consuming two features out of range and one that is not", lambda: {A("x"): (0, ok(2), [0]), A("y"): (1, ok(2), [nf + 2, nf + 9, 1])}),
        ("a second agent consuming a feature out of range", lambda: {A("x"): (0, ok(2), [0]), A("y"): (1, ok(2), [0, nf + 2])}),
    ]
    for p in (-1, n, n + 3, -n, 1.0, "1", None):
        bads.append(("position %r" % (p,), lambda p=p: {A("x"): (p, ok(1), [])}))
        bads.append(("position %r of the second agent" % (p,), lambda p=p: {A("x"): (0, ok(2), []), A("y"): (p, ok(2), [])}))
    for what, mk in bads:
        mdp = sut.grid(job["ctor"], (2, 2), feats, self_transitions=True)
        old = None
        if job["used"]:
            script = {}
            agents = {sut.Agent("old%d" % i, algorithm=sut.Scripted, algorithm_kwargs={"script": script}): (i, ok(job["used"]), [0]) for i in range(job["used"])}
            old = sut.Environment(mdp, agents)
            script["old0"] = mdp.n_actions - 1
            old.fit("old0")
            old.step("old0")
        before = (mdp.features.copy(), mdp.n_features, mdp.n_agents)
        ctx.case = {"agents": what, "mdp used by": job["used"]}
        ctx.traces += 1
        ctx.states += 1
        refused(ctx, what, lambda: sut.Environment(mdp, mk()))
        if not np.array_equal(before[0], mdp.features) or before[1:] != (mdp.n_features, mdp.n_agents):
            ctx.fail("refusing an environment changed its MDP", request=what, got=mdp.features, want=before[0])
        if old is not None:
            old.step("old0")
            old.set_agent_position("old0", 3)
            old.reset()
            if not np.array_equal(mdp.features[:nf], feats) or not np.array_equal(mdp.features[nf:], np.eye(n)[:job["used"]]):
                ctx.fail("an environment was damaged when another one on its MDP was refused", request=what, got=mdp.features)
        # a valid environment can still be made of it
        env = sut.Environment(mdp, {A("x"): (2, ok(2), [0]), A("y"): (1, ok(2), [])})
        want = np.vstack([mdp.features[:nf], np.eye(n)[[2, 1]]])
        if mdp.n_features != nf + 2 or not np.array_equal(mdp.features, want):
            ctx.fail("an environment made after a refused one has the wrong features", request=what, got=mdp.features)
        env.fit("x")
        env.step("x")


def misc(ctx):
    from maMDP.algorithms import irl
    from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
    from maMDP.algorithms.dynamic_programming import ValueIteration
    from maMDP.algorithms.base import Null
    n = 4
    good = sut.grid("square", (2, 2), [[1, 0, 2, 1]], self_transitions=True)
    sas = good.sas
    f = np.ones((1, n))
    neg = sas.copy(); neg[0, 0, 0] = -0.1
    big = sas.copy(); big[1, 0, 1] = 1.1
    reqs = [
        ("transitions that are a list", lambda: sut.MDP(f, sas.tolist())),
        ("transitions of two dimensions", lambda: sut.MDP(f, sas[0])),
        ("transitions that are not square", lambda: sut.MDP(f, sas[:3])),
        ("a negative probability", lambda: sut.MDP(f, neg)),
        ("a probability above 1", lambda: sut.MDP(f, big)),
        ("features of the wrong number of states", lambda: sut.MDP(np.ones((1, n + 1)), sas)),
        ("features that are a list", lambda: sut.MDP(f.tolist(), sas)),
        ("walls of the wrong length", lambda: sut.MDP(f, sas, walls=np.zeros(n - 1))),
        ("walls that are not 0 or 1", lambda: sut.MDP(f, sas, walls=np.array([0, 3, 0, 0]))),
        ("grid features of the wrong number of states", lambda: sut.GRID["hex"](features=np.ones((1, 5)), shape=(2, 2))),
        ("grid walls of the wrong length", lambda: sut.GRID["square"](features=f, shape=(2, 2), walls=np.zeros(5))),
        ("an agent whose name is a number", lambda: sut.Agent(3)),
        ("algorithm arguments that are a list", lambda: sut.Agent("a", algorithm_kwargs=[0.9])),
        ("selector arguments that are a list", lambda: sut.Agent("a", action_kwargs=[1])),
        ("an unknown algorithm argument", lambda: sut.Agent("a", algorithm_kwargs={"no_such_argument": 1})),
        ("a temperature of zero", lambda: sut.SoftmaxActionSelector(temperature=0)),
        ("a negative temperature", lambda: sut.SoftmaxActionSelector(temperature=-1)),
        ("a learning rate of zero", lambda: irl.MaxCausalEntIRL(learning_rate=0)),
        ("a negative decay", lambda: irl.MaxCausalEntIRL(decay=-1)),
        ("a learning rate below zero", lambda: irl.HyptestIRL(learning_rate=-0.1, normalisation="z-score")),
        ("a negative decay of the hypothesis-testing learner", lambda: irl.HyptestIRL(decay=-0.1, normalisation="z-score")),
        ("a learning rate of zero of the policy learner", lambda: TDGeneralPolicyLearner(learning_rate=0)),
        ("a negative decay of the policy learner", lambda: TDGeneralPolicyLearner(decay=-1)),
    ]
    for kind in ("square", "hex"):
        for st in (False, True):
            g = sut.grid(kind, (3, 2), [[1] * 6], self_transitions=st, walls=[0, 0, 1, 0, 0, 0])
            for xy in ((3, 0), (0, 2), (3, 2), (-1, 0), (0, -1), (6, 0), (0, 3), (2, 2)):
                reqs.append(("the state at %r of a 3x2 grid" % (xy,), lambda g=g, xy=xy: g.idx_to_state(xy)))
            for s in (6, 7, -1, 100):
                reqs.append(("the cell of state %d of 6" % s, lambda g=g, s=s: g.state_to_idx(s)))
    for sel in (sut.MaxActionSelector(), sut.SoftmaxActionSelector()):
        for what, q in (("a list", [[1.0, 2.0]]), ("of one dimension", np.ones(3)), ("of three dimensions", np.ones((2, 2, 2))), ("unknown everywhere", np.full((2, 2), np.nan))):
            reqs.append(("action values that are " + what, lambda sel=sel, q=q: sel.get_pi(q)))
            reqs.append(("action values that are %s (probabilities)" % what, lambda sel=sel, q=q: sel.get_pi_p(q)))
    for rf in ([1.0], np.ones(2), np.ones((1, 1)), "1"):
        reqs.append(("planning with reward function %r" % (rf,), lambda rf=rf: ValueIteration().fit(good, rf, 0)))
    for rf in (np.ones(2), np.ones(0), np.ones((1, 1))):
        reqs.append(("null planning with reward function %r" % (rf,), lambda rf=rf: Null().fit(good, rf, 0)))
    for d in (0.0, 1.0, -0.5, 1.5):
        reqs.append(("a discount of %r" % d, lambda d=d: ValueIteration(discount=d).fit(good, np.ones(1), 0)))
    # actions that are not possible in an MDP that is not deterministic
    st = np.zeros((3, 2, 3))
    st[0, 0], st[0, 1], st[1, 1] = [.5, .25, .25], [0, 0, 1], [.5, 0, .5]
    for seed in (None, 4):
        sm = sut.MDP(np.ones((1, 3)), st, seed=seed)
        for s, a in ((1, 0), (2, 0), (2, 1)):
            reqs.append(("action %d in state %d of a stochastic MDP, where it is not possible" % (a, s), lambda s=s, a=a, sm=sm: sm.get_next_state(s, a)))
    for s1, s2 in itertools.product(range(n), repeat=2):
        plain = sut.grid("square", (2, 2), [[1, 0, 2, 1]])
        if not plain.is_adjacent(s1, s2):
            reqs.append(("the action from %d to %d, which are not adjacent" % (s1, s2), lambda s1=s1, s2=s2, plain=plain: plain._state_pair_to_action(s1, s2)))
    for what, fn in reqs:
        ctx.case = {"request": what}
        ctx.traces += 1
        refused(ctx, what, fn)
    # learners: as many MDPs as trajectories, none of them empty; and the learner is as good as new afterwards
    mk = {"matching": lambda: irl.MFFeatureMatching(), "hypotheses": lambda: irl.HyptestIRL(normalisation="z-score", VI_max_iter=50),
          "policy": lambda: TDGeneralPolicyLearner()}
    two = lambda: sut.grid("square", (2, 2), [[1, 0, 2, 0.5], [0, 1, 1, 0]], self_transitions=True)
    for name, make in mk.items():
        for k, t in itertools.product(range(1, 4), repeat=2):
            if k == t:
                continue
            le = make()
            ctx.case = {"learner": name, "mdps": k, "trajectories": t}
            ctx.traces += 1
            refused(ctx, "%d MDPs for %d trajectories (%s)" % (k, t, name), lambda: le.fit([two() for _ in range(k)], [[0, 1, 3]] * t))
            fresh = make()
            for x in (le, fresh):
                x.fit(two(), [[0, 1, 3], [2, 3]])
            a, b = (np.asarray(x.Q if name == "policy" else x.theta) for x in (le, fresh))
            if not np.allclose(a, b, rtol=0, atol=1e-12):
                ctx.fail("a learner was changed by data it refused", learner=name, got=a, want=b)
    ctx.states += len(reqs)
    bad_plans(ctx)
    bad_walls(ctx)


def bad_walls(ctx):
    """Walls partly outside the grid, in every wall state of a 3x2 grid: refused, and none of them is built."""
    for kind in ("square", "hex"):
        for w in model.masks(6):
            for used in (False, True):
                g = sut.grid(kind, (3, 2), [[1, 0, 2, 0, 1, 1]], walls=w, self_transitions=True)
                if used:
                    sut.Environment(g, {sut.Agent("a"): (0, [1.0, 0.0], [0])})
                look = lambda: (np.asarray(g.walls, dtype=float).tolist(), g.sas.tolist(), g.adjacency.tolist(), g.features.tolist())
                before = look()
                for x, y in (((0, 5), (0,)), ((1,), (0, 4)), ((0, 4), (0, 3)), ((3,), (0,)), ((0,), (2,)), (1, (0,)), ((1,), 0), ((0, 3), "0"), ([1, 6], [1])):
                    ctx.case = {"kind": kind, "walls": w, "x": x, "y": y, "used": used}
                    ctx.traces += 1
                    ctx.states += 1
                    refused(ctx, "a wall at x=%r, y=%r of a 3x2 grid" % (x, y), lambda: g.add_wall_xy(x, y))
                    if look() != before:
                        ctx.fail("a wall that was refused was partly built", got=look()[0], want=before[0])
                    if not np.array_equal(g.sas, model.succ_to_sas(model.with_walls(model.lattice(kind, 3, 2, True), w))):
                        ctx.fail("a refused wall changed the moves")
                g.add_wall_xy((1,), (1,))
                want = list(w)
                want[3] = 1
                if [int(i) for i in g.walls] != want or not np.array_equal(g.sas, model.succ_to_sas(model.with_walls(model.lattice(kind, 3, 2, True), want))):
                    ctx.fail("a wall built after a refused one", got=g.walls, want=want)


def bad_plans(ctx):
    """A plan that fails leaves the agent as it was: not fitted, or with the values and policy it had."""
    from maMDP.algorithms.dynamic_programming import ValueIteration
    from maMDP.algorithms.mcts import MCTS
    from maMDP.algorithms.base import Null

    def vi(env, nm):
        env.agents[nm].algorithm.discount = 1.5
        return lambda: env.fit(nm), lambda: setattr(env.agents[nm].algorithm, "discount", .9)

    def odd(env, nm):
        old = env.agents[nm].reward_function
        env.agents[nm].reward_function = np.ones(7)
        return lambda: env.fit(nm), lambda: setattr(env.agents[nm], "reward_function", old)

    def short(env, nm):
        old = env.agents[nm].reward_function
        env.agents[nm].reward_function = np.ones(2)
        return lambda: env.fit(nm), lambda: setattr(env.agents[nm], "reward_function", old)

    for alg, kw in ((Null, {}), (MCTS, {"n_iter": 3, "n_steps": 2}), (MCTS, {"n_iter": 2, "n_steps": 2, "interactive": True})):
        for breaks in (odd, short):
            mdp = sut.grid("square", (2, 2), [[1, 0, 1, 3]], self_transitions=True)
            env = sut.Environment(mdp, {sut.Agent("a", algorithm=alg, algorithm_kwargs=dict(kw)): (0, [1.0, 0.0, 0.0], [0]), sut.Agent("b"): (1, [0.0, 0.0, 1.0], [])})
            ctx.case = {"algorithm": alg.__name__, "arguments": kw, "failing": breaks.__name__}
            ctx.traces += 1
            ctx.states += 1
            F = env.mdp.features.tolist()
            fail, repair = breaks(env, "a")
            refused(ctx, "a plan with a reward function that does not fit the features", fail)
            repair()
            if env.mdp.features.tolist() != F or int(env.agents["a"].position) != 0 or env.agents["a"].algorithm.fit_complete:
                ctx.fail("a plan that failed changed the agent or the environment")
    for kind in ("square", "hex"):
        for breaks in (vi, odd):
            for history in itertools.product(("none", "fit", "step", "set", "reset"), repeat=2):
                mdp = sut.grid(kind, (2, 2), [[1, 0, 1, 3]], self_transitions=True)
                env = sut.Environment(mdp, {sut.Agent("a", algorithm=ValueIteration): (0, [1.0, 0.0, 0.0], [0]), sut.Agent("b"): (1, [0.0, 0.0, 1.0], [])})
                fitted = False
                for h in history:
                    if h == "fit" or h == "step":
                        env.fit("a")
                        fitted = True
                        if h == "step":
                            env.step("a")
                    elif h == "set":
                        env.set_agent_position("a", 2)
                    elif h == "reset":
                        env.reset()
                ctx.case = {"kind": kind, "history": history, "failing": breaks.__name__}
                ctx.traces += 1
                ctx.states += 1

                def view():
                    a = env.agents["a"]
                    out = [int(a.position), [int(i) for i in a.position_history], env.n_steps, env.mdp.features.tolist(), a.consumed.tolist()]
                    q = env.get_agent_q_values("a")
                    return out + [None if q is None else np.array(q).tolist(), bool(a.algorithm.fit_complete)]

                before = view()
                fail, repair = breaks(env, "a")
                refused(ctx, "a plan that cannot be made", fail)
                repair()
                if view() != before:
                    ctx.fail("a plan that failed changed the agent or the environment", got=view(), want=before)
                if not fitted:
                    refused(ctx, "a step of an agent whose only plan failed", lambda: env.step("a"))
                else:
                    env.step("a")
