"""C23 objects given a seed make the same choices whatever else draws random numbers, and draw from nothing else"""
import itertools
import numpy as np
from . import core, sut

PROPERTY = "C23"
ASSUMPTIONS = ["choices are compared between executions of the same tree, not with fixed values",
               "planners that simulate have no seed of their own and are not covered"]
BOUNDS = {"quick": "4 seeded objects, every interleaving of 5 of their draws and of draws from or reseeding of the global generator; 2 seeds; stepping histories of 5 moves",
          "thorough": "interleavings of 7 draws; 8 seeds; histories of 7 moves"}

TIES = [np.zeros((5, 4)), np.array([[1.0, 1.0, 0.0], [2.0, 0.0, 2.0], [1.0, 1.0, 1.0]]), np.array([[0.1, 0.2, 0.3, 0.4]] * 4), np.array([[1.0, 1.0, 1.0]])]


def spread():
    """A state space in which every action leads anywhere."""
    sas = np.full((4, 2, 4), 0.25)
    sas[1, 1] = [0.5, 0.5, 0, 0]
    return sas


def make(kind, seed):
    if kind == "max":
        s = sut.MaxActionSelector(seed=seed)
        return lambda k: tuple(int(i) for i in s.get_pi(TIES[(0, 1, 3)[k % 3]]))
    if kind == "softmax":
        s = sut.SoftmaxActionSelector(temperature=0.7, seed=seed)
        return lambda k: tuple(int(i) for i in s.get_pi(TIES[k % 4]))
    if kind == "mdp":
        m = sut.MDP(features=np.ones((1, 4)), sas=spread(), seed=seed)
        return lambda k: tuple(int(m.get_next_state(s, (k + s) % 2)) for s in range(4))
    # an agent acting in a seeded MDP with a seeded selector
    m = sut.MDP(features=np.ones((1, 4)), sas=spread(), seed=seed)
    ag = sut.Agent("a", action_selector=sut.MaxActionSelector if kind == "agent_max" else sut.SoftmaxActionSelector, action_kwargs={"seed": seed + 1})
    env = sut.Environment(m, {ag: (0, [1.0, 0.0], [])})
    return lambda k: (env.fit("a"), int(env.step("a")))[1]


KINDS = ["max", "softmax", "mdp", "agent_max", "agent_softmax"]


def jobs(tier):
    seeds = [0, 12345] if tier == "quick" else [0, 1, 2, 3, 7, 99, 12345, 2 ** 31]
    D = 5 if tier == "quick" else 7
    return [{"kinds": [a, b], "seed": s, "depth": D} for a, b in itertools.combinations_with_replacement(KINDS, 2) for s in seeds] + \
           [{"differs": k} for k in KINDS] + \
           [{"shared": k, "seed": s, "depth": D + 2} for k in ("max", "softmax") for s in seeds]


def warm():
    make("agent_max", 1)(0)


def run(job, ctx):
    ctx.case = job
    if "differs" in job:
        # a seed matters: not all seeds give the same choices
        D = 6
        seen = set()
        for seed in range(12):
            draw = make(job["differs"], seed)
            seen.add(tuple(draw(k) for k in range(D)))
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += D
        if len(seen) < 2:
            ctx.fail("twelve different seeds all give the same choices")
        return
    if "shared" in job:
        return shared(job, ctx)
    ka, kb = job["kinds"]
    D = job["depth"]
    alone = []
    for kind, seed in ((ka, job["seed"]), (kb, job["seed"] + 3)):
        np.random.seed(5)
        d = make(kind, seed)
        alone.append([d(k) for k in range(D)])
    # 0 / 1: the first / second object draws; 2: someone draws from the global generator; 3: someone reseeds it
    for seq in itertools.product(range(4), repeat=D):
        np.random.seed(77)
        objs = [make(ka, job["seed"]), make(kb, job["seed"] + 3)]
        n = [0, 0]
        ctx.traces += 1
        ctx.states += 1
        for o in seq:
            ctx.transitions += 1
            if o == 2:
                np.random.rand()
            elif o == 3:
                np.random.seed(n[0] + 10 * n[1])
            else:
                before = np.random.get_state()[1:3]
                got = objs[o](n[o])
                if got != alone[o][n[o]]:
                    ctx.case = dict(job, sequence=seq)
                    ctx.fail("a seeded object's choices depend on other random numbers being drawn", object=[ka, kb][o], draw=n[o], got=got, want=alone[o][n[o]])
                after = np.random.get_state()[1:3]
                if not (np.array_equal(before[0], after[0]) and before[1] == after[1]):
                    ctx.case = dict(job, sequence=seq)
                    ctx.fail("a seeded object draws from the global generator", object=[ka, kb][o])
                n[o] += 1


def shared(job, ctx):
    """One seeded agent living in two worlds: in each it makes the choices it would make if there were only that one."""
    sel = sut.MaxActionSelector if job["shared"] == "max" else sut.SoftmaxActionSelector
    D = job["depth"]

    def agent():
        return sut.Agent("a", action_selector=sel, action_kwargs={"seed": job["seed"]})

    def world(ag, k):
        m = sut.MDP(features=np.ones((1, 4)), sas=spread(), seed=job["seed"] + 5 * k)
        return sut.Environment(m, {ag: (k, [1.0, 0.0], [])})

    def draw(env):
        env.fit("a")
        return int(env.step("a")), tuple(int(i) for i in env.get_agent_pi("a"))

    alone = []
    for k in (0, 1):
        e = world(agent(), k)
        alone.append([draw(e) for _ in range(D)])
    for late in (False, True):
        for seq in itertools.product((0, 1), repeat=D):
            ag = agent()
            envs = [world(ag, 0), None if late else world(ag, 1)]
            n = [0, 0]
            ctx.traces += 1
            ctx.states += 1
            for o in seq:
                ctx.transitions += 1
                if envs[o] is None:
                    envs[o] = world(ag, 1)
                got = draw(envs[o])
                if got != alone[o][n[o]]:
                    ctx.case = dict(job, sequence=seq, late=late)
                    ctx.fail("a seeded agent's choices in one world depend on what it does in another", world=o, draw=n[o], got=got, want=alone[o][n[o]])
                n[o] += 1
