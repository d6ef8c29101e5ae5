"""C03 transitions: next states follow the transition function, for every state, action and random outcome"""
import itertools
import numpy as np
from . import core, model, sut

PROPERTY = "C03"
ASSUMPTIONS = ["probabilities are multiples of 1/8, so every random draw of the implementation is enumerated exactly"]
BOUNDS = {"quick": "all deterministic MDPs with 2 states x 2 actions and 3 states x 1 action, all pairs of stochastic rows over quarters with 3 states, walls on/off; outcomes with probabilities down to 1e-6; moves between wall edits; four to seven unequal outcomes; every state and action of grids with up to 300 states; transitions given as integers or booleans",
          "thorough": "plus 3 states x 2 actions deterministic and stochastic rows over eighths with 3 states"}


def rows(n, den):
    """All probability rows over multiples of 1/den, plus the impossible one."""
    out = [[0.0] * n]
    for c in itertools.product(range(den + 1), repeat=n):
        if sum(c) == den:
            out.append([i / den for i in c])
    return out


def jobs(tier):
    out = [{"det": [2, 2], "part": 0, "of": 1}, {"det": [3, 1], "part": 0, "of": 1}, {"det": [4, 1], "part": 0, "of": 1}]
    if tier == "thorough":
        out += [{"det": [3, 2], "part": i, "of": 64} for i in range(64)]
    for den in ([2, 4] if tier == "quick" else [2, 4, 8]):
        for i in range(len(rows(3, den))):
            out.append({"sto": den, "row": i})
    out.append({"big": True})
    out.append({"rare": True})
    out += [{"edits": den} for den in (2, 4)]
    out.append({"many": True})
    out += [{"wide": list(s)} for s in ((1, 300), (300, 1), (17, 16), (4, 3), (10, 1))]
    out.append({"traj": True})
    return out


_control = []


def under_control(ctx):
    """Whether the draws of an MDP can be enumerated, as seen from a plain coin toss."""
    if not _control:
        sas = np.zeros((2, 1, 2))
        sas[:] = .5
        m = sut.MDP(np.zeros((1, 2)), sas)
        _control.append(core.distribution(lambda: int(m.get_next_state(0, 0)), ctx)[1]["choices"] > 0)
    return _control[0]


def check_mdp(ctx, m, sas):
    n, A = sas.shape[:2]
    pair = getattr(m, "_state_pair_to_action", None)
    if pair is None:
        ctx.skip("actions between a pair of states")
    for s in range(n):
        if [int(i) for i in m.state_valid_actions(s)] != [a for a in range(A) if sas[s, a].sum() > 0]:
            ctx.fail("the actions reported as possible are not those of the transition function", sas=sas, state=s, got=m.state_valid_actions(s))
        for t in range(n):
            able = [a for a in range(A) if sas[s, a, t] > 0]
            if bool(m.is_adjacent(s, t)) != bool(able):
                ctx.fail("states are reported as adjacent although no action leads from one to the other, or the reverse", sas=sas, states=[s, t])
            if pair is None:
                continue
            if not able:
                try:
                    r = pair(s, t)
                except (AttributeError, ValueError):
                    continue
                ctx.fail("an action was reported for states that are not adjacent", sas=sas, states=[s, t], got=r)
            r = [int(a) for a in pair(s, t)]
            if len(r) != 1 or abs(sas[s, r[0], t] - sas[s, :, t].max()) > 1e-12:
                ctx.fail("the action reported for a pair of states is not the most likely one", sas=sas, states=[s, t], got=r)
            try:
                every = pair(s, t, return_max=False)
            except TypeError:
                ctx.skip("all actions between a pair of states")
                continue
            if sorted(int(a) for a in every) != able:
                ctx.fail("the actions reported for a pair of states are not those that lead from one to the other", sas=sas, states=[s, t],
                         got=every, want=able)
    for s in range(n):
        for a in range(A):
            ctx.transitions += 1
            before = np.array(m.sas)
            row = sas[s, a]
            if row.sum() == 0:
                try:
                    r = m.get_next_state(s, a)
                except ValueError:
                    continue
                ctx.fail("an impossible action was carried out", sas=sas, state=s, action=a, to=r)
            dist, info = core.distribution(lambda: int(m.get_next_state(s, a)), ctx)
            want = {t: row[t] / row.sum() for t in range(n) if row[t] > 0}
            if set(dist) - set(want):
                ctx.fail("moved to a state that the action cannot lead to", sas=sas, state=s, action=a, got=dist, want=want)
            if len(want) > 1 and info["choices"] == 0 and under_control(ctx):
                ctx.fail("an action with several outcomes always has the same one", sas=sas, state=s, action=a, got=dist, want=want)
            if len(want) > 1 and info["choices"] == 0:
                miss = core.uncontrolled(lambda: int(m.get_next_state(s, a)), want)
                if miss:
                    ctx.fail("an outcome of an action never occurs", sas=sas, state=s, action=a, missing=sorted(miss), want=want)
                ctx.skip("distribution of next states (random source not under control)")
            elif core.off(dist, want, info):
                ctx.fail("next states do not have the given probabilities", sas=sas, state=s, action=a, got=dist, want=want)
            if not np.array_equal(before, m.sas):
                ctx.fail("asking for the next state changed the MDP")


def run(job, ctx):
    ctx.case = job
    if "det" in job:
        n, A = job["det"]
        for k, tgt in enumerate(itertools.product([None] + list(range(n)), repeat=n * A)):
            if k % job["of"] != job["part"]:
                continue
            sas = model.succ_to_sas([[tgt[s * A + a] for a in range(A)] for s in range(n)])
            m = sut.MDP(np.zeros((1, n)), sas.astype((float, int, bool)[k // job["of"] % 3]))
            ctx.states += 1
            check_mdp(ctx, m, sas)
        return
    if "sto" in job:
        n = 3
        R = rows(n, job["sto"])
        r0 = R[job["row"]]
        for r1 in R:
            sas = np.zeros((n, 2, n))
            sas[0, 0] = r0
            sas[0, 1] = r1
            sas[1, 0] = r1
            sas[2, 1] = r0
            for walls in ([0, 0, 0], [0, 0, 1], [0, 1, 0]):
                m = sut.MDP(np.zeros((1, n)), sas.copy(), walls=np.array(walls))
                w = model.sas_with_walls(sas, walls)
                ctx.states += 1
                check_mdp(ctx, m, w)
        return
    if "rare" in job:
        # outcomes that are almost impossible or almost certain
        R = [[0, 0, 1], [.001, 0, .999], [1e-6, 1 - 1e-6, 0], [.004, .004, .992], [.03, .9, .07], [0, .6, .4], [1 / 3, 1 / 3, 1 / 3], [0, 0, 0]]
        for r0, r1 in itertools.product(R, repeat=2):
            sas = np.zeros((3, 2, 3))
            sas[0, 0] = r0
            sas[0, 1] = r1
            sas[1, 0] = r1[::-1]
            sas[2, 1] = r0[::-1]
            for walls in ([0, 0, 0], [0, 0, 1], [1, 0, 0]):
                m = sut.MDP(np.zeros((1, 3)), sas.copy(), walls=np.array(walls))
                ctx.states += 1
                ctx.traces += 1
                check_mdp(ctx, m, model.sas_with_walls(sas, walls))
        return
    if "edits" in job:
        # moves between wall edits: they follow the transitions of the moment
        R = rows(3, job["edits"])[1:]
        for r0, r1 in zip(R, R[1:] + R[:1]):
            sas = np.zeros((3, 2, 3))
            sas[0, 0] = r0
            sas[0, 1] = r1
            sas[1, 0] = r1
            sas[2, 1] = r0
            for w1, w2 in itertools.product(([0, 0, 0], [0, 0, 1], [0, 1, 0], [1, 0, 0]), repeat=2):
                m = sut.MDP(np.zeros((1, 3)), sas.copy())
                check_mdp(ctx, m, sas)
                for w in (w1, w2):
                    m.walls = np.array(w)
                    ctx.states += 1
                    ctx.case = dict(job, rows=[r0, r1], walls=[w1, w2])
                    check_mdp(ctx, m, model.sas_with_walls(sas, w))
                ctx.traces += 1
        return
    if "many" in job:
        # four to seven outcomes of unequal probability
        for k in range(4, 8):
            for shift in range(k):
                p = np.roll(np.arange(1, k + 1) / (k * (k + 1) / 2), shift)
                for n in (k, k + 2):
                    sas = np.zeros((n, 2, n))
                    for s in range(n):
                        sas[s, 0, [(s + j) % n for j in range(k)]] = p
                        sas[s, 1, [(s + j) % n for j in range(k)]] = p[::-1]
                    for walls in ([0] * n, [1] + [0] * (n - 1)):
                        m = sut.MDP(np.zeros((1, n)), sas.copy(), walls=np.array(walls))
                        ctx.states += 1
                        ctx.traces += 1
                        ctx.case = dict(job, outcomes=p, states=n, walls=walls)
                        check_mdp(ctx, m, model.sas_with_walls(sas, walls))
        return
    if "wide" in job:
        # deterministic worlds of many states: every state and action
        w, h = job["wide"]
        for kind in ("square", "hex"):
            if kind == "hex" and w * h > 200 and min(w, h) > 1:
                continue
            for st in (False, True):
                m = sut.grid(kind, (w, h), self_transitions=st)
                succ = model.lattice(kind, w, h, st)
                for s in range(w * h):
                    ctx.states += 1
                    if [int(a) for a in m.state_valid_actions(s)] != [a for a, t in enumerate(succ[s]) if t is not None]:
                        ctx.fail("the actions reported as possible are not those of the transition function", kind=kind, state=s)
                    for a, t in enumerate(succ[s]):
                        ctx.transitions += 1
                        ctx.case = dict(job, kind=kind, state=s, action=a)
                        if t is not None:
                            r = m.get_next_state(s, a)
                            if int(r) != t:
                                ctx.fail("moved to a state that the action cannot lead to", got=r, want=t)
                            continue
                        try:
                            r = m.get_next_state(s, a)
                        except ValueError:
                            continue
                        ctx.fail("an impossible action was carried out", to=r)
        return
    if "big" in job:
        # larger state spaces: mass on the first / last states, many successors
        for n in (8, 40):
            sas = np.zeros((n, 2, n))
            for s in range(n):
                sas[s, 0, (s + 1) % n] = .5
                sas[s, 0, n - 1 - s] += .5
                sas[s, 1, s] = 1
            sas[0, 0] = 0
            sas[0, 0, :8] = .125
            ctx.states += 1
            check_mdp(ctx, sut.MDP(np.zeros((2, n)), sas.copy()), sas)
        return
    # trajectories: the action recovered for a pair of states is one that most probably leads from one to the other
    for kind in ("square", "hex"):
        for shape in ((2, 2), (2, 3), (3, 2)):
            m = sut.grid(kind, shape, self_transitions=True)
            f = getattr(m, "_trajectory_to_state_action", None)
            if f is None:
                ctx.skip("trajectory to state-action pairs")
                continue
            succ = model.lattice(kind, shape[0], shape[1], True)
            n = m.n_states
            for s0 in range(n):
                for acts in itertools.product(range(m.n_actions), repeat=3):
                    t = [s0]
                    for a in acts:
                        if succ[t[-1]][a] is None:
                            break
                        t.append(succ[t[-1]][a])
                    else:
                        ctx.states += 1
                        ctx.traces += 1
                        sa = np.asarray(f(list(t)))
                        if sa.shape != (3, 2) or [int(i) for i in sa[:, 0]] != t[:-1] or [int(i) for i in sa[:, 1]] != list(acts):
                            ctx.fail("state-action pairs of a trajectory", trajectory=t, actions=acts, got=sa)
