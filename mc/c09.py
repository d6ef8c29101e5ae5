"""C09 action selection"""
import itertools
import math
import numpy as np
from . import core, model, sut

PROPERTY = "C09"
ASSUMPTIONS = ["a state of which no action has been valued (all NaN) gets action -1 and NaN probabilities; mixtures of only NaN and impossible actions are left open"]
BOUNDS = {"quick": "every row of up to 3 actions over 9 values and 4 actions over 5, as 1- and 2-state tables, every random outcome; rows of values that hardly differ or differ by orders of magnitude; tables of up to 300 states or 260 actions; ties of up to 20 actions; temperatures 0.05, 0.5, 1, 4",
          "thorough": "every row of up to 4 actions over 9 values, 5 actions over 4"}

NAN, NINF = float("nan"), -float("inf")
VALS = [NAN, NINF, -3.0, 0.0, 0.5, 0.5 + 1e-3, 2.0, 2.0 + 1e-9, 700.0]
SMALL = [NAN, NINF, -1.0, 0.0, 1.0]
TEMPS = [0.05, 0.5, 1, 4]


def rows(tier):
    out = []
    for k in (1, 2, 3):
        out += list(itertools.product(VALS, repeat=k))
    out += list(itertools.product(SMALL, repeat=4)) if tier == "quick" else list(itertools.product(VALS, repeat=4))
    if tier == "thorough":
        out += list(itertools.product([NINF, 0.0, 1.0, -1.0], repeat=5))
    # values that hardly differ, or differ by orders of magnitude
    near = [(2.0, 2.0 + 1e-12), (1e6, 1e6 + 1e-6), (-1e6 - 1e-6, -1e6, -1e6), (0.0, 1e-300), (1e-16, 0.0, -1e-16), (-1e5, -2e5), (-800.0, -800.0, -801.0), (1e300, -1e300, 1e300),
            (0.1 + 0.2, 0.3), (NINF, -1e308), (NAN, -1e308, NINF), (1e-8, 0.0, 1e-8), (1.0, 1.0 - 1e-10, NINF)]
    out += [p for r in near for p in sorted(set(itertools.permutations(r)), key=str)]
    out += [tuple(float(i % 3) for i in range(7)), tuple([NINF] * 6 + [-5.0]), tuple([0.0] * 6 + [NAN])]
    return [r for r in out if not all(v != v for v in r)
            and not (any(v != v for v in r) and all(v != v or v == NINF for v in r))]


def jobs(tier):
    out = [{"part": i, "of": 24, "tier": tier} for i in range(24)]
    out.append({"invalid": True})
    out.append({"tables": True})
    out.append({"large": True})
    return out


def warm():
    sut.SoftmaxActionSelector().get_pi_p(np.array([[0.0, 1.0]]))


def want_max(r):
    v = [NINF if x != x else x for x in r]
    best = [i for i in range(len(v)) if v[i] == max(v)]
    return [1 / len(best) if i in best else 0.0 for i in range(len(v))]


def want_soft(r, t):
    v = [NINF if x != x else x for x in r]
    if all(x == NINF for x in v):
        return [1 / len(v)] * len(v)
    return list(model.softmax(v, t))


_control = {}


def under_control(ctx, what):
    """Whether the draws of a selector can be enumerated, as seen from a plain tie."""
    if what not in _control:
        sel = sut.MaxActionSelector() if what == "max" else sut.SoftmaxActionSelector()
        _control[what] = core.distribution(lambda: int(np.asarray(sel.get_pi(np.zeros((1, 2))))[0]), ctx)[1]["choices"] > 0
    return _control[what]


def check_row(ctx, sel, r, want, what):
    """One row, embedded in a table with another row before it."""
    k = len(r)
    ctx.states += 1
    q = np.array([[float(i) for i in range(k)], list(r)])
    keep = q.copy()
    p = np.asarray(sel.get_pi_p(q))
    if not np.array_equal(q, keep, equal_nan=True):
        ctx.fail("%s: computing the policy changed the action values" % what, row=r)
    if p.shape != (2, k) or np.any(np.abs(p[1] - want) > 1e-9) or np.any(np.isnan(p[1])):
        ctx.fail("%s: action probabilities" % what, row=r, got=p[1], want=want)
    if abs(p[1].sum() - 1) > 1e-9:
        ctx.fail("%s: action probabilities do not sum to one" % what, row=r, got=p[1])
    q1 = np.array([list(r)])
    if what != "max" and sum(1 for w in want if w > 0) > 3:
        pass
    dist, info = core.distribution(lambda: int(np.asarray(sel.get_pi(q1))[0]), ctx)
    if not np.array_equal(q1[0], np.array(r), equal_nan=True):
        ctx.fail("%s: selecting actions changed the action values" % what, row=r)
    ctx.transitions += len(dist)
    for a, pa in dist.items():
        if not (0 <= a < k) or want[a] == 0:
            ctx.fail("%s: an action without any probability was selected" % what, row=r, action=a, want=want)
    multi = sum(1 for w in want if w > 0) > 1
    if multi and info["choices"] == 0 and sorted(want)[-2] > 1e-6 and under_control(ctx, what):
        ctx.fail("%s: one of several possible actions is always selected" % what, row=r, got=dist, want=want)
    if multi and info["choices"] == 0:
        miss = core.uncontrolled(lambda: int(np.asarray(sel.get_pi(q1))[0]), dict(enumerate(want)))
        if miss:
            ctx.fail("%s: an action is never selected" % what, row=r, missing=sorted(miss), want=want)
        ctx.skip("selection frequencies (random source not under control)")
    elif core.off(dist, {a: want[a] for a in range(k) if want[a] > 0}, info, 1e-6):
        ctx.fail("%s: actions are not selected with their probabilities" % what, row=r, got=dist, want=want)


def rejects(ctx, f, what):
    try:
        f()
    except (ValueError, TypeError, AttributeError):
        return
    ctx.fail("%s was accepted" % what)


def run(job, ctx):
    if job.get("invalid"):
        for sel in (sut.MaxActionSelector(), sut.SoftmaxActionSelector()):
            for f in (sel.get_pi, sel.get_pi_p):
                rejects(ctx, lambda: f([[1.0, 2.0]]), "a list of action values")
                rejects(ctx, lambda: f(np.array([1.0, 2.0])), "a one-dimensional table of action values")
                rejects(ctx, lambda: f(np.zeros((2, 2, 2))), "a three-dimensional table of action values")
                rejects(ctx, lambda: f(np.zeros((2, 2)) * np.nan), "a table without any action value")
        for t in (0, -1, -0.5):
            rejects(ctx, lambda: sut.SoftmaxActionSelector(temperature=t), "a temperature of %s" % t)
        ctx.states += 3
        ctx.traces += 19
        ctx.transitions += 19
        return
    if job.get("large"):
        # many states: each has its own row, one of them is a tie
        for n, k, tie in ((40, 4, 0), (40, 7, 39), (300, 6, 255), (300, 2, 256), (1, 130, 0), (2, 260, 1)):
            q = np.array([[float((s * 5 + a * (3 if k % 3 else 1)) % (k + 1)) - s for a in range(k)] for s in range(n)])
            for s in range(n):
                q[s, (s * 7 + 1) % k] = k + 2.5
            q[tie, :] = -1.0
            q[tie, [0, k - 1]] = 4.0
            ctx.case = {"states": n, "actions": k, "tie": tie}
            for what, sel, w in (("max", sut.MaxActionSelector(), want_max), ("softmax", sut.SoftmaxActionSelector(1e-3), lambda r: want_soft(r, 1e-3))):
                ctx.states += n
                want = [w(list(r)) for r in q]
                p = np.asarray(sel.get_pi_p(q.copy()))
                if p.shape != (n, k) or np.any(np.abs(p - np.array(want)) > 1e-9):
                    ctx.fail("%s: action probabilities in a large table" % what)
                if what == "max":
                    dist, info = core.distribution(lambda: tuple(int(x) for x in np.asarray(sel.get_pi(q.copy()))), ctx, 3000)
                    picks = list(dist)
                else:
                    picks = [tuple(int(x) for x in np.asarray(sel.get_pi(q.copy())))]
                for pi in picks:
                    ctx.transitions += n
                    ctx.traces += 1
                    for s in range(n):
                        if want[s][pi[s]] == 0:
                            ctx.fail("%s: an action without any probability was selected in a large table" % what, state=s, got=pi[s], want=want[s])
        # ties of many actions
        for k, best in ((12, range(12)), (12, range(1, 12)), (20, range(20)), (33, range(0, 33, 2)), (6, range(6)), (9, (0, 8))):
            r = [0.25 if a in best else (NINF if a % 2 else -400.0) for a in range(k)]
            ctx.case = {"row": r}
            check_row(ctx, sut.MaxActionSelector(), r, want_max(r), "max")
            if k < 13:
                check_row(ctx, sut.SoftmaxActionSelector(0.5), r, want_soft(r, 0.5), "softmax")
        return
    if job.get("tables"):
        # states are independent of one another; states that were not valued are marked
        R = [(NAN, NAN, NAN), (0.0, 1.0, 1.0), (NINF, NAN, 2.0), (NINF, -4.0, -4.0), (3.0, NINF, 3.0)]
        for tab in itertools.product(R, repeat=3):
            if all(v != v for r in tab for v in r):
                continue
            q = np.array(tab)
            for what, sel, w in (("max", sut.MaxActionSelector(), want_max), ("softmax", sut.SoftmaxActionSelector(2.0), lambda r: want_soft(r, 2.0))):
                ctx.states += 1
                q0 = q.copy()
                p = np.asarray(sel.get_pi_p(q0))
                if not np.array_equal(q0, q, equal_nan=True):
                    ctx.fail("%s: computing the policy changed the action values" % what, table=tab)
                sel.get_pi(q0)
                if not np.array_equal(q0, q, equal_nan=True):
                    ctx.fail("%s: selecting actions changed the action values" % what, table=tab)
                for i, r in enumerate(tab):
                    if all(v != v for v in r):
                        if not np.all(np.isnan(p[i])):
                            ctx.fail("%s: a state without values was given action probabilities" % what, table=tab, got=p)
                    elif np.any(np.abs(p[i] - w(r)) > 1e-9):
                        ctx.fail("%s: action probabilities in a table" % what, table=tab, state=i, got=p)

                def once():
                    return tuple(int(x) for x in np.asarray(sel.get_pi(q.copy())))

                dist, info = core.distribution(once, ctx, 400)
                for i, r in enumerate(tab):
                    if not all(v != v for v in r) and info["choices"]:
                        marg = {}
                        for pi, pp in dist.items():
                            marg[pi[i]] = marg.get(pi[i], 0.0) + pp
                        if core.off(marg, {a: x for a, x in enumerate(w(r)) if x > 0}, info, 1e-6):
                            ctx.fail("%s: actions are not selected with their probabilities in a table" % what, table=tab, state=i, got=marg, want=w(r))
                for pi in dist:
                    for i, r in enumerate(tab):
                        if all(v != v for v in r):
                            if pi[i] != -1:
                                ctx.fail("%s: a state without values was given an action" % what, table=tab, got=pi)
                        elif w(r)[pi[i]] == 0:
                            ctx.fail("%s: an action without any probability was selected" % what, table=tab, got=pi)
        return
    R = rows(job["tier"])
    for k in range(job["part"], len(R), job["of"]):
        r = R[k]
        ctx.case = {"row": list(r)}
        check_row(ctx, sut.MaxActionSelector(), r, want_max(r), "max")
        for t in TEMPS if k % 4 == 0 or len(r) < 3 else [TEMPS[k % 4]]:
            ctx.case = {"row": list(r), "temperature": t}
            check_row(ctx, sut.SoftmaxActionSelector(temperature=t), r, want_soft(r, t), "softmax")
