"""C16 learners: resetting gives a fresh learner, fitting again goes on from the current estimate, inputs are left alone"""
import itertools
import numpy as np
from . import sut
from .c25 import warm  # noqa: F401

PROPERTY = "C16"
ASSUMPTIONS = ["results are compared to 1e-10 with those of new learners"]
BOUNDS = {"quick": "every sequence of up to 4 operations (fit to one of three data sets, reset, reset the learning rate, copy) on each of 13 configured learners; ignored features, estimates carried over (reset=False), two worlds",
          "thorough": "every sequence of up to 6 operations"}

DATA = [[[0, 1, 3]], [[2, 3], [1, 0, 2]], [[0], [3, 1]]]


def learners():
    from maMDP.algorithms import irl
    from maMDP.algorithms.policy_learning import TDGeneralPolicyLearner
    th = [0.5, -0.25]
    q = [0.1, -0.2, 0.3, 0.0, 0.5]
    return {
        "ent": (irl.MaxCausalEntIRL, dict(max_iter_irl=3, VI_max_iter=100), "theta", None),
        "ent_theta": (irl.MaxCausalEntIRL, dict(max_iter_irl=2, decay=0, VI_max_iter=100), "theta", th),
        "ent_decay": (irl.MaxCausalEntIRL, dict(max_iter_irl=3, decay=2, learning_rate=0.7, soft=False, VI_max_iter=60), "theta", th),
        "ent_int": (irl.MaxCausalEntIRL, dict(max_iter_irl=2, VI_max_iter=60), "theta", [1, 2]),
        "hyp": (irl.HyptestIRL, dict(normalisation="z-score", VI_max_iter=100), "theta", None),
        "hyp_theta": (irl.HyptestIRL, dict(normalisation="z-score", decay=0, VI_max_iter=100), "theta", th),
        "hyp_int": (irl.HyptestIRL, dict(normalisation="z-score", decay=0.5, VI_max_iter=100), "theta", [1, 2]),
        "td": (TDGeneralPolicyLearner, dict(), "Q", None),
        "td_q": (TDGeneralPolicyLearner, dict(decay=1, learning_rate=0.5), "Q", q),
        "td_kernel": (TDGeneralPolicyLearner, dict(decay=0, kernel=True, ls=0.01), "Q", q),
        "mf": (irl.MFFeatureMatching, {}, None, None),
        "eye": (irl.SimpleActionIRL, {}, None, None),
        "eyediff": (irl.SimpleActionFeatureDiffIRL, {}, None, None),
    }


def jobs(tier):
    D = 4 if tier == "quick" else 6
    # split by first operation
    return [{"learner": k, "first": o, "depth": D} for k in learners() for o in range(len(DATA))] + [{"learner": k, "first": -1, "depth": D} for k in learners()]


def ops(name, le):
    out = [("fit", i) for i in range(len(DATA))]
    if name in ("mf",) or name.startswith(("ent", "hyp")):
        out.append(("fit", 1, 0))     # feature 0 ignored
    if name in ("eye", "eyediff"):
        out += [("more", i) for i in (0, 1)]
    if hasattr(le, "reset"):
        out.append(("reset",))
    if hasattr(le, "reset_learning_rate"):
        out.append(("lr",))
        if hasattr(le, "original_learning_rate"):
            out += [("set_lr", .1), ("set_lr", .9)]
    if hasattr(le, "copy"):
        out.append(("copy",))
    return out


def mdp():
    return [sut.grid("square", (2, 2), f, self_transitions=True) for f in ([[1, 0, 2, 0.5], [0, 1, 1, 0]], [[0, 3, 0, 0], [1, 0, 0.5, 0]])]


def data(name, i):
    d = [list(t) for t in DATA[i]]
    if name.startswith("hyp") and i == 2:
        d = [[3, 1], [1, 1]]
    return d


def fit(name, le, ms, i, ignore=None, **kw):
    d = data(name, i)
    m = ms[0]
    if ignore is not None:
        kw["ignore_features"] = [ignore]
    if i == 1:   # in another world, or each trajectory in its own
        m = ms[1] if name.startswith("ent") else [ms[1], ms[0]]
    if name in ("eye", "eyediff"):
        r = le.fit(m if isinstance(m, list) else [m] * len(d), d, **kw)
    elif name == "mf" or name.startswith("td"):
        r = le.fit(m, d, **kw)
    else:
        r = le.fit(m, d, show_progress=False, **kw)
    if d != data(name, i):
        raise AssertionError("trajectories changed")
    return np.array(le.get_q_values(0) if name.startswith("td") else r, dtype=float)


def estimate(name, le):
    v = le.Q if name.startswith("td") else getattr(le, "theta", None)
    return None if v is None else np.array(v, dtype=float)


def run(job, ctx):
    name = job["learner"]
    cls, kw, par, init = learners()[name]

    def new(theta=init, rate=None):
        k = dict(kw)
        if rate is not None:
            k["learning_rate"] = rate
        arr = None
        if par is not None:
            arr = None if theta is None else np.array(theta)
            k[par] = arr
        return cls(**k), arr

    m = mdp()
    look = lambda: [x.tobytes() for w in m for x in (np.array(w.features), np.array(w.sas))]
    before = look()
    fresh_ops = ops(name, new()[0])
    fresh = {}

    def result_from(est, i, ig=None, rate=None):
        """What a new learner starting from this estimate, with this learning rate, gets."""
        key = (None if est is None or par is None else est.tobytes(), i, ig, rate)
        if key not in fresh:
            le, _ = new(est, rate)
            fresh[key] = fit(name, le, mdp(), i, ig)
        return fresh[key]

    def path_ok(path):
        ctx.case = {"learner": name, "operations": path}
        ctx.traces += 1
        le, arr = new()
        arr0 = None if arr is None else arr.copy()
        est = None if init is None else np.array(init, dtype=float)
        rate = None
        for o in path:
            ctx.transitions += 1
            if o[0] == "fit":
                got = fit(name, le, m, *o[1:])
                want = result_from(est, *(o[1:] if len(o) > 2 else (o[1], None)), rate)
                if got.shape != want.shape or not np.allclose(got, want, atol=1e-10, rtol=0):
                    ctx.fail("fitting depends on more than the current estimate and the data", got=got, want=want, estimate=est)
                if par is not None or name in ("eye", "eyediff"):
                    est = got.copy()
            elif o[0] == "more":
                got = fit(name, le, m, o[1], reset=False)
                want = result_from(None, o[1]) + (0 if est is None else est)
                if got.shape != want.shape or not np.allclose(got, want, atol=1e-10, rtol=0):
                    ctx.fail("going on without resetting does not add to the estimate", got=got, want=want, estimate=est)
                est = got.copy()
            elif o[0] == "reset":
                le.reset()
                rate = None
                est = None if init is None else np.array(init, dtype=float)
                e = estimate(name, le)
                if (e is None) != (est is None) or (e is not None and not np.array_equal(e, est)):
                    ctx.fail("reset does not restore the initial estimate", got=e, want=est)
                if getattr(le, "fit_complete", False):
                    ctx.fail("a learner counts as fitted after being reset")
            elif o[0] == "lr":
                le.reset_learning_rate()
                rate = None
            elif o[0] == "set_lr":
                le.learning_rate = rate = o[1]
            elif o[0] == "copy":
                other = le.copy()
                e = estimate(name, le)
                fit(name, other, m, 0)
                e2 = estimate(name, le)
                if (e is None) != (e2 is None) or (e is not None and not np.array_equal(e, e2)):
                    ctx.fail("fitting a copy changes the original", before=e, after=e2)
        if arr is not None and not (np.array_equal(arr, arr0) and arr.dtype == arr0.dtype):
            ctx.fail("the initial estimate given by the user was overwritten", got=arr, want=arr0)
        if look() != before:
            ctx.fail("learning changed the MDP")

    def rec(path):
        ctx.states += 1
        if len(path) == job["depth"]:
            path_ok(path)
            return
        for o in fresh_ops:
            rec(path + [o])
        path_ok(path)

    if job["first"] >= 0:
        rec([("fit", job["first"])])
    else:
        path_ok([])
        for o in fresh_ops:
            if o[0] != "fit":
                rec([o])
