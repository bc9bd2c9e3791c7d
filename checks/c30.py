"""C30: training can be interrupted, handed over and resumed."""
import copy
import pickle

import numpy as np

from lib import common, gen, train, vb
from lib.runner import Skip

CASES = {"quick": 1200, "thorough": 18000}
RULE = ("one run of a+b iterations against a run of a iterations continued "
        "for b: by the same object, after inference on other data, by a deep "
        "copy, a pickled copy, and by a new model given the learned "
        "parameters (or posteriors and priors); parameters, posteriors and "
        "the concatenated history must be those of the uninterrupted run; "
        "EM and variational models, starts given or initialised from data; "
        "non-trivial = both parts changed a parameter")
REQUIRED = (["family:" + f for f in train.TRAIN_FAMS + vb.FAMS]
            + ["via:" + v for v in ("same", "inference", "deepcopy", "pickle",
                                    "new-model", "other-fit")]
            + ["impl:log", "impl:scaling", "initialised", "given", "early-stop",
               "params-subset", "compared", "long"])
ASSUMPTIONS = [
    "resumed with init_params='' (what is learned is not initialised again)",
    "runs in which a component loses its data or spread amplify rounding and "
    "are not compared after that"]
TOL = 1e-7


def warm_inference(ctx, m, X, nf_cols):
    """Other uses of the model between the two parts of training."""
    rng = ctx.rng
    n = int(rng.integers(1, len(X) + 1))
    sub = X[rng.permutation(len(X))[:n]].copy()
    for f in ("score", "predict", "predict_proba", "score_samples", "aic"):
        if rng.random() < .5 and hasattr(m, f):
            try:
                ctx.counts["api_calls"] += 1
                getattr(m, f)(sub)
            except ValueError:
                pass
    if rng.random() < .5:
        try:
            m.sample(3, random_state=1)
        except ValueError:
            pass


def compare(ctx, A, B, what):
    for k in A:
        a, b = np.asarray(A[k], float), np.asarray(B[k], float)
        s = 1 + np.abs(a[np.isfinite(a)]).max(initial=0)
        ctx.close(b, a, "resumed", TOL * s, f"{what}: {k}")
    ctx.count("compared")


def em(ctx):
    rng, H = ctx.rng, ctx.H
    t = train.make(ctx, zeros=rng.random() < .2)
    codes = gen.all_params(t.spec)
    a, b = (int(x) for x in rng.integers(1, 5, size=2))
    if rng.random() < .1:           # long trainings, cut anywhere
        a, b = (int(x) for x in rng.integers(1, 40, size=2))
        ctx.count("long")
    given = rng.random() < .6
    seed = int(rng.integers(1 << 20))
    params = t.params if given else codes
    if set(params) != set(codes):
        ctx.count("params-subset")
    tol = -np.inf

    def make(n_iter):
        if given:
            return train.model(ctx, t, n_iter=n_iter, containers=False)
        args = dict(implementation=t.impl, params=params, tol=tol,
                    n_iter=n_iter, random_state=seed)
        args.update({k: (np.array(v) if isinstance(v, np.ndarray) else v)
                     for k, v in t.pri.items()})
        args.update(common.fit_kw(t.spec))
        return gen.cls_of(H, t.spec)(**gen.ctor_args(t.spec), **args)
    if not given and len(np.unique(t.X, axis=0)) < 3 * t.spec["nc"]:
        return
    via = str(rng.choice(["same", "inference", "deepcopy", "pickle",
                          "new-model", "other-fit"]))
    ctx.count("family:" + t.fam), ctx.count("impl:" + t.impl)
    ctx.count("given" if given else "initialised")
    ctx.cover("em", t.fam, via, a, b, given)
    ctx.detail.update(a=a, b=b, via=via, given=given, seed=seed)
    ctx.feed(a, b, via, given)

    def state(m):
        cur = gen.read(m, t.spec)
        return {k: cur[k] for k in gen.attrs_of(t.spec)}

    def snap(m):
        s = state(m)
        return {k: np.array(v) for k, v in s.items()}
    whole, first = make(a + b), make(a)
    try:
        ctx.counts["api_calls"] += 2
        whole.fit(t.X, t.lengths)
        first.fit(t.X, t.lengths)
    except ValueError:
        raise Skip("training refused (a state without data)")
    h1 = list(first.monitor_.history)
    mid = dict(t.spec, **snap(first))
    end = dict(t.spec, **snap(whole))
    if not all(np.all(np.isfinite(v)) for s in (mid, end)
               for v in (s[k] for k in gen.attrs_of(t.spec))):
        raise Skip("degenerate")
    if mid["transmat"].sum(axis=1).min() < .5:
        raise Skip("a transition row that was never observed")
    try:
        if any(train.may_collapse(s, t.X, t.lengths) for s in (mid, end)):
            raise Skip("degenerate")
    except np.linalg.LinAlgError:
        raise Skip("degenerate")
    m = first
    if via == "inference":
        warm_inference(ctx, m, t.X, t.spec["nf"])
    elif via == "deepcopy":
        m = copy.deepcopy(m)
    elif via == "pickle":
        m = pickle.loads(pickle.dumps(m))
    elif via == "new-model":
        args = dict(implementation=t.impl, params=params, init_params="",
                    tol=tol, n_iter=b)
        args.update({k: (np.array(v) if isinstance(v, np.ndarray) else v)
                     for k, v in t.pri.items()})
        args.update(common.fit_kw(t.spec))
        m = gen.build(H, mid, None, **args)
    elif via == "other-fit":
        # an unrelated model of the same class trains in between
        o = make(1)
        o.random_state = 7
        try:
            o.fit(t.X[::-1].copy())
        except ValueError:
            pass
    ctx.count("via:" + via)
    before = snap(m)
    m.set_params(init_params="", n_iter=b)
    ctx.api("resumed fit", m.fit, t.X, t.lengths)
    compare(ctx, snap(whole), snap(m), f"{t.fam}, {a}+{b} iterations via "
            f"{via}")
    h = h1 + list(m.monitor_.history)
    H0 = list(whole.monitor_.history)
    if len(H0) == a + b and len(h1) == a:
        s = 1 + np.abs(H0).max()
        ctx.close(h, H0, "history", TOL * s, f"history via {via}")
    else:
        ctx.count("early-stop")
    ctx.nontrivial = any(not np.array_equal(before[k], v)
                         for k, v in snap(m).items())


def variational(ctx):
    rng, H = ctx.rng, ctx.H
    t = vb.make(ctx)
    a, b = (int(x) for x in rng.integers(1, 5, size=2))
    if rng.random() < .1:           # long trainings, cut anywhere
        a, b = (int(x) for x in rng.integers(1, 40, size=2))
        ctx.count("long")
    via = str(rng.choice(["same", "inference", "deepcopy", "pickle",
                          "new-model", "other-fit"]))
    if set(t.params) != set(t.codes):
        ctx.count("params-subset")
    ctx.count("family:" + t.fam), ctx.count("impl:" + t.impl)
    ctx.cover("vb", t.fam, via, a, b)
    ctx.detail.update(a=a, b=b, via=via)
    ctx.feed(a, b, via)
    whole, first = (vb.model(ctx, t, n_iter=n) for n in (a + b, a))
    vb.fit(ctx, whole, t)
    vb.fit(ctx, first, t)
    points = ["startprob_", "transmat_"] + (
        ["emissionprob_"] if t.fam == "vcat" else ["means_", "covars_"])

    def state(m):
        s = vb.read(m, t.fam)
        s.update({k: np.array(getattr(m, k), float) for k in points
                  if hasattr(m, k)})
        return s
    h1 = list(first.monitor_.history)
    m = first
    if via == "inference":
        warm_inference(ctx, m, t.X, t.nf)
    elif via == "deepcopy":
        m = copy.deepcopy(m)
    elif via == "pickle":
        m = pickle.loads(pickle.dumps(m))
    elif via == "new-model":
        m = vb.model(ctx, t, n_iter=b)
        m.init_params = ""
        for k, v in vb.read(first, t.fam).items():
            setattr(m, k, v.copy() if v.ndim else float(v))
    elif via == "other-fit":
        o = vb.model(ctx, t, n_iter=1)
        o.random_state = 7
        try:
            o.fit(t.X[::-1].copy())
        except ValueError:
            pass
    ctx.count("via:" + via)
    before = state(first)
    m.set_params(init_params="", n_iter=b)
    vb.fit(ctx, m, t)
    A, B = state(whole), state(m)
    if not all(np.all(np.isfinite(v)) for v in A.values()):
        raise Skip("degenerate")
    compare(ctx, A, B, f"{t.fam}, {a}+{b} iterations via {via}")
    h = h1 + list(m.monitor_.history)
    H0 = list(whole.monitor_.history)
    if len(H0) == a + b and len(h1) == a:
        s = 1 + np.abs(H0).max()
        ctx.close(h, H0, "history", TOL * s, f"history via {via}")
    else:
        ctx.count("early-stop")
    ctx.nontrivial = any(not np.array_equal(before[k], B[k]) for k in before
                         if k in B)


def early(ctx):
    """A run that converged stays where it is when resumed; the run that
    is cut by n_iter continues to the same end."""
    rng = ctx.rng
    t = train.make(ctx, fams=["cat", "poisson", "gauss:diag", "gauss:full",
                              "multi"], kind="default", T=80)
    tol = float(rng.choice([1., .1]))
    whole = train.model(ctx, t, n_iter=200, containers=False, tol=tol)
    try:
        whole.fit(t.X, t.lengths)
    except ValueError:
        raise Skip("training refused")
    n = whole.monitor_.iter
    if n >= 200 or n < 3:
        raise Skip("no convergence within 200 iterations")
    ctx.count("early-stop")
    a = int(rng.integers(1, n - 1))
    m = train.model(ctx, t, n_iter=a, containers=False, tol=tol)
    m.fit(t.X, t.lengths)
    if m.transmat_.sum(axis=1).min() < .5:
        raise Skip("a transition row that was never observed")
    m.set_params(n_iter=200)
    ctx.api("resumed fit", m.fit, t.X, t.lengths)
    h = list(m.monitor_.history)
    ctx.cover("early", t.fam, tol)
    ctx.detail.update(kind="early", n=n, a=a)
    end = gen.read(whole, t.spec)
    try:
        if train.may_collapse(end, t.X, t.lengths):
            raise Skip("degenerate")
    except np.linalg.LinAlgError:
        raise Skip("degenerate")
    ctx.check(m.monitor_.iter == n - a, "early-stop",
              f"resumed after {a} of {n} iterations: {m.monitor_.iter} more")
    ctx.close(h[-1], whole.monitor_.history[-1], "history", 1e-6 *
              (1 + abs(h[-1])), "last log-likelihood")
    compare(ctx, {k: end[k] for k in gen.attrs_of(t.spec)},
            gen.read(m, t.spec), f"{t.fam}: stopped by tol after {n}, "
            f"resumed at {a}")


def case(ctx):
    k = ctx.rng.random()
    (em if k < .6 else variational if k < .9 else early)(ctx)
