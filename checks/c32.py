"""C32: shorthands and omitted arguments mean what is documented."""
import copy
import inspect

import numpy as np

from checks.c15 import compare, freeze
from checks.c16 import public
from lib import common, gen, train, vb
from lib.runner import Skip

CASES = {"quick": 1600, "thorough": 24000}
RULE = ("random models of every family and variational kind: each shorthand "
        "(predict, predict_proba, score, decode() without algorithm, omitted "
        "lengths, sample() without arguments, fit().method) against the long "
        "form; training with arguments omitted, given by position, by "
        "set_params or by attribute, scalar hyperparameters filled into "
        "arrays, permuted params letters, inferred and given sizes, against "
        "training with every argument spelled out with its documented value; "
        "answers compared bit for bit (to 1e-11 for scores); non-trivial = "
        "more than one state")
REQUIRED = (["family:" + f for f in train.TRAIN_FAMS + vb.FAMS]
            + ["short:" + s for s in (
                "predict", "predict_proba", "score", "decode", "lengths",
                "sample", "sample-seed", "fit-self", "aic")]
            + ["form:" + s for s in (
                "omitted", "positional", "set_params", "attribute", "filled",
                "letters", "inferred", "lengths", "clone")]
            + ["signature", "trained"])
ASSUMPTIONS = [
    "the documented defaults are the table DOC below (API documentation of "
    "the pinned version)",
    "n_iter, tol and verbose assigned as attributes are C13's known finding "
    "and not used here"]

ALL = ("stmc", "stmcw", "ste", "stl")
COMMON = dict(algorithm="viterbi", random_state=None, verbose=False,
              implementation="log")
EM = dict(startprob_prior=1.0, transmat_prior=1.0, n_iter=10, tol=1e-2,
          **COMMON)
VB = dict(startprob_prior=None, transmat_prior=None, n_iter=100, tol=1e-6,
          **COMMON)
# Documented defaults, and the documented order of positional arguments.
DOC = {
    "GaussianHMM": (dict(
        EM, n_components=1, covariance_type="diag", min_covar=1e-3,
        means_prior=0, means_weight=0, covars_prior=1e-2, covars_weight=1,
        params="stmc", init_params="stmc"),
        "n_components covariance_type min_covar startprob_prior "
        "transmat_prior means_prior means_weight covars_prior covars_weight "
        "algorithm random_state n_iter tol verbose params init_params "
        "implementation"),
    "GMMHMM": (dict(
        EM, n_components=1, n_mix=1, covariance_type="diag", min_covar=1e-3,
        weights_prior=1.0, means_prior=0.0, means_weight=0.0,
        covars_prior=None, covars_weight=None, params="stmcw",
        init_params="stmcw"),
        "n_components n_mix min_covar startprob_prior transmat_prior "
        "weights_prior means_prior means_weight covars_prior covars_weight "
        "algorithm covariance_type random_state n_iter tol verbose params "
        "init_params implementation"),
    "CategoricalHMM": (dict(
        EM, n_components=1, emissionprob_prior=1.0, n_features=None,
        params="ste", init_params="ste"),
        "n_components startprob_prior transmat_prior"),
    "MultinomialHMM": (dict(
        EM, n_components=1, n_trials=None, params="ste", init_params="ste"),
        "n_components n_trials startprob_prior transmat_prior algorithm "
        "random_state n_iter tol verbose params init_params implementation"),
    "PoissonHMM": (dict(
        EM, n_components=1, lambdas_prior=0.0, lambdas_weight=0.0,
        params="stl", init_params="stl"),
        "n_components startprob_prior transmat_prior lambdas_prior "
        "lambdas_weight algorithm random_state n_iter tol verbose params "
        "init_params implementation"),
    "VariationalCategoricalHMM": (dict(
        VB, n_components=1, emissionprob_prior=None, n_features=None,
        params="ste", init_params="ste"),
        "n_components startprob_prior transmat_prior emissionprob_prior "
        "n_features algorithm random_state n_iter tol verbose params "
        "init_params implementation"),
    "VariationalGaussianHMM": (dict(
        VB, n_components=1, covariance_type="full", means_prior=None,
        beta_prior=None, dof_prior=None, scale_prior=None, params="stmc",
        init_params="stmc"),
        "n_components covariance_type startprob_prior transmat_prior "
        "means_prior beta_prior dof_prior scale_prior algorithm random_state "
        "n_iter tol verbose params init_params implementation"),
}


def cls_and_args(ctx, t, fam):
    """Class and the arguments that describe the training, no defaults."""
    H = ctx.H
    if fam.startswith("v"):
        args = dict(n_components=t.nc, params=t.params, **vb.copies(t.pri))
        if t.ct:
            args["covariance_type"] = t.ct
        else:
            args["n_features"] = t.nf
        return (H.vhmm.VariationalCategoricalHMM if fam == "vcat"
                else H.vhmm.VariationalGaussianHMM), args
    args = dict(params=t.params, **gen.ctor_args(t.spec), **vb.copies(t.pri))
    args.update(common.fit_kw(t.spec))
    return gen.cls_of(H, t.spec), args


def signature(ctx, cls):
    doc, order = DOC[cls.__name__]
    sig = inspect.signature(cls)
    names = list(sig.parameters)
    order = order.split()
    ctx.check(names[:len(order)] == order, "signature", f"{cls.__name__} "
              f"takes {names}, documented {order}")
    got = cls().get_params()
    for k, v in doc.items():
        ctx.check(k in got and got[k] == v and
                  type(got[k]) in (type(v), int, float), "default",
                  f"{cls.__name__}: {k} defaults to {got.get(k)!r}, "
                  f"documented {v!r}")
    ctx.count("signature")


def outcome(ctx, m, X, L):
    """Parameters, history and answers after fit; None if refused."""
    ctx.counts["api_calls"] += 1
    try:
        r = m.fit(X, L)
    except ValueError as e:
        return None, {"refused": str(type(e))}
    ctx.check(r is m, "fit-self", "fit does not return the model")
    out = {k: v for k, v in public(m).items()}
    out["history"] = np.array(m.monitor_.history)
    return m, out


def shorthands(ctx, m, X, L, alg, seed, fam):
    rng = ctx.rng
    lp, post = ctx.api("score_samples", m.score_samples, X, L)
    got = ctx.api("predict_proba", m.predict_proba, X, L)
    ctx.check(np.array_equal(got, post), "short", f"{fam}: predict_proba is "
              "not score_samples()[1]")
    ctx.count("short:predict_proba")
    got = ctx.api("score", m.score, X, L)
    ctx.check(abs(got - lp) <= 1e-9 * (1 + abs(lp)), "short", f"{fam}: score "
              f"{got!r}, score_samples()[0] {lp!r}")
    ctx.count("short:score")
    a = ctx.api("decode", m.decode, X, L)
    b = ctx.api("decode", m.decode, X, L, algorithm=alg)
    c = ctx.api("predict", m.predict, X, L)
    ctx.check(a[0] == b[0] and np.array_equal(a[1], b[1]), "short",
              f"{fam}: decode() is not decode(algorithm={alg!r}), the model's")
    ctx.check(np.array_equal(c, b[1]), "short", f"{fam}: predict is not "
              "decode()[1]")
    d = ctx.api("decode", m.decode, X, L, alg)
    ctx.check(a[0] == d[0] and np.array_equal(a[1], d[1]), "short",
              f"{fam}: decode's third positional argument is not algorithm")
    ctx.count("short:decode"), ctx.count("short:predict")
    n = len(X)
    for name in ("score", "predict", "predict_proba", "aic"):
        if not hasattr(m, name):
            continue
        f = getattr(m, name)
        want = ctx.api(name, f, X, [n])
        for got in (ctx.api(name, f, X), ctx.api(name, f, X, None),
                    ctx.api(name, f, X, lengths=None)):
            ctx.check(np.array_equal(got, want), "short", f"{fam}: {name} "
                      "without lengths is not that of one sequence")
    ctx.count("short:lengths")
    if hasattr(m, "aic"):
        k = (ctx.api("bic", m.bic, X, L) + 2 * got_score(m, X, L))
        ln = np.log(n) if n > 1 else None
        if ln:
            q = (ctx.api("aic", m.aic, X, L) + 2 * got_score(m, X, L)) / 2
            ctx.check(abs(k / ln - q) < 1e-6 * (1 + abs(q) + abs(lp)), "short",
                      f"{fam}: bic and aic imply {k / ln} and {q} parameters")
            ctx.count("short:aic")
    if isinstance(getattr(m, "n_trials", 1), np.ndarray):
        return
    q = copy.deepcopy(m)
    q.random_state = seed
    a = ctx.api("sample", q.sample)
    b = ctx.api("sample", q.sample, 1, seed)
    c = ctx.api("sample", q.sample, n_samples=1, random_state=seed,
                currstate=None)
    for u in (b, c):
        ctx.check(np.array_equal(a[0], u[0]) and np.array_equal(a[1], u[1]),
                  "short", f"{fam}: sample() is not sample(1, random_state="
                  "the model's)")
    ctx.check(len(a[0]) == len(a[1]) == 1, "short", "sample() draws "
              f"{len(a[0])} samples")
    ctx.count("short:sample")
    k = int(rng.integers(2, 30))
    a = ctx.api("sample", q.sample, k)
    b = ctx.api("sample", m.sample, k, random_state=seed)
    c = ctx.api("sample", m.sample, k, np.random.RandomState(seed))
    for u in (b, c):
        ctx.check(np.array_equal(a[0], u[0]) and np.array_equal(a[1], u[1]),
                  "short", f"{fam}: random_state given to the model, to "
                  "sample as a seed and as a RandomState differ")
    ctx.count("short:sample-seed")


def got_score(m, X, L):
    return m.score(X, L)


FILL = {"startprob_prior": lambda c, f, x: (c,),
        "transmat_prior": lambda c, f, x: (c, c),
        "emissionprob_prior": lambda c, f, x: (c, f),
        "lambdas_prior": lambda c, f, x: (c, f),
        "lambdas_weight": lambda c, f, x: (c, f),
        "weights_prior": lambda c, f, x: (c, x)}


def case(ctx):
    rng = ctx.rng
    if rng.random() < .3:
        t = vb.make(ctx, T=int(rng.choice([20, 60])))
        fam, nc, nf, nm = t.fam, t.nc, t.nf, None
        spec = t.src
    else:
        t = train.make(ctx, T=int(rng.choice([20, 60])))
        fam, spec = t.fam, t.spec
        nc, nf, nm = spec["nc"], spec["nf"], spec.get("nm")
    X, L = t.X, t.lengths
    if fam != "vcat" and len(np.unique(X, axis=0)) < nc:
        return
    cls, own = cls_and_args(ctx, t, fam)
    ctx.count("family:" + fam)
    signature(ctx, cls)
    doc = DOC[cls.__name__][0]
    seed = int(rng.integers(1 << 20))
    alg = str(rng.choice(["viterbi", "map"]))
    own["random_state"] = seed
    if rng.random() < .5:
        own["algorithm"] = alg
    else:
        alg = "viterbi"
    if rng.random() < .5:
        own["n_iter"] = int(rng.integers(1, 5))
        own["tol"] = float(rng.choice([-np.inf, 1e-2, 1.]))
    elif fam.startswith("v") or fam.startswith("gmm"):
        own["n_iter"] = int(rng.integers(1, 5))
    if rng.random() < .3:
        own["implementation"] = t.impl
    if rng.random() < .3 and set(own["params"]) != set(doc["params"]):
        del own["params"]
    if rng.random() < .1 and fam == "multi":
        del own["n_trials"]
    full = {**doc, **own}               # every argument spelled out
    form = str(rng.choice(["omitted", "positional", "set_params", "attribute",
                           "filled", "letters", "inferred", "lengths",
                           "clone"]))
    ctx.cover(fam, form)
    ctx.detail.update(form=form, arguments={k: repr(v)[:60]
                                            for k, v in own.items()})
    fresh = vb.copies
    base, want = outcome(ctx, cls(**fresh(full)), X, L)
    L2 = L
    if form == "omitted":
        m = cls(**fresh(own))
    elif form == "positional":
        order = DOC[cls.__name__][1].split()
        k = int(rng.integers(1, len(order) + 1))
        pos = [fresh(full)[a] for a in order[:k]]
        m = cls(*pos, **{a: v for a, v in fresh(own).items()
                         if a not in order[:k]})
    elif form == "set_params":
        m = cls()
        args = fresh(own)
        ks = [str(k) for k in rng.permutation(list(args))]
        cut = int(rng.integers(len(ks) + 1))
        r = m.set_params(**{k: args[k] for k in ks[:cut]})
        ctx.check(r is m, "form", "set_params does not return the model")
        m.set_params(**{k: args[k] for k in ks[cut:]})
    elif form == "attribute":
        args = fresh(own)
        m = cls(**{k: args.pop(k) for k in ("n_iter", "tol") if k in args})
        for k in rng.permutation(list(args)):
            setattr(m, str(k), args[str(k)])
    elif form == "filled":
        args = fresh(own)
        for k, shape in FILL.items():
            v = full.get(k)
            if v is not None and np.ndim(v) == 0 and k in doc:
                args[k] = np.full(shape(nc, nf, nm), v)
        m = cls(**args)
    elif form == "letters":
        args = fresh(own)
        for k in ("params", "init_params"):
            p = list(full[k])
            if rng.random() < .5:
                p += [str(rng.choice(p))]
            args[k] = "".join(rng.permutation(p))
        m = cls(**args)
    elif form == "inferred":
        args = fresh(own)
        if fam in ("cat", "vcat"):
            # the largest symbol tells the number of symbols
            full = dict(full, n_features=int(np.max(X)) + 1)
            if fam == "cat":
                q = t.pri.get("emissionprob_prior")
            else:
                q = t.pri.get("emissionprob_prior")
            if np.ndim(q):
                return
            base, want = outcome(ctx, cls(**fresh(full)), X, L)
            args.pop("n_features", None)
        elif fam == "multi":
            base, want = outcome(ctx, cls(**fresh(dict(
                full, n_trials=int(np.sum(X[0]))))), X, L)
            args.pop("n_trials", None)
        m = cls(**args)
    elif form == "lengths":
        m = cls(**fresh(own))
        base, want = outcome(ctx, cls(**fresh(full)), X, [len(X)])
        L2 = None
    else:
        from sklearn.base import clone
        m = clone(cls(**fresh(own)))
    ctx.count("form:" + form)
    m, got = outcome(ctx, m, X, L2)
    if form == "inferred":
        # n_trials itself differs, what is learned does not
        for d in (want, got):
            d.pop("n_trials_", None)
    if base is None or m is None:
        ctx.check(want == got, "form", f"{fam}: {form} and spelled-out "
                  f"arguments: {want.keys()} / {got.keys()}")
        raise Skip("training refused")
    compare(ctx, want, got, "form", f"{fam}: arguments {form}")
    ctx.count("trained")
    ctx.count("short:fit-self")
    try:
        m._check()
        m.score(X, L)
    except ValueError:
        return                          # a degenerate fit
    if np.isfinite(m.score(X, L)) and np.isfinite(m.score(X)):
        shorthands(ctx, m, X, L, alg, seed, fam)
