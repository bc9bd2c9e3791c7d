"""C15: pickling, copying and cloning preserve the model."""
import copy
import inspect
import os
import pickle
import subprocess
import tempfile

import numpy as np

from lib import boot, common, gen, train, vb

CASES = {"quick": 900, "thorough": 12000}
RULE = ("models of every family, covariance type and variational kind, with "
        "hand-set parameters or fitted, pickled with every protocol, "
        "shallow- and deep-copied, cloned, read with get_params and changed "
        "with set_params; results of original and copy compared call by call, "
        "each of the two used, refitted and overwritten while the other is "
        "watched; unpickling also in a fresh interpreter; non-trivial = more "
        "than one state")
REQUIRED = ["pickle", "deepcopy", "copy", "clone", "get_params", "set_params",
            "independent", "subprocess", "custom-class", "fitted-copy",
            "variational-copy", "set_params-refit"]
ASSUMPTIONS = ["single-threaded BLAS and OpenMP (set by the harness)",
               "a shallow copy shares arrays and the monitor with its "
               "original, so only rebinding uses of it are judged"]
KNOWN = "C15-inferred"


def equal(a, b):
    """Deep equality of parameter values, types included."""
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return (a.dtype == b.dtype and a.shape == b.shape
                and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, np.random.RandomState):
        s, t = a.get_state(), b.get_state()
        return s[0] == t[0] and np.array_equal(s[1], t[1]) and s[2:] == t[2:]
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(equal, a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


def defaults(cls):
    """Parameters of a constructor call without arguments, as documented."""
    return {k: copy.deepcopy(p.default) for k, p in
            inspect.signature(cls.__init__).parameters.items()
            if p.default is not p.empty}


def freeze(params):
    return {k: copy.deepcopy(v) for k, v in params.items()}


def same_params(ctx, m, want, what, skip=()):
    got = ctx.api("get_params", m.get_params)
    ctx.check(set(got) == set(want), "get_params",
              f"{what}: parameters {set(got) ^ set(want)}")
    for k, v in want.items():
        if k not in skip:
            ctx.check(equal(got[k], v), "get_params",
                      f"{what}: {k} is {got[k]!r:.150}, was {v!r:.150}")
    ctx.count("get_params")


def arrays(m):
    """All numeric state of a model by attribute name."""
    return {k: np.array(v) for k, v in vars(m).items()
            if isinstance(v, (np.ndarray, float, int))
            and not isinstance(v, bool)}


def results(ctx, m, X, lengths, seed=7, sample=True):
    """Every answer the model gives, as {name: array or exception text}."""
    out = {}

    def run(name, fn, *a, **k):
        ctx.counts["api_calls"] += 1
        try:
            r = fn(*a, **k)
        except Exception as e:
            out[name] = f"{type(e).__name__}: {e}"
            return
        for i, q in enumerate(r if isinstance(r, tuple) else (r,)):
            out[f"{name}[{i}]"] = np.array(q)
    run("score", m.score, X, lengths)
    run("score_samples", m.score_samples, X, lengths)
    run("decode", m.decode, X, lengths)
    run("decode-map", m.decode, X, lengths, algorithm="map")
    run("predict", m.predict, X, lengths)
    run("predict_proba", m.predict_proba, X, lengths)
    for name in ("aic", "bic"):
        if hasattr(m, name):
            run(name, getattr(m, name), X, lengths)
    if sample:
        run("sample", m.sample, 12, random_state=seed)
    return out


def compare(ctx, a, b, kind, what):
    ctx.check(a.keys() == b.keys(), kind,
              f"{what}: outcomes {sorted(set(a) ^ set(b))} differ")
    for k in a:
        if isinstance(a[k], str) or isinstance(b[k], str):
            ctx.check(isinstance(a[k], str) and isinstance(b[k], str)
                      and a[k] == b[k], kind, f"{what}: {k}: {a[k]} / {b[k]}")
            continue
        x, y = a[k], b[k]
        ctx.check(x.shape == y.shape and x.dtype == y.dtype, kind,
                  f"{what}: {k} has shape {y.shape}, was {x.shape}")
        if x.dtype.kind == "f":
            with np.errstate(all="ignore"):
                ok = ((x == y) | (np.isnan(x) & np.isnan(y))
                      | (np.abs(x - y) <= 1e-11 * (1 + np.abs(x))))
            ctx.check(np.all(ok), kind, f"{what}: {k} differs", a=x, b=y)
        else:
            ctx.check(np.array_equal(x, y), kind, f"{what}: {k} differs",
                      a=x, b=y)


def subject(ctx):
    """A model with parameters, data for it, and what is known about it."""
    rng = ctx.rng
    s = type("Subject", (), {})()
    s.skip = set()
    s.custom = False
    extra = dict(algorithm=str(rng.choice(["viterbi", "map"])),
                 random_state=int(rng.integers(1 << 20)),
                 n_iter=int(rng.integers(1, 4)),
                 tol=float(rng.choice([1e-2, -np.inf])))
    if rng.random() < .1:
        extra["random_state"] = np.random.RandomState(3)
    k = rng.random()
    if k < .25:
        t = vb.make(ctx, T=int(rng.choice([20, 60])))
        t.impl = "log"
        s.args = {"implementation": t.impl, "params": t.params,
                  **vb.copies(t.pri), **extra}
        s.args["n_components"] = t.nc
        if t.ct:
            s.args["covariance_type"] = t.ct
        elif rng.random() < .6:
            s.args["n_features"] = t.nf
        s.cls = (ctx.H.vhmm.VariationalCategoricalHMM if t.fam == "vcat"
                 else ctx.H.vhmm.VariationalGaussianHMM)
        s.m = s.cls(**s.args)
        s.before = freeze(s.m.get_params())
        s.fitted = True
        s.spec = None
    else:
        fam = (None if k < .95 else "table")
        t = train.make(ctx, fam=fam, T=int(rng.choice([20, 60])),
                       fams=train.TRAIN_FAMS)
        s.spec = t.spec
        if fam == "table":
            t.X = t.X % len(t.spec["table"])
        s.args = dict(implementation=t.impl, **gen.ctor_args(t.spec), **extra)
        s.args.update(vb.copies(t.pri))
        s.custom = fam == "table"
        if s.custom:
            s.args = {k: v for k, v in s.args.items()
                      if k in ("n_components", "implementation",
                               "startprob_prior", "transmat_prior") or
                      k in extra}
            s.args["params"] = s.args["init_params"] = ""
        else:
            s.args["params"] = t.params
        if t.spec["family"] == "cat" and rng.random() < .6:
            s.args["n_features"] = t.spec["nf"]
        if t.spec["family"] == "multi" and rng.random() < .2:
            s.args["n_trials"] = None
        s.cls = gen.cls_of(ctx.H, t.spec)
        s.fitted = bool(rng.random() < .6) or s.args.get("n_trials", 1) is None
        s.m = s.cls(**s.args)
        s.before = freeze(s.m.get_params())
        if not s.fitted or s.custom:
            gen.assign(s.m, t.spec, rng)
    s.t, s.fam, s.X, s.lengths = t, t.fam, t.X, t.lengths
    s.inferred = [p for p in ("n_features", "n_trials")
                  if p in s.before and s.before[p] is None]
    if s.custom:
        same_params(ctx, s.m, {**s.before, **s.args}, "constructor")
    else:
        s.before = freeze({**defaults(s.cls), **s.args})
        if isinstance(s.args["random_state"], np.random.RandomState):
            s.before["random_state"] = s.args["random_state"]
        same_params(ctx, s.m, s.before, "constructor")
    if s.fitted:
        if t.fam not in ("vcat",) and not s.custom and len(
                np.unique(t.X, axis=0)) < s.args["n_components"]:
            s.fitted = None
            return s
        ctx.counts["api_calls"] += 1
        try:
            s.m.fit(s.X, s.lengths)
        except ValueError:
            s.fitted = None          # degenerate: nothing to compare
    ctx.cover(s.fam, s.fitted, t.impl)
    return s


def after_use(ctx, s, m, what):
    """Constructor parameters after using a model."""
    got = m.get_params()
    for p in s.inferred:
        if got[p] is None:
            continue
        # Known: sizes inferred from data are stored in constructor parameters.
        want = (s.t.nf if p == "n_features" and s.spec is None else
                s.spec["nf"] if p == "n_features" else None)
        if p == "n_features":
            ok = (np.ndim(got[p]) == 0 and 1 <= got[p] <= want)
        else:
            ok = np.array_equal(got[p], np.asarray(s.X).sum(axis=1))
        ctx.check(ok, "inferred", f"{what}: {p} = {got[p]!r:.100}")
        ctx.known.append(KNOWN)
    want = dict(s.before)
    if isinstance(s.args["random_state"], np.random.RandomState):
        # advanced by use, but the same object
        ctx.check(m is not s.m or got["random_state"]
                  is s.args["random_state"], "get_params",
                  f"{what}: random_state was replaced")
        want["random_state"] = got["random_state"]
    same_params(ctx, m, want, what, skip=s.inferred)


def duplicate(ctx, m, custom):
    how = str(ctx.rng.choice(["pickle", "deepcopy", "copy"],
                             p=[.5, .25, .25]))
    if custom and how == "pickle":
        how = "deepcopy"
    if how == "pickle":
        p = int(ctx.rng.integers(0, pickle.HIGHEST_PROTOCOL + 1))
        ctx.cover("protocol", p)
        return how, ctx.api("pickle round trip", lambda: pickle.loads(
            pickle.dumps(m, protocol=p)))
    if how == "deepcopy":
        return how, ctx.api("deepcopy", copy.deepcopy, m)
    return how, ctx.api("copy", copy.copy, m)


def scribble(rng, m):
    """Overwrite every array reachable from the model in place."""
    for o in (m, m.monitor_):
        for k, v in vars(o).items():
            if isinstance(v, np.ndarray) and v.size and v.flags.writeable:
                v[...] = 1 if v.dtype.kind in "iu" else .12345
    m.monitor_.history.clear()
    m.monitor_.iter = -5
    m.monitor_.n_iter = 10 ** 6


def use(ctx, s, m, how):
    """Use a model destructively in ways that rebind only (or scribble)."""
    rng = ctx.rng
    acts = list(rng.permutation(["score", "fit", "assign", "set", "scribble"]))
    for a in acts:
        if a == "score":
            results(ctx, m, s.X[::-1].copy(), None)
        elif a == "fit":
            ctx.raises("fit", m.fit, s.X[::-1].copy())
        elif a == "assign":
            for k, v in list(vars(m).items()):
                if k.endswith("_") and isinstance(v, np.ndarray):
                    try:
                        setattr(m, k, np.roll(v, 1, axis=0) * .5)
                    except Exception:
                        pass
        elif a == "set":
            m.set_params(algorithm="map", n_iter=99, tol=1e9, verbose=False,
                         n_components=9, startprob_prior=55.)
        elif a == "scribble" and how != "copy":
            scribble(rng, m)


def round_trip(ctx):
    rng = ctx.rng
    s = subject(ctx)
    if s.fitted is None:
        return
    m = s.m
    base = results(ctx, m, s.X, s.lengths)
    after_use(ctx, s, m, "after use")
    how, q = duplicate(ctx, m, s.custom)
    ctx.check(type(q) is type(m), how, f"type {type(q)}")
    hist = list(m.monitor_.history)
    state = arrays(m)
    par = freeze(m.get_params())
    same_params(ctx, q, par, how)
    st = arrays(q)
    ctx.check(st.keys() == state.keys() and all(
        np.array_equal(st[k], state[k], equal_nan=True) for k in st), how,
        "attributes differ")
    ctx.check(type(q.monitor_) is type(m.monitor_)
              and list(q.monitor_.history) == hist
              and q.monitor_.iter == m.monitor_.iter
              and q.monitor_.converged == m.monitor_.converged
              if hist else True, how, "the monitor differs")
    if isinstance(s.args["random_state"], np.random.RandomState):
        got = results(ctx, q, s.X, s.lengths)
        compare(ctx, base, got, how, f"{s.fam} after {how}")
    else:
        compare(ctx, base, results(ctx, q, s.X, s.lengths), how,
                f"{s.fam} after {how}")
        compare(ctx, {"s": np.array(m.sample(5)[0])} if "sample[0]" in base
                else {}, {"s": np.array(q.sample(5)[0])}
                if "sample[0]" in base else {}, how,
                "sampling with the model's own seed")
    ctx.count(how)
    if s.custom:
        ctx.count("custom-class")
    if s.fitted:
        ctx.count("fitted-copy")
    if s.spec is None:
        ctx.count("variational-copy")
    # Using one of the two never changes the other.
    a, b = (m, q) if rng.random() < .7 else (q, m)
    use(ctx, s, b, how)
    ctx.check(type(a) is s.cls, how, "type")
    st = arrays(a)
    ctx.check(st.keys() == state.keys() and all(
        np.array_equal(st[k], state[k], equal_nan=True) for k in st),
        "independent", f"{s.fam}: using the {how} changed "
        f"{[k for k in state if k not in st or not np.array_equal(st[k], state[k], equal_nan=True)]} "
        "of the other")
    rs = isinstance(s.args["random_state"], np.random.RandomState)
    same_params(ctx, a, par, f"after using the {how}",
                skip=["random_state"] if rs and how == "copy" else ())
    if how != "copy":
        ctx.check(list(a.monitor_.history) == hist, "independent",
                  "the monitor's history changed")
    compare(ctx, base, results(ctx, a, s.X, s.lengths), "independent",
            f"{s.fam}: results of the other after using the {how}")
    ctx.count("independent")


def snapshot(m, s):
    if s.spec is None:
        out = vb.read(m, s.fam)
    else:
        out = {a: np.array(getattr(m, a + "_"), float)
               for a in gen.attrs_of(s.spec)}
    out["history"] = np.array(m.monitor_.history, float)
    return out


def try_fit(ctx, m, s):
    ctx.counts["api_calls"] += 1
    try:
        m.fit(s.X, s.lengths)
    except ValueError as e:
        return {"error": np.array(0.)}
    return snapshot(m, s)


def alike(ctx, a, b, kind, what):
    ctx.check(a.keys() == b.keys() and all(np.array_equal(
        a[k], b[k], equal_nan=True) for k in a), kind, what, a=a, b=b)


def cloning(ctx):
    from sklearn.base import clone
    rng = ctx.rng
    s = subject(ctx)
    if s.fitted is None or s.custom:
        return
    m = s.m
    results(ctx, m, s.X, s.lengths)
    par = freeze(m.get_params())
    after_use(ctx, s, m, "after use")
    c = ctx.api("clone", clone, m)
    ctx.check(type(c) is type(m), "clone", f"type {type(c)}")
    same_params(ctx, c, par, "clone")
    fresh = s.cls(**freeze(par))
    extra = set(vars(c)) - set(vars(fresh))
    ctx.check(not extra, "clone", f"fitted state {extra} was cloned")
    ctx.check(not c.monitor_.history and c.monitor_.iter == 0
              and c.monitor_ is not m.monitor_, "clone",
              "the clone has a used monitor")
    ctx.check(c.monitor_.n_iter == par["n_iter"]
              and c.monitor_.tol == par["tol"]
              and c.monitor_.verbose == par["verbose"], "clone",
              "the clone's monitor has other settings")
    ctx.check(ctx.raises("score of a clone", c.score, s.X) is not None,
              "clone", "an unfitted clone scores data")
    use(ctx, s, c, "clone") if rng.random() < .5 else None
    same_params(ctx, m, par, "after using the clone",
                skip=["random_state"] if isinstance(
                    par["random_state"], np.random.RandomState) else ())
    ctx.count("clone")


def setting(ctx):
    """set_params on a (used) model = constructing with those parameters."""
    from sklearn.base import clone
    rng = ctx.rng
    s = subject(ctx)
    if s.fitted is None or s.custom:
        return
    t = s.t
    a = freeze(s.before)
    a["random_state"] = 11
    codes = t.codes if s.spec is None else gen.all_params(s.spec)
    a["init_params"] = codes
    if s.args.get("n_trials", 1) is None:
        return
    if "n_features" in a:
        a["n_features"] = t.nf if s.spec is None else s.spec["nf"]
    change = {
        "n_components": lambda: max(1, min(len(np.unique(s.X, axis=0)),
                                           a["n_components"]
                                           + int(rng.integers(-1, 2)))),
        "algorithm": lambda: str(rng.choice(["viterbi", "map"])),
        "n_iter": lambda: int(rng.integers(1, 6)),
        "tol": lambda: float(rng.choice([-np.inf, 1., 1e-3])),
        "params": lambda: "".join(c for c in codes if rng.random() < .7),
        "implementation": lambda: str(rng.choice(["log", "scaling"])),
        "random_state": lambda: int(rng.integers(100)),
        "startprob_prior": lambda: float(rng.uniform(1, 3)),
        "transmat_prior": lambda: float(rng.uniform(1, 3)),
    }
    if "covariance_type" in a:
        change["covariance_type"] = lambda: str(rng.choice(gen.CTS))
        change["min_covar"] = lambda: float(rng.choice([1e-3, .1]))
    if "n_mix" in a:
        change["n_mix"] = lambda: int(rng.integers(1, 4))
    if "lambdas_prior" in a:
        change["lambdas_prior"] = lambda: float(rng.uniform(0, 3))
        change["lambdas_weight"] = lambda: float(rng.uniform(0, 3))
    if "emissionprob_prior" in a:
        change["emissionprob_prior"] = lambda: float(rng.uniform(1, 3))
    if "means_weight" in a:
        change["means_prior"] = lambda: float(rng.uniform(-1, 1))
        change["means_weight"] = lambda: float(rng.uniform(0, 3))
    if s.fam.startswith("gauss"):
        change["covars_prior"] = lambda: float(rng.uniform(0, 1))
        change["covars_weight"] = lambda: float(rng.uniform(0, 9))
    b = {k: f() for k, f in change.items()
         if k in a and rng.random() < .4}
    # array-shaped priors only make sense for the sizes they were made for
    if {"n_components", "covariance_type", "n_mix"} & set(b):
        for k, v in a.items():
            if isinstance(v, np.ndarray):
                a[k] = defaults(s.cls)[k]
    a["params"] = codes if {"n_components", "covariance_type",
                            "n_mix"} & set(b) else a["params"]
    ctx.detail["set_params"] = b
    m = s.cls(**freeze(a))
    used = bool(rng.random() < .5)
    if used:
        first = try_fit(ctx, m, s)
        if "error" in first:
            return
    order = list(b)
    rng.shuffle(order)
    if rng.random() < .5:
        r = ctx.api("set_params", m.set_params, **{k: b[k] for k in order})
        ctx.check(r is m, "set_params", "set_params does not return self")
    else:
        for k in order:
            ctx.api("set_params", m.set_params, **{k: b[k]})
    want = {**a, **b}
    same_params(ctx, m, want, "set_params")
    ref = s.cls(**freeze(want))
    x, y = try_fit(ctx, m, s), try_fit(ctx, ref, s)
    alike(ctx, x, y, "set_params",
          f"{s.fam}: fit after set_params({b}) differs from constructing "
          f"with these (used before: {used})")
    ctx.count("set_params")
    if used:
        ctx.count("set_params-refit")
    if "error" not in x:
        compare(ctx, results(ctx, ref, s.X, s.lengths),
                results(ctx, m, s.X, s.lengths), "set_params",
                "results after set_params")
    ctx.check(isinstance(ctx.raises("set_params", m.set_params,
                                    no_such_parameter=1), ValueError),
              "set_params", "an unknown parameter name was accepted")


CHILD = r"""
import sys, pickle
sys.path.insert(0, sys.argv[1])
from lib import boot
H = boot.load(sys.argv[2])
import numpy as np
from lib.runner import Ctx
from checks.c15 import results
ctx = Ctx(H, "C15", 1, 0, "quick")
with open(sys.argv[3], "rb") as f:
    jobs = pickle.load(f)
with open(sys.argv[4], "wb") as f:
    pickle.dump([(results(ctx, m, X, L), m.get_params(),
                  list(m.monitor_.history)) for m, X, L in jobs], f)
"""


def processes(ctx):
    """Models restored in a fresh interpreter."""
    rng = np.random.RandomState(0)
    X = np.vstack([rng.randn(30, 2) + 4 * i for i in range(3)])
    C = rng.randint(0, 4, (90, 1))
    K = rng.multinomial(5, [.2, .3, .5], 90)
    P = rng.poisson(3, (90, 2))
    L = [40, 30, 20]
    hmm, vhmm = ctx.H.hmm, ctx.H.vhmm
    jobs = [(hmm.CategoricalHMM(3, random_state=5), C, L),
            (hmm.MultinomialHMM(3, n_trials=5, random_state=5), K, L),
            (hmm.PoissonHMM(3, random_state=5), P, L),
            (vhmm.VariationalCategoricalHMM(3, random_state=5), C, L)]
    for ct in gen.CTS:
        jobs += [(hmm.GaussianHMM(3, ct, random_state=5), X, L),
                 (hmm.GMMHMM(3, 2, covariance_type=ct, random_state=5), X, L),
                 (vhmm.VariationalGaussianHMM(3, ct, random_state=5), X, L)]
    for m, D, n in jobs:
        ctx.api("fit", m.fit, D, n)
    with tempfile.TemporaryDirectory(prefix="verif_hmm_") as d:
        a, b = os.path.join(d, "in"), os.path.join(d, "out")
        with open(a, "wb") as f:
            pickle.dump(jobs, f)
        p = subprocess.run([boot.PY, "-c", CHILD, boot.VERIF, ctx.H.so, a, b],
                           capture_output=True, text=True, timeout=300,
                           cwd=boot.VERIF, env=dict(
                               os.environ, PYTHONDONTWRITEBYTECODE="1"))
        ctx.check(p.returncode == 0, "subprocess", p.stderr[-1500:])
        with open(b, "rb") as f:
            got = pickle.load(f)
    for (m, D, n), (res, par, hist) in zip(jobs, got):
        compare(ctx, results(ctx, m, D, n), res, "subprocess",
                f"{type(m).__name__} restored in another process")
        same_params(ctx, m, par, "restored in another process")
        ctx.check(list(m.monitor_.history) == hist, "subprocess", "history")
        ctx.count("subprocess")
    ctx.nontrivial = True


def inferred(ctx):
    """Known finding: clone of a fitted model keeps sizes inferred from data."""
    from sklearn.base import clone
    X = np.array([[0], [1], [2], [1], [0], [2]])
    m = ctx.H.hmm.CategoricalHMM(2, random_state=0).fit(X)
    c = clone(m)
    if c.get_params()["n_features"] is not None:
        ctx.check(c.n_features == 3, "inferred", f"{c.n_features}")
        ctx.known.append(KNOWN)
    ctx.nontrivial = True


DIRECTED = [processes, inferred]


def case(ctx):
    k = ctx.rng.random()
    if k < .5:
        round_trip(ctx)
    elif k < .7:
        cloning(ctx)
    else:
        setting(ctx)
