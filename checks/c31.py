"""C31: calls leave nothing behind."""
import gc
import locale
import logging
import os
import pickle
import random
import signal
import sys
import threading
import tracemalloc
import warnings
import weakref

import numpy as np

from lib import common, gen, train, vb
from lib.runner import Skip

CASES = {"quick": 240, "thorough": 3000}
RULE = ("models of every family and variational kind, trained, queried, "
        "sampled from and handed invalid input under unusual process "
        "settings, all settings compared after every call; and on data sets "
        "of 8000-18000 samples: weak references to data and model, pickled "
        "size, memory still allocated after and peak during every call for T "
        "and 2T samples (tracemalloc); non-trivial = more than one state")
REQUIRED = (["family:" + f for f in train.TRAIN_FAMS + vb.FAMS]
            + ["settings", "settings-rejected", "settings-fit", "data-freed",
               "model-freed", "pickled-size", "no-residue", "linear",
               "linear-fit", "rejected-freed"])
ASSUMPTIONS = [
    "memory is what Python, NumPy and the kernels' result arrays allocate "
    "(tracemalloc); C18 watches the native heap",
    "lazy imports and first-use caches are warmed up on small data",
    "linear: peak at 2T at most 2.5 times the peak at T"]


# ------------------------------------------------------------ process settings

def settings():
    """Everything process-wide a library could disturb."""
    lg = [logging.getLogger(n) for n in (None, "hmmlearn", "hmmlearn.base",
                                         "hmmlearn.hmm", "hmmlearn.vhmm")]
    st = np.random.get_state()
    out = {
        "numpy error handling": (np.geterr(), np.geterrcall(),
                                 np.getbufsize()),
        "numpy print options": {k: repr(v) for k, v in
                                np.get_printoptions().items()},
        "numpy global generator": (st[0], st[1].tobytes(), st[2:]),
        "random": hash(random.getstate()),
        "warning filters": (list(warnings.filters), warnings.showwarning),
        "logging": [(g.level, g.disabled, g.propagate, list(g.handlers),
                     list(g.filters)) for g in lg]
        + [logging.root.manager.disable, logging.raiseExceptions],
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "sys": (list(sys.path), sys.getrecursionlimit(), sys.stdout,
                sys.stderr, sys.excepthook, sys.getswitchinterval(),
                sys.gettrace(), sys.getprofile()),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "locale": locale.setlocale(locale.LC_ALL),
        "signals": [signal.getsignal(s) for s in (
            signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGFPE,
            signal.SIGUSR1)],
        "threads": threading.active_count(),
        "open files": len(os.listdir("/proc/self/fd")),
    }
    try:
        import sklearn
        out["scikit-learn configuration"] = repr(sklearn.get_config())
    except ImportError:
        pass
    return out


class unusual:
    """Unusual but harmless settings, undone on exit."""

    def __init__(self, rng):
        self.rng = rng

    def __enter__(self):
        rng = self.rng
        self.err = np.geterr()
        np.seterr(**{k: str(rng.choice(["ignore", "warn"]))
                     for k in ("divide", "over", "under", "invalid")})
        self.po = np.get_printoptions()
        np.set_printoptions(precision=int(rng.integers(1, 12)),
                            suppress=bool(rng.random() < .5),
                            threshold=int(rng.integers(5, 2000)))
        self.cw = warnings.catch_warnings()
        self.cw.__enter__()
        warnings.filterwarnings("ignore", message="unusual %d"
                                % rng.integers(1000))
        self.lv = [(logging.getLogger(n), logging.getLogger(n).level)
                   for n in ("hmmlearn", "hmmlearn.base")]
        for g, _ in self.lv:
            g.setLevel(int(rng.choice([0, 10, 30, 35, 50])))
        np.random.seed(int(rng.integers(1 << 30)))
        if rng.random() < .5:
            np.random.standard_normal()       # a cached Gaussian deviate
        return self

    def __exit__(self, *a):
        for g, v in self.lv:
            g.setLevel(v)
        self.cw.__exit__(None, None, None)
        np.set_printoptions(**self.po)
        np.seterr(**self.err)


def compare(ctx, was, now, what):
    bad = [k for k in was if was[k] != now[k]]
    ctx.check(not bad, "settings", f"{what} changed the process's "
              f"{', '.join(bad)}", was={k: repr(was[k])[:300] for k in bad},
              now={k: repr(now[k])[:300] for k in bad})


# -------------------------------------------------------------------- subjects

def subject(ctx, T):
    """(family, spec, data, lengths, a function making a fresh model)."""
    rng, H = ctx.rng, ctx.H
    seed = int(rng.integers(1 << 20))
    if rng.random() < .25:
        t = vb.make(ctx, T=40)
        spec = t.src
        pri = t.pri

        def new(n_iter, init):
            args = dict(n_iter=n_iter, implementation="log", params=t.params,
                        random_state=seed, tol=-np.inf, **vb.copies(pri))
            if t.fam == "vcat":
                args["n_features"] = t.nf
            return vb.build(H, t.fam, t.nc, **args)
        fam, nc, given = t.fam, t.nc, False
    else:
        t = train.make(ctx, T=40)
        spec, fam, nc = t.spec, t.fam, t.spec["nc"]
        given = rng.random() < .5

        def new(n_iter, init):
            if given and not init:
                return train.model(ctx, t, n_iter=n_iter, containers=False,
                                   random_state=seed)
            args = dict(implementation=t.impl, params=t.params, tol=-np.inf,
                        n_iter=n_iter, random_state=seed)
            args.update({k: (np.array(v) if isinstance(v, np.ndarray) else v)
                         for k, v in t.pri.items()})
            args.update(common.fit_kw(t.spec))
            return gen.cls_of(H, t.spec)(**gen.ctor_args(t.spec), **args)
    ctx.count("family:" + fam)
    ctx.cover(fam, spec.get("ct"), given)
    ctx.nontrivial = nc > 1
    s = type("S", (), {})()
    s.fam, s.spec, s.nc, s.new, s.t, s.given = fam, spec, nc, new, t, given
    return s


def draw(s, rng, T):
    X = np.ascontiguousarray(gen.sample(rng, s.spec, T))
    cut = int(rng.integers(1, T)) if rng.random() < .5 else None
    if X.dtype != float and rng.random() < .2:
        X = X.astype(np.int64)
    return X, (None if cut is None else [cut, T - cut])


def queries(s):
    return [("score", lambda m, X, L: m.score(X, L)),
            ("score_samples", lambda m, X, L: m.score_samples(X, L)),
            ("predict_proba", lambda m, X, L: m.predict_proba(X, L)),
            ("predict", lambda m, X, L: m.predict(X, L)),
            ("decode(viterbi)",
             lambda m, X, L: m.decode(X, L, algorithm="viterbi")),
            ("decode(map)", lambda m, X, L: m.decode(X, L, algorithm="map")),
            ("sample", lambda m, X, L: m.sample(len(X), random_state=3))] + (
        [] if s.fam.startswith("v") else [
            ("aic", lambda m, X, L: m.aic(X, L)),
            ("bic", lambda m, X, L: m.bic(X, L))])


def rejected(s):
    nf = s.spec["nf"]
    bad = np.full((3, nf + 3), -1.)
    return [("score of wrong data", lambda m, X, L: m.score(bad)),
            ("score of NaN", lambda m, X, L: m.score(X * np.nan, L)),
            ("predict with wrong lengths",
             lambda m, X, L: m.predict(X, [1, 10 ** 6])),
            ("unknown decoder",
             lambda m, X, L: m.decode(X, L, algorithm="magic")),
            ("unknown implementation", lambda m, X, L: type(m)(
                implementation="magic", random_state=0).fit(X, L)),
            ("fit of wrong data", lambda m, X, L: m.fit(bad)),
            ("fit of NaN", lambda m, X, L: m.fit(X * np.nan, L)),
            ("fit with wrong lengths",
             lambda m, X, L: m.fit(X, [1, 10 ** 6]))]


def quiet(fn, *a):
    """Call; True if it returned."""
    try:
        fn(*a)
        return True
    except Exception:
        return False


def fitted(ctx, s, X, L, n_iter=2):
    m = s.new(n_iter, False)
    ctx.counts["api_calls"] += 1
    try:
        m.fit(X, L)
    except ValueError:
        raise Skip("training refused")
    return m


def case_settings(ctx):
    rng = ctx.rng
    s = subject(ctx, 40)
    X, L = draw(s, rng, int(rng.integers(20, 90)))
    m = fitted(ctx, s, X, L)
    todo = queries(s) + rejected(s)
    for name, fn in todo:                                   # warm up
        quiet(fn, m, X, L)
    m = fitted(ctx, s, X, L)
    todo = ([todo[i] for i in rng.permutation(len(todo))]
            + [("fit", None), ("fit again", None), ("fit printed", None)])
    names = []
    with unusual(rng):
        was = settings()
        for i in rng.permutation(len(todo)):
            name, fn = todo[i]
            names.append(name)
            ctx.counts["api_calls"] += 1
            if fn is None:
                q = (m if name == "fit again" and s.given
                     else s.new(2, name != "fit"))
                if name == "fit printed":
                    q.verbose = True
                    keep = sys.stderr
                    sys.stderr = open(os.devnull, "w")
                    try:
                        quiet(q.fit, X, L)
                    finally:
                        sys.stderr.close()
                        sys.stderr = keep
                else:
                    quiet(q.fit, X, L)
                ctx.count("settings-fit")
            elif not quiet(fn, m, X, L):
                ctx.count("settings-rejected")
            gc.collect(0)
            compare(ctx, was, settings(), f"{s.fam}: {name}")
            ctx.count("settings")
    ctx.detail["calls"] = names


# ---------------------------------------------------------------------- memory

# NumPy and the interpreter keep small buffers for reuse (30 kB were seen);
# one 8-byte number for each of 8000 samples is more.
SMALL = 50000

def traced(fn):
    """(bytes that stay allocated, peak bytes) of a call."""
    gc.collect()
    on = tracemalloc.is_tracing()
    if not on:
        tracemalloc.start(1)
    try:
        a = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        fn()
        peak = tracemalloc.get_traced_memory()[1]
        gc.collect()
        return tracemalloc.get_traced_memory()[0] - a, peak - a
    finally:
        if not on:
            tracemalloc.stop()


def case_memory(ctx):
    rng = ctx.rng
    s = subject(ctx, 40)
    T = int(rng.integers(8000, 9000))
    Y, M = draw(s, rng, 60)
    X, L = draw(s, rng, T)
    X2 = np.concatenate([X, X[::-1]])
    L2 = None if L is None else L + L[::-1]
    todo = queries(s)
    # warm up with another model and less data
    m = fitted(ctx, s, Y, M, n_iter=1)
    h = 400
    for name, fn in todo + rejected(s):
        quiet(fn, m, X[:h], [h])
    quiet(s.new(2, True).fit, X[:h], [h])
    m = fitted(ctx, s, Y, M, n_iter=1)
    size = len(pickle.dumps(m))
    small = SMALL
    ctx.detail.update(T=T, lengths=L, family=s.fam)
    for i in rng.permutation(len(todo))[:3]:
        name, fn = todo[i]
        ctx.counts["api_calls"] += 2
        left, peak = traced(lambda: quiet(fn, m, X, L))
        ctx.check(left < small, "residue", f"{s.fam}: {left} bytes stay "
                  f"allocated after {name} of {T} samples")
        left, peak2 = traced(lambda: quiet(fn, m, X2, L2))
        ctx.check(left < small, "residue", f"{s.fam}: {left} bytes stay "
                  f"allocated after {name} of {2 * T} samples")
        ctx.count("no-residue")
        ctx.check(peak2 < 2.5 * peak + 40000, "linear", f"{s.fam}: {name} "
                  f"needs {peak} bytes for {T} and {peak2} for {2 * T} "
                  "samples")
        ctx.count("linear")
    grown = len(pickle.dumps(m)) - size
    ctx.check(grown < small, "pickled", f"{s.fam}: the pickled model grew by "
              f"{grown} bytes by queries on {T} samples")
    # rejected calls
    bad = rejected(s)
    for i in rng.permutation(len(bad))[:2]:
        name, fn = bad[i]
        left, _ = traced(lambda: quiet(fn, m, X, L))
        ctx.check(left < small, "residue", f"{s.fam}: {left} bytes stay "
                  f"allocated after {name} ({T} samples)")
        ctx.count("rejected-freed")
    # training
    kept = []

    def fit(X, L):
        q = s.new(2, True)
        if quiet(q.fit, X, L):
            kept.append(q)
    n0 = len(kept)
    left, peak = traced(lambda: fit(X, L))
    if len(kept) == n0:
        raise Skip("training refused")
    # The model itself is kept: its parameters do not depend on T.
    ctx.check(left < small + 3 * size, "residue", f"{s.fam}: {left} bytes "
              f"stay allocated after fit on {T} samples")
    left, peak2 = traced(lambda: fit(X2, L2))
    if len(kept) == 2:
        ctx.check(peak2 < 2.5 * peak + 40000, "linear", f"{s.fam}: fit needs "
                  f"{peak} bytes for {T} and {peak2} for {2 * T} samples")
        ctx.count("linear-fit")
        a, b = (len(pickle.dumps(q)) for q in kept)
        ctx.check(max(a, b) < size + small, "pickled", f"{s.fam}: pickled "
                  f"models trained on 60, {T} and {2 * T} samples have "
                  f"{size}, {a} and {b} bytes")
        ctx.count("pickled-size")
    # the caller's data and the model go away with their last reference
    q = kept[0]
    Z = np.array(X)
    ref = weakref.ref(Z)
    wl = None
    if L is not None:
        N = np.array(L)
        wl = weakref.ref(N)
    else:
        N = None
    for name, fn in todo + bad[:4]:
        if name != "sample":
            quiet(fn, q, Z, N)
    if rng.random() < .7:
        quiet(s.new(1, False).fit, Z, N)
        q2 = s.new(1, True)
        quiet(q2.fit, Z, N)
    else:
        q2 = None
    del Z, N
    gc.collect()
    ctx.check(ref() is None and (wl is None or wl() is None), "data-freed",
              f"{s.fam}: the model keeps the data it was given alive")
    ctx.count("data-freed")
    mref = weakref.ref(q)
    del q, kept[:], m, q2
    gc.collect()
    ctx.check(mref() is None, "model-freed", f"{s.fam}: a model without "
              "references stays alive")
    ctx.count("model-freed")


def case(ctx):
    (case_settings if ctx.rng.random() < .75 else case_memory)(ctx)
