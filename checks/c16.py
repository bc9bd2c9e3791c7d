"""C16: inference is pure and inputs are never modified."""
import copy

import numpy as np

from checks.c15 import compare, freeze, same_params
from lib import common, gen, train, vb

CASES = {"quick": 900, "thorough": 12000}
RULE = ("models of every family, covariance type and variational kind, hand-"
        "set or fitted; random interleavings of 6-20 calls of all inference "
        "methods on several data sets, valid and rejected, each answer "
        "compared with the answer of an untouched copy, the model's state "
        "compared before and after every call; every array passed in "
        "(strided, read-only, Fortran, moated) compared byte for byte after "
        "every method including fit; every returned array overwritten; "
        "non-trivial = more than one state")
REQUIRED = ["interleaved", "pure", "input-X", "input-lengths",
            "input-parameters", "input-priors", "returned-overwritten",
            "rejected-call", "in-place-parameter", "data-detached",
            "variational", "read-only"]
ASSUMPTIONS = ["single-threaded BLAS and OpenMP (set by the harness)"]


class Watch:
    """Byte-level snapshots of caller-owned objects."""

    def __init__(self):
        self.items = []

    def add(self, kind, x):
        if x is None:
            return x
        if isinstance(x, np.ndarray):
            root = x
            while isinstance(root.base, np.ndarray):
                root = root.base
            self.items.append((kind, root, root.tobytes(), root.shape,
                               root.dtype, x.flags.writeable, x))
        else:
            self.items.append((kind, x, copy.deepcopy(x), None, None, None,
                               x))
        return x

    def verify(self, ctx, what):
        for kind, o, was, shape, dt, wr, x in self.items:
            if isinstance(o, np.ndarray):
                ok = (o.tobytes() == was and o.shape == shape
                      and o.dtype == dt and x.flags.writeable == wr)
            else:
                ok = o == was and type(o) is type(was)
            ctx.check(ok, "input-" + kind, f"{what} modified the caller's "
                      f"{kind}", now=np.array(x) if ok is False else None)
            ctx.count("input-" + kind)


def public(m):
    """Parameter values: attributes ending in '_' as plain arrays."""
    out = {}
    for k in list(vars(m)) + ["covars_"]:
        if not k.endswith("_") or k.startswith("__") or k == "monitor_":
            continue
        try:
            v = getattr(m, k)
        except AttributeError:
            continue
        try:
            out[k] = np.array(v, dtype=float)
        except (TypeError, ValueError):
            out[k] = repr(v)
    return out


def same_public(a, b):
    return [k for k in a if k not in b or not (
        a[k] == b[k] if isinstance(a[k], str) or isinstance(b[k], str)
        else np.array_equal(a[k], b[k], equal_nan=True))]


def subject(ctx, w):
    rng = ctx.rng
    kw = dict(random_state=int(rng.integers(1 << 20)),
              algorithm=str(rng.choice(["viterbi", "map"])))
    s = type("Subject", (), {})()
    s.fitted = True
    if rng.random() < .25:
        t = vb.make(ctx, T=int(rng.choice([20, 60])))
        t.impl = "log"
        pri = vb.copies(t.pri)
        for k, v in pri.items():
            w.add("priors", v)
        args = dict(n_iter=int(rng.integers(1, 4)), implementation="log",
                    params=t.params, **pri, **kw)
        if t.fam == "vcat":
            args["n_features"] = t.nf
        m = vb.build(ctx.H, t.fam, t.nc, **args)
        s.nc, s.spec = t.nc, t.src
        ctx.count("variational")
    else:
        t = train.make(ctx, T=int(rng.choice([20, 60])))
        pri = vb.copies(t.pri)
        for k, v in pri.items():
            w.add("priors", v)
        s.fitted = bool(rng.random() < .5)
        args = dict(n_iter=int(rng.integers(1, 4)), params=t.params,
                    implementation=t.impl, **pri,
                    **gen.ctor_args(t.spec), **kw)
        if t.spec["family"] == "cat":
            args["n_features"] = t.spec["nf"]
        warm = s.fitted and rng.random() < .6
        if warm:
            args["init_params"] = ""
        m = gen.cls_of(ctx.H, t.spec)(**args)
        if warm or not s.fitted:
            if t.spec["family"] == "gauss":
                m.n_features = t.spec["nf"]
            for a in gen.attrs_of(t.spec):
                v = gen.container(rng, np.array(t.spec[a], float),
                                  lists=t.spec["family"] != "gmm")
                w.add("parameters", v)
                setattr(m, a + "_", v)
        s.nc, s.spec = t.spec["nc"], t.spec
    s.t, s.m, s.fam = t, m, t.fam
    X = gen.x_container(rng, t.X)
    if rng.random() < .4 and isinstance(X, np.ndarray):
        X.flags.writeable = False
        ctx.count("read-only")
    L = gen.len_container(rng, t.lengths)
    if isinstance(L, np.ndarray) and rng.random() < .5:
        L.flags.writeable = False
    s.X, s.L = w.add("X", X), w.add("lengths", L)
    par = freeze(m.get_params())
    if s.fitted:
        if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < s.nc:
            return None
        ctx.counts["api_calls"] += 1
        try:
            m.fit(s.X, s.L)
        except ValueError as e:
            # Degenerate data; but never because an input is read-only.
            ctx.check("read-only" not in str(e), "input-X", f"fit: {e}")
            return None
        w.verify(ctx, "fit")
        same_params(ctx, m, par, "fit",
                    skip=[k for k in ("n_features",) if par.get(k) is None])
        if isinstance(s.X, np.ndarray) and rng.random() < .5:
            # The fitted model does not depend on the caller's data any more.
            before = public(m)
            keep = s.X.copy()
            ro = s.X.flags.writeable
            s.X.flags.writeable = True
            s.X[...] = 0
            ctx.check(not same_public(before, public(m)), "data-detached",
                      f"{s.fam}: overwriting X after fit changed "
                      f"{same_public(before, public(m))}")
            s.X[...] = keep
            s.X.flags.writeable = ro
            ctx.count("data-detached")
    ctx.cover(s.fam, t.impl, s.fitted)
    return s


def calls(ctx, s, w):
    """Named calls (name, function of a model)."""
    rng, t = ctx.rng, s.t
    data = [(s.X, s.L)]
    for _ in range(2):
        n = int(rng.integers(1, 25))
        Y = gen.sample(rng, s.spec, n)
        L = gen.partition(rng, n)
        data.append((w.add("X", gen.x_container(rng, Y)),
                     w.add("lengths", gen.len_container(rng, L))))
    out = []
    for X, L in data:
        out += [("score", lambda m, X=X, L=L: m.score(X, L)),
                ("score_samples", lambda m, X=X, L=L: m.score_samples(X, L)),
                ("predict", lambda m, X=X, L=L: m.predict(X, L)),
                ("predict_proba", lambda m, X=X, L=L: m.predict_proba(X, L)),
                ("decode", lambda m, X=X, L=L: m.decode(X, L)),
                ("decode-viterbi", lambda m, X=X, L=L: m.decode(
                    X, L, algorithm="viterbi")),
                ("decode-map", lambda m, X=X, L=L: m.decode(
                    X, L, algorithm="map"))]
        if hasattr(s.m, "aic"):
            out += [("aic", lambda m, X=X, L=L: m.aic(X, L)),
                    ("bic", lambda m, X=X, L=L: m.bic(X, L))]
    seed = int(rng.integers(1000))
    out += [("sample", lambda m: m.sample(7, random_state=seed)),
            ("sample-own", lambda m: m.sample(5)),
            ("sample-cur", lambda m: m.sample(
                4, random_state=seed, currstate=s.nc - 1)),
            ("stationary", lambda m: m.get_stationary_distribution())]
    bad = [np.full((3, s.spec["nf"] + 3), -1), np.array([[np.nan] * 2]),
           np.zeros(3), np.zeros((0, 1)), None, "x"]
    for i in rng.permutation(len(bad))[:2]:
        out.append(("rejected", lambda m, B=bad[i]: m.score(B)))
        out.append(("rejected", lambda m, B=bad[i]: m.decode(B)))
    X0 = s.X
    out.append(("rejected", lambda m: m.predict(X0, [1, 10 ** 6])))
    out.append(("rejected", lambda m: m.decode(X0, algorithm="magic")))
    return out


def answer(ctx, fn, m):
    ctx.counts["api_calls"] += 1
    try:
        r = fn(m)
    except Exception as e:
        return {"e": type(e).__name__}, []
    r = r if isinstance(r, tuple) else (r,)
    return {str(i): np.array(q) for i, q in enumerate(r)}, [
        q for q in r if isinstance(q, np.ndarray)]


def case(ctx):
    rng = ctx.rng
    w = Watch()
    s = subject(ctx, w)
    if s is None:
        return
    m = s.m
    base = copy.deepcopy(m)
    par = freeze(m.get_params())
    skip = [k for k in ("n_features",) if k in par and par[k] is None]
    was = public(m)
    hist = list(m.monitor_.history)
    todo = calls(ctx, s, w)
    alone = {}
    n = int(rng.integers(6, 21))
    ctx.detail["calls"] = []
    for step in range(n):
        i = int(rng.integers(len(todo)))
        name, fn = todo[i]
        ctx.detail["calls"].append(name)
        if i not in alone:
            alone[i] = answer(ctx, fn, copy.deepcopy(base))[0]
        got, arrs = answer(ctx, fn, m)
        compare(ctx, alone[i], got, "interleaved",
                f"{s.fam}: {name} after {ctx.detail['calls'][:-1]}")
        ctx.count("interleaved")
        if name == "rejected":
            ctx.count("rejected-call")
        now = public(m)
        ctx.check(not same_public(was, now), "pure",
                  f"{s.fam}: {name} changed {same_public(was, now)}")
        ctx.check(list(m.monitor_.history) == hist, "pure",
                  f"{name} changed the monitor")
        ctx.count("pure")
        w.verify(ctx, name)
        for a in arrs:
            if a.flags.writeable and a.size:
                a[...] = 3 if a.dtype.kind in "iu" else -7.25
                ctx.count("returned-overwritten")
        w.verify(ctx, "overwriting the result of " + name)
        now = public(m)
        ctx.check(not same_public(was, now), "returned",
                  f"{s.fam}: overwriting the result of {name} changed "
                  f"{same_public(was, now)}")
    same_params(ctx, m, par, "inference", skip=skip)
    # Parameters modified in place are seen by the next call.
    if not s.fam.startswith("v"):
        k = int(rng.integers(3))
        tm = gen.fix_sum(rng.random((s.nc, s.nc)) + .05)
        sp = gen.fix_sum(rng.random(s.nc) + .05)
        q = copy.deepcopy(m)
        q.startprob_ = np.array(q.startprob_, float)
        q.transmat_ = np.array(q.transmat_, float)
        name, fn = todo[int(rng.integers(7))]
        answer(ctx, fn, q)
        if k != 0:
            q.startprob_[...] = sp
        if k != 1:
            q.transmat_[...] = tm
        f = copy.deepcopy(base)
        f.startprob_ = sp if k != 0 else np.array(f.startprob_)
        f.transmat_ = tm if k != 1 else np.array(f.transmat_)
        for j in rng.permutation(7)[:3]:
            name, fn = todo[j]
            compare(ctx, answer(ctx, fn, f)[0], answer(ctx, fn, q)[0],
                    "in-place-parameter",
                    f"{s.fam}: {name} after parameters changed in place")
        compare(ctx, answer(ctx, todo[-1 - 0][1], f)[0],
                answer(ctx, todo[-1 - 0][1], q)[0], "in-place-parameter", "")
        smp = [t for t in todo if t[0].startswith("sample")][0]
        compare(ctx, answer(ctx, smp[1], f)[0], answer(ctx, smp[1], q)[0],
                "in-place-parameter", f"{s.fam}: sample after parameters "
                "changed in place")
        ctx.count("in-place-parameter")
