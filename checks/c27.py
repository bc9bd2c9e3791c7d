"""C27: how data, lengths and parameters are stored does not matter."""
import os
import tempfile

import numpy as np

from checks import c24, c26
from lib import common, gen, ref, train, vb
from lib.runner import Skip

CASES = {"quick": 1500, "thorough": 22000}
RULE = ("pairs of executions that differ only in how the same numbers are "
        "handed over - data (every integer and float type that holds them "
        "exactly, byte orders, strided, reversed, Fortran, read-only, "
        "broadcast, memory-mapped, nested lists, object arrays), lengths, "
        "parameters, priors and numeric settings - must agree: scores, "
        "posteriors, paths, criteria, samples, training histories and trained "
        "parameters of EM and variational models, with given starts or "
        "initialised from the data; non-trivial = a storage other than the "
        "reference one and more than one state")
REQUIRED = (["family:" + f for f in gen.FAMS + vb.FAMS]
            + ["kind:infer", "kind:train", "kind:init", "kind:vb",
               "kind:stats",
               "impl:log", "impl:scaling", "compared", "sampled", "lengths",
               "parameters", "priors", "settings", "deviates-from-reference"]
            + ["X:" + k for k in (
                "narrow", "wide", "float32", "big-endian", "fortran",
                "strided", "reversed", "read-only", "list", "memmap",
                "slice")]
            + ["P:" + k for k in ("int", "float32", "big-endian", "fortran",
                                  "strided", "list", "read-only")])
ASSUMPTIONS = [
    "values are chosen so that every storage type used holds them exactly",
    "float32 (and int8, int16 covariance) parameters are judged to float32 "
    "precision",
    "initialisation from data runs in the precision of the data inside "
    "scikit-learn: narrow float types are not compared there",
    "mixture models take parameters as arrays, not lists"]


# -- storages -------------------------------------------------------------

def layout(rng, a, kind):
    """The values of *a* in another memory layout."""
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.zeros([2 * n + 3 for n in a.shape], a.dtype)
        big[...] = 77
        v = big[tuple(slice(1, 1 + 2 * n, 2) for n in a.shape)]
        v[...] = a
        return v
    if kind == "reversed":
        i = (slice(None, None, -1),) * a.ndim
        return np.ascontiguousarray(a[i])[i]
    if kind == "read-only":
        b = a.copy()
        b.flags.writeable = False
        return b
    if kind == "slice":
        big = np.concatenate([a[:1], a, a[-1:]])
        return big[1:-1]
    if kind == "list":
        return a.tolist()
    if kind == "rows":
        return [list(r) if np.ndim(r) else r for r in a]
    if kind == "big-endian":
        return a.astype(a.dtype.newbyteorder(">"))
    raise KeyError(kind)


def holds(dtype, X):
    with np.errstate(all="ignore"):
        Y = X.astype(dtype)
    return bool(np.array_equal(Y.astype(X.dtype), X))


NARROW = ["int8", "uint8", "int16", "uint16", "int32", "uint32"]


def store_X(ctx, X, exact=True):
    """X stored in some other way; returns (kind names, stored)."""
    rng = ctx.rng
    kinds = []
    count = X.dtype.kind in "iu"
    u = rng.random()
    if exact and u < .6:
        c = [d for d in NARROW if holds(d, X)] if count or gen.integral(X) \
            else []
        if not count:
            c += [d for d in ("float16", "float32", "float32")
                  if holds(d, X)] + ["longdouble"]
            if gen.integral(X):
                c.append("int64")
        elif X.min() >= 0:
            c.append("uint64")
        if c:
            d = c[int(rng.integers(len(c)))]
            X = X.astype(d)
            kinds.append("narrow" if d in NARROW else
                         d if d.startswith("float") else "wide")
    u = rng.random()
    k = ["fortran", "strided", "reversed", "read-only", "slice", "list",
         "rows", "big-endian", "memmap", "object", "none", "none"][
             int(rng.integers(12))]
    if k == "object":
        if count or X.dtype == np.longdouble:
            k = "none"
        else:
            X = X.astype(object)
    elif k == "memmap":
        if X.dtype == np.longdouble:
            k = "none"
        else:
            with tempfile.NamedTemporaryFile(dir=os.environ.get(
                    "TMPDIR", "/tmp")) as f:
                m = np.memmap(f.name, dtype=X.dtype, mode="w+",
                              shape=X.shape)
                m[...] = X
                m.flush()
                X = np.memmap(f.name, dtype=X.dtype, mode="r", shape=X.shape)
    elif k == "rows" and X.dtype == np.longdouble or (
            k in ("list", "rows") and X.dtype == np.uint64):
        k = "none"
    elif k == "big-endian" and X.dtype.itemsize == 1:
        k = "none"
    elif k != "none":
        X = layout(rng, X, k)
    if k != "none":
        kinds.append(k)
    for k in kinds:
        ctx.count("X:" + k)
    return kinds, X


def store_lengths(ctx, lengths, T):
    rng = ctx.rng
    if lengths is None:
        if rng.random() < .5:
            return None
        lengths = [T]
    elif list(lengths) == [T] and rng.random() < .3:
        return None
    ctx.count("lengths")
    a = np.array(lengths)
    k = rng.integers(8)
    if k == 0:
        return tuple(int(n) for n in lengths)
    if k == 1:
        return [np.int64(n) for n in lengths]
    if k == 2:
        return a.astype(">i4")
    if k == 3:
        return layout(rng, a, "strided")
    if k == 4:
        return layout(rng, a, "reversed")
    if k == 5:
        return layout(rng, a, "read-only")
    if k == 6:
        c = [d for d in NARROW + ["uint64"] if holds(d, a)]
        return a.astype(c[int(rng.integers(len(c)))])
    return [int(n) for n in lengths]


def store_param(ctx, name, v, lists=True, single=True):
    """A parameter or prior value stored in another way."""
    rng = ctx.rng
    v = np.asarray(v)
    kinds = []
    if rng.random() < .5:
        c = []
        if gen.integral(v):
            c += ["int64", "int32", "int8"] if holds("int8", v) else ["int64"]
        if single and holds("float32", v):
            c += ["float32"]
        if c:
            d = c[int(rng.integers(len(c)))]
            v = v.astype(d)
            kinds.append("int" if d.startswith("int") else "float32")
    if v.ndim:
        k = ["fortran", "strided", "reversed", "read-only", "list", "rows",
             "big-endian", "none"][int(rng.integers(8))]
        if k in ("list", "rows") and not lists:
            k = "none"
        if k == "big-endian" and v.dtype.itemsize == 1:
            k = "none"
        if k != "none":
            v = layout(rng, v, k)
            kinds.append(k)
    for k in kinds:
        ctx.count("P:" + k)
    return kinds, v


def store_number(ctx, v):
    """An int or float setting stored as another numeric type."""
    rng = ctx.rng
    if isinstance(v, (bool, np.bool_)) or v is None or isinstance(v, str):
        return v
    if np.ndim(v):
        return v
    c = []
    if isinstance(v, (int, np.integer)):
        c = [np.int64(v), np.int32(v), int(v)]
    elif isinstance(v, (float, np.floating)):
        c = [np.float64(v), float(v)]
        if float(np.float32(v)) == float(v):
            c.append(np.float32(v))
    return c[int(rng.integers(len(c)))] if c else v


# -- comparison -----------------------------------------------------------

def answers(ctx, m, X, lengths, sample=True):
    out = {}

    def run(name, fn, *a, **k):
        r = c26.attempt(ctx, lambda: fn(*a, **k))
        if isinstance(r, Exception):
            out[name] = r
            return
        for i, q in enumerate(r if isinstance(r, tuple) else (r,)):
            out[f"{name}[{i}]"] = np.asarray(q)
    run("score", m.score, X, lengths)
    run("score_samples", m.score_samples, X, lengths)
    run("predict_proba", m.predict_proba, X, lengths)
    run("viterbi", m.decode, X, lengths, algorithm="viterbi")
    run("map", m.decode, X, lengths, algorithm="map")
    run("predict", m.predict, X, lengths)
    for name in ("aic", "bic"):
        if hasattr(m, name):
            run(name, getattr(m, name), X, lengths)
    if sample:
        run("sample", m.sample, 6, random_state=3)
    return out


PATHS = ("viterbi[1]", "map[1]", "predict[0]", "sample[1]")


def compare(ctx, what, a, b, tol, spec=None, X=None, lengths=None,
            stol=None):
    """Answers of the two executions agree.  A path may differ between
    equally good ones; *spec* lets the oracle weigh them."""
    for k, v in a.items():
        w = b.get(k)
        if isinstance(v, Exception):
            ctx.check(isinstance(w, Exception), "raises",
                      f"{what}: {k} raised {v!r:.150} only in the reference "
                      "storage")
            ctx.count("both refuse")
            continue
        ctx.check(w is not None and not isinstance(w, Exception), "raises",
                  f"{what}: {k.partition('[')[0]} raised "
                  f"{b.get(k.partition('[')[0])!r:.200} but not in the "
                  "reference storage")
        ctx.check(v.shape == w.shape, "shape",
                  f"{what}: {k} has shape {w.shape}, not {v.shape}")
        if k.startswith("sample"):
            if stol is not None:
                ctx.close(w, v, "sample", stol, f"{what}: {k}")
                ctx.count("sampled")
        elif k in PATHS:
            if np.array_equal(v, w):
                continue
            ctx.count("paths differ")
            if k == "map[1]" or spec is None:
                G = a["predict_proba[0]"]
                i = np.arange(len(G))
                ctx.check(spec is None and k != "map[1]" or np.all(
                    np.abs(G[i, w] - G[i, v]) <= 1e-7 + 4 * tol), "path",
                    f"{what}: {k} differs")
            else:
                lpi, lA = ref.logs(spec)
                i, d = 0, 0.
                for s in ref.split(np.asarray(X), lengths):
                    lB = c26.log_em(spec, s)
                    j = slice(i, i + len(s))
                    with np.errstate(invalid="ignore"):
                        d += (ref.path_logprob(lpi, lA, lB, w[j])
                              - ref.path_logprob(lpi, lA, lB, v[j]))
                    i += len(s)
                if np.isfinite(a["viterbi[0]"]):
                    ctx.close(float(d), 0., "path", 10 * tol,
                              f"{what}: log probability of {k}")
        else:
            t = {"aic": 2, "bic": 2}.get(k[:3], 1) * tol
            ctx.check(np.array_equal(np.isnan(v), np.isnan(w)), "result",
                      f"{what}: {k}: NaN in one of the two")
            v, w = (
                np.where(np.isnan(q), 0., q) for q in (v, w))
            ctx.close(w, v, "result", t, f"{what}: {k}")
    ctx.count("compared")


def exact_spec(rng, spec, integer):
    """Round the parameters so that narrow types hold some of them."""
    s = dict(spec)
    for a in ("means", "lambdas", "covars"):
        if a not in s:
            continue
        v = np.asarray(s[a], float)
        if a == "covars":
            full = spec["ct"] in ("full", "tied")
            if integer and rng.random() < .4:
                n = spec["nf"]
                v = (np.zeros_like(v) + np.eye(n) * rng.integers(1, 5)
                     if full else np.ceil(np.maximum(v, 1)))
            elif not full:
                v = np.asarray(np.float32(v), float)
            else:
                v = np.asarray(np.float32(v), float)
        elif integer and rng.random() < .6:
            v = np.rint(v) + (a == "lambdas")
        else:
            v = np.asarray(np.float32(v), float)
        s[a] = v
    nc = spec["nc"]
    if integer and rng.random() < .3:
        s["startprob"] = np.eye(nc)[rng.integers(nc)]
    if integer and rng.random() < .2:
        s["transmat"] = np.eye(nc)[rng.permutation(nc)]
    if rng.random() < .3:
        s["startprob"] = np.full(nc, 1 / nc)
    return s


def exact_X(rng, X):
    if X.dtype.kind != "f":
        return np.asarray(X, dtype=np.int64)
    k = rng.integers(4)
    sc = float(np.abs(X).max()) or 1.
    if k == 0:
        return np.clip(np.rint(X * rng.choice([1., 8.])), -3e4, 3e4)
    if k == 1:
        return np.rint((X - X.min()) * rng.choice([1., 100 / sc]))
    if k == 2:
        return np.asarray(np.float32(X), float)
    return X


def assign(ctx, m, spec, store):
    """Set the parameters; returns True if a float32 one was used."""
    single = False
    if spec["family"] == "gauss":
        m.n_features = spec["nf"]
    for a in gen.attrs_of(spec):
        v = np.array(spec[a], float)
        if store and a != "table":
            kinds, v = store_param(ctx, a, v, lists=spec["family"] != "gmm")
            # scipy factorises matrices of these types in single precision
            if "float32" in kinds or (a == "covars" and np.asarray(
                    v).dtype.itemsize < 4):
                single = True
            if kinds:
                ctx.count("parameters")
        setattr(m, a + "_", v)
    return single


def settings(ctx, args, store):
    if store and ctx.rng.random() < .4:
        ctx.count("settings")
        return {k: store_number(ctx, v) for k, v in args.items()}
    return args


# -- cases ----------------------------------------------------------------

def infer(ctx):
    rng, H = ctx.rng, ctx.H
    fam = gen.FAMS[int(rng.integers(len(gen.FAMS)))]
    wide = rng.random() < .3
    spec = gen.make_spec(rng, fam, nf=gen.wide_nf(rng, fam) if wide else None)
    if wide:
        gen.widen(rng, spec)
    spec = exact_spec(rng, spec, integer=rng.random() < .5)
    T = int(rng.choice([1, 2, 7, 30, 150]))
    lengths = gen.partition(rng, T)
    X = gen.data(rng, spec, T, lengths)
    if fam != "table":
        X = exact_X(rng, X)
        if fam == "poisson" and rng.random() < .2:
            X = X + int(rng.choice([100, 126]))
    impl = str(rng.choice(["log", "scaling"]))
    args = gen.ctor_args(spec)
    args["implementation"] = impl
    cls = gen.cls_of(H, spec)
    m1, m2 = cls(**args), cls(**settings(ctx, args, True))
    assign(ctx, m1, spec, False)
    single = assign(ctx, m2, spec, True)
    kinds, X2 = store_X(ctx, X)
    L2 = store_lengths(ctx, lengths, T)
    what = f"{fam} ({impl}), X {'/'.join(kinds) or 'as is'}"
    ctx.detail.update(family=fam, X=X, lengths=lengths, stored=kinds,
                      params={a: spec[a] for a in gen.attrs_of(spec)},
                      stored_params={a: getattr(m2, a + "_") for a in
                                     gen.attrs_of(spec) if a != "covars"})
    ctx.feed(fam, X, str(lengths), str(kinds), *[np.asarray(spec[a]) for a in
                                                 gen.attrs_of(spec)])
    ctx.nontrivial = spec["nc"] > 1
    ctx.cover("infer", fam, impl, *kinds)
    for f in ("kind:infer", "family:" + fam, "impl:" + impl):
        ctx.count(f)
    mag = c26.magnitude(spec, X)
    a = answers(ctx, m1, X, lengths, sample=fam != "table")
    b = answers(ctx, m2, X2, L2, sample=fam != "table")
    tol = (1e-5 * (1 + mag) if single else
           1e-9 + 1e-11 * mag + 1e-12 * T)
    sc = 1 + max((float(np.abs(spec[p]).max()) for p in ("means", "covars",
                                                         "lambdas")
                  if p in spec), default=0.)
    if kinds or L2 is not lengths:
        ctx.count("deviates-from-reference")
    compare(ctx, what, a, b, tol, None if single else spec, X, lengths,
            stol=None if single else 1e-9 * sc)


def compare_fits(ctx, what, e1, e2, m1, m2, names, tol=1e-6, clean=None):
    if isinstance(e1, Exception) or isinstance(e2, Exception):
        if isinstance(e1, Exception) and isinstance(e2, Exception):
            ctx.count("both refuse")
            raise Skip("both refuse")
        # numerical trouble may depend on rounding; anything else may not
        if isinstance(e1 if isinstance(e1, Exception) else e2, (
                ValueError, ArithmeticError, np.linalg.LinAlgError)) \
                and clean is not None and not clean():
            raise Skip("degenerate training")
        ctx.check(False, "raises", f"{what}: fit in the reference storage: "
                  f"{e1!r:.200}; as stored: {e2!r:.200}")
    if clean is not None and not clean():
        raise Skip("degenerate training")
    h1 = np.array(list(m1.monitor_.history))
    h2 = np.array(list(m2.monitor_.history))
    ctx.check(h1.shape == h2.shape, "history",
              f"{what}: {len(h1)} and {len(h2)} iterations")
    ctx.close(h2, h1, "history",
              .1 * tol * (1 + np.abs(h1).max(initial=0)),
              f"{what}: training history")
    for a in names:
        v = np.asarray(getattr(m1, a), float)
        w = np.asarray(getattr(m2, a), float)
        ctx.check(v.shape == w.shape, "shape",
                  f"{what}: {a} has shape {w.shape}, not {v.shape}")
        ctx.close(w, v, "trained-" + a, tol * (1e-3 + np.abs(v).max()),
                  f"{what}: trained {a}")
    ctx.count("compared")


def store_priors(ctx, pri, store, lists):
    out = {}
    for k, v in pri.items():
        if not store:
            out[k] = np.array(v) if isinstance(v, np.ndarray) else v
        elif np.ndim(v):
            kinds, out[k] = store_param(ctx, k, v, lists=lists)
            ctx.count("priors")
        else:
            out[k] = store_number(ctx, v)
    return out


def train_case(ctx):
    rng, H = ctx.rng, ctx.H
    t = train.make(ctx, T=int(rng.choice([30, 80, 250, 600])),
                   wide=rng.random() < .3)
    t.spec = spec = exact_spec(rng, t.spec, integer=False)
    if spec["family"] in ("gauss", "gmm") and rng.random() < .3:
        spec["means"] = np.rint(spec["means"])
        if rng.random() < .5:
            v = np.asarray(spec["covars"])
            spec["covars"] = (
                np.ceil(v) if spec["ct"] in ("diag", "spherical") else
                np.zeros_like(v) + np.eye(spec["nf"]) * float(
                    rng.integers(1, 4)))
    t.X = exact_X(rng, t.X) if t.X.dtype.kind != "f" or rng.random() < .5 \
        else np.asarray(np.float32(t.X), float)
    n_iter = int(rng.integers(1, 4))
    args = gen.ctor_args(spec)
    args.update(implementation=t.impl, params=t.params, init_params="",
                tol=-np.inf, n_iter=n_iter)
    args.update(common.fit_kw(spec))
    lists = False
    cls = gen.cls_of(H, spec)
    m1 = cls(**args, **store_priors(ctx, t.pri, False, lists))
    m2 = cls(**settings(ctx, args, True),
             **store_priors(ctx, t.pri, True, lists))
    assign(ctx, m1, spec, False)
    single = assign(ctx, m2, spec, True)
    kinds, X2 = store_X(ctx, t.X)
    L2 = store_lengths(ctx, t.lengths, t.T)
    what = (f"{t.fam} ({t.impl}), X {'/'.join(kinds) or 'as is'}, params "
            f"{t.params!r}, {n_iter} iterations")
    ctx.detail.update(X=t.X, stored=kinds, start={
        a: spec[a] for a in gen.attrs_of(spec)})
    ctx.feed(t.X, str(kinds))
    ctx.cover("train", t.fam, t.impl, t.kind, *kinds)
    for f in ("kind:train", "family:" + t.fam, "impl:" + t.impl):
        ctx.count(f)
    sound = not train.may_collapse(spec, t.X, t.lengths)
    e1 = c26.attempt(ctx, m1.fit, t.X, t.lengths)
    e2 = c26.attempt(ctx, m2.fit, X2, L2)

    def clean():
        ok = m2 if isinstance(e1, Exception) else m1
        return sound and not train.may_collapse(gen.read(ok, spec), t.X,
                                                t.lengths)
    if kinds or L2 is not t.lengths:
        ctx.count("deviates-from-reference")
    compare_fits(ctx, what, e1, e2, m1, m2,
                 [a + "_" for a in gen.attrs_of(spec) if a != "table"],
                 1e-3 if single else 1e-6, clean)


def init_case(ctx):
    """Trained from what the library makes of the data."""
    rng, H = ctx.rng, ctx.H
    t = train.make(ctx, T=int(rng.choice([40, 120])),
                   wide=rng.random() < .3,
                   fams=[f for f in gen.FAMS if f != "table"])
    spec = t.spec
    t.X = t.X if t.X.dtype.kind == "f" else np.asarray(t.X, np.int64)
    args = gen.ctor_args(spec)
    args.update(implementation=t.impl, tol=-np.inf,
                n_iter=int(rng.integers(0, 3)),
                random_state=int(rng.integers(1 << 20)))
    args.update(common.fit_kw(spec))
    cls = gen.cls_of(H, spec)
    m1, m2 = cls(**args), cls(**settings(ctx, args, True))
    kinds, X2 = store_X(ctx, t.X, exact=t.X.dtype.kind != "f")
    L2 = store_lengths(ctx, t.lengths, t.T)
    what = (f"{t.fam} ({t.impl}), X {'/'.join(kinds) or 'as is'}, "
            f"initialised from data, {args['n_iter']} iterations")
    ctx.detail.update(X=t.X, stored=kinds)
    ctx.feed(t.X, str(kinds), args["random_state"])
    ctx.cover("init", t.fam, t.impl, *kinds)
    for f in ("kind:init", "family:" + t.fam, "impl:" + t.impl):
        ctx.count(f)
    e1 = c26.attempt(ctx, m1.fit, t.X, t.lengths)
    e2 = c26.attempt(ctx, m2.fit, X2, L2)

    def clean():
        ok = m2 if isinstance(e1, Exception) else m1
        return not train.may_collapse(gen.read(ok, spec), t.X, t.lengths)
    if kinds or L2 is not t.lengths:
        ctx.count("deviates-from-reference")
    compare_fits(ctx, what, e1, e2, m1, m2,
                 [a + "_" for a in gen.attrs_of(spec)], 1e-6, clean)


def vb_case(ctx):
    rng = ctx.rng
    t = vb.make(ctx, T=int(rng.choice([20, 60, 150])),
                wide=rng.random() < .3)
    t.X = exact_X(rng, t.X) if t.X.dtype.kind != "f" or rng.random() < .5 \
        else np.asarray(np.float32(t.X), float)
    n_iter = int(rng.integers(1, 4))
    m1 = vb.model(ctx, t, n_iter=n_iter)
    c24.random_start(ctx, m1, t)
    pri = t.pri
    t.pri = store_priors(ctx, pri, True, False)
    m2 = vb.model(ctx, t, n_iter=n_iter, init_params="")
    t.pri = pri
    if t.fam == "vcat":
        m2.n_features = t.nf
    names = vb.post_attrs(t.fam) + vb.prior_attrs(t.fam)
    for a in names:
        v = np.array(getattr(m1, a))
        if v.ndim:
            _, v = store_param(ctx, a, v, lists=False, single=False)
            ctx.count("parameters")
        else:
            v = store_number(ctx, float(v))
        setattr(m2, a, v)
    kinds, X2 = store_X(ctx, t.X)
    L2 = store_lengths(ctx, t.lengths, t.T)
    what = (f"{t.fam} ({t.impl}), X {'/'.join(kinds) or 'as is'}, params "
            f"{t.params!r}, {n_iter} iterations")
    ctx.detail.update(X=t.X, stored=kinds)
    ctx.feed(t.X, str(kinds))
    ctx.cover("vb", t.fam, t.impl, *kinds)
    for f in ("kind:vb", "family:" + t.fam, "impl:" + t.impl):
        ctx.count(f)
    e1 = c26.attempt(ctx, m1.fit, t.X, t.lengths)
    e2 = c26.attempt(ctx, m2.fit, X2, L2)
    if kinds or L2 is not t.lengths:
        ctx.count("deviates-from-reference")
    compare_fits(ctx, what, e1, e2, m1, m2,
                 names + ["startprob_", "transmat_"])
    if t.impl == "log" and len(m1.monitor_.history):
        mag = 1e3 * (t.T + float(np.abs(list(m1.monitor_.history)).max()))
        compare(ctx, what, answers(ctx, m1, t.X, t.lengths, False),
                answers(ctx, m2, X2, L2, False), 1e-9 + 1e-9 * mag)


def stats_case(ctx):
    """The public density function takes array-likes of any type."""
    rng, H = ctx.rng, ctx.H
    fam = "gauss:" + str(rng.choice(["spherical", "diag", "full", "tied"]))
    spec = exact_spec(rng, gen.make_spec(rng, fam), rng.random() < .7)
    X = exact_X(rng, gen.data(rng, spec, int(rng.choice([1, 5, 40]))))
    ref_args = [X] + [np.array(spec[a], float) for a in ("means", "covars")]
    kinds, X2 = store_X(ctx, X)
    args, single = [X2], False
    for a in ("means", "covars"):
        k, v = store_param(ctx, a, np.array(spec[a], float))
        single |= "float32" in k
        args.append(v)
    f = H.stats.log_multivariate_normal_density
    what = f"log_multivariate_normal_density ({fam}), X {'/'.join(kinds)}"
    ctx.detail.update(X=X, means=spec["means"], covars=spec["covars"],
                      types=[str(getattr(a, "dtype", type(a))) for a in args])
    ctx.feed(fam, X, spec["means"], spec["covars"], str(kinds))
    ctx.nontrivial = bool(kinds)
    ctx.cover("stats", fam, *kinds)
    ctx.count("kind:stats")
    a = ctx.api("density", f, *ref_args, spec["ct"])
    b = ctx.api("density", f, *args, spec["ct"])
    mag = np.abs(np.asarray(a))
    ctx.close(b, a, "density",
              (1e-5 if single else 1e-11) * (1 + mag), what)


def case(ctx):
    u = ctx.rng.random()
    if u < .05:
        return stats_case(ctx)
    u = ctx.rng.random()
    (infer if u < .45 else train_case if u < .7 else init_case if u < .82
     else vb_case)(ctx)
