"""C17: invalid parameters and data are rejected, not silently used."""
import numpy as np

from lib import common, gen, vb
from lib.runner import Skip

CASES = {"quick": 2400, "thorough": 30000}
RULE = ("a valid model of every family and covariance type with valid data "
        "(control: every call succeeds), then one defect - in a parameter, "
        "in a setting, in the data or in lengths - and every method that "
        "takes it must raise; unfitted and partly set models; non-trivial = "
        "a defect was rejected by at least one method")
DEFECTS_PARAM = ["startprob-sum", "startprob-shape", "transmat-sum",
                 "transmat-shape", "emission-sum", "emission-shape",
                 "weights-sum", "weights-shape", "covars-sign",
                 "covars-asymmetric", "covars-indefinite", "covars-shape",
                 "means-shape"]
DEFECTS_SET = ["covariance_type", "algorithm", "implementation"]
DEFECTS_DATA = ["nan", "inf", "1d", "3d", "empty", "text", "features",
                "negative-symbol", "float-symbol", "bool-symbol",
                "large-symbol", "trials", "float-counts"]
DEFECTS_LEN = ["too-short", "too-long", "zero", "negative", "empty-lengths"]
DEFECTS_STATE = ["unfitted", "partly-set"]
REQUIRED = (["rejected:" + d for d in DEFECTS_PARAM + DEFECTS_SET
             + DEFECTS_DATA + DEFECTS_LEN + DEFECTS_STATE]
            + ["control", "variational"])
ASSUMPTIONS = [
    "a probability vector off by less than 1e-3 is not judged (rounding is "
    "tolerated by design)",
    "'implementation' is judged on the calls that run forward-backward only",
    "the point estimates of variational models are derived from their "
    "posteriors, so only data, lengths and settings are judged there"]


def methods(m, algo=None):
    """name -> call(X, L)"""
    out = {
        "score": lambda X, L: m.score(X, L),
        "score_samples": lambda X, L: m.score_samples(X, L),
        "predict": lambda X, L: m.predict(X, L),
        "predict_proba": lambda X, L: m.predict_proba(X, L),
        "decode": lambda X, L: m.decode(X, L),
        "decode-map": lambda X, L: m.decode(X, L, algorithm="map"),
        "decode-viterbi": lambda X, L: m.decode(X, L, algorithm="viterbi"),
    }
    if hasattr(m, "aic"):
        out["aic"] = lambda X, L: m.aic(X, L)
        out["bic"] = lambda X, L: m.bic(X, L)
    return out


def stochastic(rng, *shape):
    return gen.fix_sum(rng.random(shape) + .05)


def wrong_sum(rng, a):
    """One distribution of the array no longer sums to one."""
    a = np.array(a, float)
    rows = a.reshape(-1, a.shape[-1])
    i = int(rng.integers(len(rows)))
    k = int(rng.integers(4))
    if k == 0:
        rows[i] *= float(rng.choice([.99, 1.01, .5, 2., 1e-3, 1e3]))
    elif k == 1:
        rows[i] = 0
    elif k == 2:
        j = int(rng.integers(a.shape[-1]))
        rows[i, j] += float(rng.choice([.01, -.01, .3]))
    else:
        rows[i, int(rng.integers(a.shape[-1]))] = np.nan
    return a


def wrong_shape(rng, shape):
    """Another valid-looking array of distributions of the wrong shape."""
    shape = list(shape)
    opts = []
    for ax in range(len(shape)):
        for d in (-1, 1):
            s = list(shape)
            s[ax] += d
            if s[ax] >= 1:
                opts.append(s)
    opts.append([2] + shape)
    if len(shape) > 1:
        opts.append(shape[:-1] + [shape[-1] + 2])
    if len(shape) == 1:
        opts.append([shape[0], shape[0]])
        opts.append([shape[0], 2])
    s = opts[int(rng.integers(len(opts)))]
    return stochastic(rng, *s)


def bad_covars(ctx, rng, spec, defect):
    """(value, applies)"""
    nc, nf, ct = spec["nc"], spec["nf"], spec["ct"]
    c = np.array(spec["covars"], float)
    if defect == "covars-sign":
        if ct in ("full", "tied"):
            i = tuple(rng.integers(n) for n in c.shape[:-2])
            c[i] = -c[i]
            return c
        i = tuple(rng.integers(n) for n in c.shape)
        c[i] = float(rng.choice([-1., -1e-3])) * c[i]
        return c
    if defect == "covars-asymmetric":
        if ct not in ("full", "tied") or nf < 2:
            return None
        i = tuple(rng.integers(n) for n in c.shape[:-2])
        c[i][0, 1] += .3 * np.sqrt(c[i][0, 0] * c[i][1, 1])
        return c
    if defect == "covars-indefinite":
        if ct not in ("full", "tied") or nf < 2:
            return None
        i = tuple(rng.integers(n) for n in c.shape[:-2])
        v = 1.5 * np.sqrt(c[i][0, 0] * c[i][1, 1])
        c[i][0, 1] = c[i][1, 0] = v
        return c
    # shape
    k = int(rng.integers(4))
    lead = list(c.shape)
    if k == 0:                                   # one state too many
        if ct == "tied" and spec["family"] == "gauss":
            return None
        return np.concatenate([c, c[:1]])
    if k == 1:                                   # one state too few
        if ct == "tied" and spec["family"] == "gauss" or nc < 2:
            return None
        return c[:-1]
    if k == 2:                                   # another number of features
        one = np.abs(c).max()
        if ct == "spherical":
            return None
        if ct == "diag":
            if spec["family"] == "gauss" and nf == 1:
                return None
            return np.full(lead[:-1] + [nf + 1], one)
        return np.broadcast_to(one * np.eye(nf + 1),
                               lead[:-2] + [nf + 1, nf + 1]).copy()
    # the layout of another covariance type
    if ct in ("full", "tied"):
        return np.abs(c).max() * np.ones(lead[:-1])
    if ct == "diag":
        return np.abs(c).max() * np.ones(lead + [nf])
    if spec["family"] == "gauss":
        return None             # one variance per state, in any layout
    return np.abs(c).max() * np.ones(lead + [nf, nf])


def attempt(ctx, defect, name, fn, what=""):
    """fn must raise."""
    e = ctx.raises(name, fn)
    ctx.check(e is not None, "rejected", f"{ctx.detail.get('family')}: "
              f"{defect} {what}: {name} returned a result")
    ctx.count("rejected:" + defect)
    ctx.cover(defect, name, str(ctx.detail.get("family")))
    ctx.nontrivial = True


def control_fit(ctx, m, X, lengths):
    """Training on valid, but possibly degenerate data may fail."""
    try:
        with np.errstate(all="ignore"):
            m.fit(X, lengths)
    except ValueError as e:
        raise Skip(f"degenerate data: {e}")
    ctx.counts["api_calls"] += 1


def fit_model(ctx, spec, X, warm=True, **kw):
    args = dict(n_iter=2, init_params="" if warm else gen.all_params(spec),
                random_state=0, **common.fit_kw(spec))
    args.update(kw)
    if warm:
        return gen.build(ctx.H, spec, None, **args)
    return gen.cls_of(ctx.H, spec)(**{**gen.ctor_args(spec), **args})


def params(ctx):
    rng = ctx.rng
    fam = gen.REAL_FAMS[int(rng.integers(len(gen.REAL_FAMS)))]
    spec = gen.make_spec(rng, fam, mild=True)
    base, nc, nf = spec["family"], spec["nc"], spec["nf"]
    n = int(rng.integers(2, 15))
    lengths = gen.partition(rng, n)
    X = gen.sample(rng, spec, n, lengths)
    opts = [d for d in DEFECTS_PARAM if
            d.startswith(("startprob", "transmat"))
            or d.startswith("emission") and base in ("cat", "multi")
            or d.startswith("weights") and base == "gmm"
            or d.startswith(("covars", "means")) and base in ("gauss", "gmm")]
    defect = str(rng.choice(opts))
    attr = {"startprob": "startprob", "transmat": "transmat",
            "emission": "emissionprob", "weights": "weights",
            "covars": "covars", "means": "means"}[defect.split("-")[0]]
    if attr == "covars":
        bad = bad_covars(ctx, rng, spec, defect)
        if bad is None:
            return
    elif attr == "means":
        bad = wrong_shape(rng, np.shape(spec[attr])) * 3
        if (spec.get("ct") == "spherical" and base == "gauss"
                and bad.shape[0] == nc):
            return              # a model of more features
    elif defect.endswith("sum"):
        bad = wrong_sum(rng, spec[attr])
    else:
        if base == "cat" and attr == "emissionprob":
            # without n_features any number of symbols is legitimate
            bad = stochastic(rng, nc + int(rng.choice([1, 2])), nf)
        elif base == "multi" and attr == "emissionprob":
            bad = stochastic(rng, nc + 1, nf)
        else:
            bad = wrong_shape(rng, np.shape(spec[attr]))
    impl = str(rng.choice(["log", "scaling"]))
    ctx.detail.update(family=fam, defect=defect, bad=bad, impl=impl, X=X,
                      lengths=lengths, params={
                          a: spec[a] for a in gen.attrs_of(spec)})
    ctx.feed(fam, defect, np.asarray(bad), X, impl)
    m = gen.build(ctx.H, spec, rng, implementation=impl)
    for name, f in methods(m).items():
        ctx.api("control " + name, f, X, lengths)
    ctx.api("control sample", m.sample, 2)
    ctx.count("control")
    f = fit_model(ctx, spec, X, implementation=impl)
    for q, names in ((m, None), (f, "fit")):
        # through assignment, or in place on the stored array
        try:
            if names is None and attr == "covars" and base == "gauss" and \
                    rng.random() < .3:
                # replaced after the states were counted
                m.n_components = nc
            setattr(q, attr + "_", gen.container(
                rng, bad, lists=base != "gmm"))
        except Exception:
            ctx.counts["api_calls"] += 1
            ctx.count("rejected:" + defect)
            ctx.count("rejected-at-assignment")
            ctx.nontrivial = True
            continue
        if names:
            attempt(ctx, defect, "fit", lambda: q.fit(X, lengths))
        else:
            for name, fn in methods(q).items():
                attempt(ctx, defect, name, lambda: fn(X, lengths))
            attempt(ctx, defect, "sample", lambda: q.sample(3))


def settings(ctx):
    rng = ctx.rng
    var = rng.random() < .3
    if var:
        t = vb.make(ctx, T=20)
        X, lengths, fam, spec = t.X, t.lengths, t.fam, t.src
        if fam != "vcat" and len(np.unique(X, axis=0)) < t.nc:
            return

        def make(**kw):
            kw = {"implementation": "log", **kw}
            ct = kw.pop("covariance_type", None)
            a = dict(n_iter=1, random_state=0, **vb.copies(t.pri))
            if fam == "vcat":
                a["n_features"] = t.nf
            a.update(kw)
            m = vb.build(ctx.H, fam, t.nc, **a)
            if ct is not None:
                m.covariance_type = ct
            return m
        ctx.count("variational")
    else:
        fam = gen.REAL_FAMS[int(rng.integers(len(gen.REAL_FAMS)))]
        spec = gen.make_spec(rng, fam, mild=True)
        lengths = gen.partition(rng, 20)
        X = gen.sample(rng, spec, 20, lengths)

        def make(**kw):
            return fit_model(ctx, spec, X, **kw)
    opts = ["algorithm", "implementation"]
    if ":" in fam:
        opts.append("covariance_type")
    defect = str(rng.choice(opts))
    bad = str(rng.choice(["", "bogus", "Log", "FULL", "vitterbi", "none",
                          "diagonal"]))
    if defect == "algorithm" and bad == "":
        bad = "Viterbi"
    ctx.detail.update(family=fam, defect=defect, bad=bad)
    ctx.feed(fam, defect, bad, X)
    good = make()
    control_fit(ctx, good, X, lengths)
    m = good
    ctx.count("control")
    if defect == "algorithm":
        q = make(algorithm=bad)
        e = ctx.raises("fit", q.fit, X, lengths)
        if e is None:
            attempt(ctx, defect, "predict", lambda: q.predict(X, lengths))
            attempt(ctx, defect, "decode", lambda: q.decode(X, lengths))
        attempt(ctx, defect, "decode(algorithm)",
                lambda: m.decode(X, lengths, algorithm=bad))
        m.set_params(algorithm=bad)
        attempt(ctx, defect, "predict", lambda: m.predict(X, lengths))
        attempt(ctx, defect, "decode", lambda: m.decode(X, lengths))
        return
    attempt(ctx, defect, "fit",
            lambda: make(**{defect: bad}).fit(X, lengths), bad)
    if defect == "covariance_type":
        cold = (fit_model(ctx, spec, X, warm=False, covariance_type=bad)
                if not var else make(covariance_type=bad))
        attempt(ctx, defect, "fit (cold)", lambda: cold.fit(X, lengths), bad)
    m.set_params(**{defect: bad})
    for name, fn in methods(m).items():
        if defect == "implementation" and name in (
                "predict", "decode", "decode-viterbi"):
            continue
        attempt(ctx, defect, name, lambda: fn(X, lengths), bad)


def data(ctx):
    rng = ctx.rng
    var = rng.random() < .25
    if var:
        t = vb.make(ctx, T=int(rng.integers(6, 20)))
        X, lengths, fam, spec = t.X, t.lengths, t.fam, t.src
        base = {"vcat": "cat"}.get(fam, "gauss")
        nf = t.nf
        if base == "gauss" and len(np.unique(X, axis=0)) < t.nc:
            return
        a = dict(n_iter=1, random_state=0, **vb.copies(t.pri))
        if fam == "vcat":
            a["n_features"] = nf

        def make():
            return vb.build(ctx.H, fam, t.nc, **vb.copies(a))
        m = make()
        control_fit(ctx, m, X, lengths)
        ctx.count("variational")
    else:
        fam = gen.REAL_FAMS[int(rng.integers(len(gen.REAL_FAMS)))]
        spec = gen.make_spec(rng, fam, mild=True)
        n = int(rng.integers(6, 20))
        lengths = gen.partition(rng, n)
        X = gen.sample(rng, spec, n, lengths)
        base, nf = spec["family"], spec["nf"]
        impl = str(rng.choice(["log", "scaling"]))
        warm = bool(rng.random() < .7)
        m = gen.build(ctx.H, spec, rng, implementation=impl)
        ctx.detail["impl"] = impl

        def make():
            return fit_model(ctx, spec, X, implementation=impl, warm=warm)
        if warm:
            control_fit(ctx, make(), X, lengths)
    used = bool(rng.random() < .5)
    if used:
        for name, f in methods(m).items():
            ctx.api("control " + name, f, X, lengths)
    ctx.count("control")
    opts = ["nan", "inf", "1d", "3d", "empty", "text"] + DEFECTS_LEN
    if base == "cat":
        opts += ["negative-symbol", "float-symbol", "bool-symbol",
                 "large-symbol"] * 2
    else:
        opts += ["features"] * 3
    if base == "multi":
        opts += ["trials", "float-counts"] * 3
    defect = str(rng.choice(opts))
    n = len(X)
    i = int(rng.integers(n))
    j = int(rng.integers(X.shape[1]))
    B, L, where = X.copy(), lengths, "both"
    if defect in ("nan", "inf"):
        B = B.astype(float)
        B[i, j] = {"nan": np.nan, "inf": rng.choice([-1, 1]) * np.inf}[defect]
    elif defect == "1d":
        B = X[:, 0]
        L = None
    elif defect == "3d":
        B = X[None] if rng.random() < .5 else X[:, :, None]
    elif defect == "empty":
        B = X[:0]
        L = None if rng.random() < .5 else []
    elif defect == "text":
        B = np.full(X.shape, "a") if rng.random() < .5 else \
            np.full(X.shape, None)
    elif defect == "features":
        d = int(rng.choice([-1, 1, 1, 2, 3]))
        k = X.shape[1] + d
        if k < 1:
            k = X.shape[1] + 1
        B = np.concatenate([X] * 4, axis=1)[:, :k]
        if base == "multi":
            where = "warm"
    elif defect == "negative-symbol":
        B[i] = -int(rng.integers(1, nf + 3))
    elif defect == "float-symbol":
        B = B.astype(float)
        if rng.random() < .7:
            B[i] += float(rng.choice([.5, .25]))
    elif defect == "bool-symbol":
        B = rng.random((n if rng.random() < .5 else nf, 1)) < .5
        L = None
    elif defect == "large-symbol":
        B[i] = nf - 1 + int(rng.integers(1, 4))
    elif defect == "trials":
        B[i, j] += int(rng.integers(1, 4))
        where = "fit"
    elif defect == "float-counts":
        B = B.astype(float) + (.5 if rng.random() < .5 else 0)
        where = "fit"
    else:
        L = list(lengths or [n])
        k = int(rng.integers(len(L)))
        if defect == "too-short":
            L[k] -= 1
            if L[k] < 1:
                L = [n - 1] if n > 1 else [n + 1]
        elif defect == "too-long":
            L[k] += int(rng.integers(1, 5))
        elif defect == "zero":
            L.insert(k, 0)
            if rng.random() < .3:
                L = [0] * 2 + [n]
        elif defect == "negative":
            L[k] += 2
            L.insert(int(rng.integers(len(L) + 1)), -2)
        else:
            L = []
        if rng.random() < .5:
            L = np.array(L, dtype=int)
    ctx.detail.update(family=fam, defect=defect, X=B if B.dtype.kind in "fiub"
                      else repr(B), lengths=L, used=used)
    ctx.feed(fam, defect, str(B.tolist()), str(L))
    if where != "fit" and not (where == "warm" and base == "multi" and False):
        for name, fn in methods(m).items():
            attempt(ctx, defect, name, lambda: fn(B, L), f"lengths {L}")
    # fit: a new model, and one that was fitted before
    if defect == "features":
        if var or warm:
            q = m if var else make()
            if not var and base not in ("gauss",):
                pass
            if not var:
                e = ctx.raises("fit", q.fit, B, L)
                ctx.check(e is not None, "rejected",
                          f"{fam}: warm fit of data with {B.shape[1]} "
                          f"features, parameters have {nf}")
            else:
                attempt(ctx, defect, "refit", lambda: q.fit(B, L))
        return
    attempt(ctx, defect, "fit", lambda: make().fit(B, L), f"lengths {L}")
    if var:
        attempt(ctx, defect, "refit", lambda: m.fit(B, L), f"lengths {L}")


def unfitted(ctx):
    rng = ctx.rng
    var = rng.random() < .3
    fam = (vb.FAMS if var else gen.REAL_FAMS)[
        int(rng.integers(len(vb.FAMS if var else gen.REAL_FAMS)))]
    spec = gen.make_spec(rng, vb.em_fam(fam) if var else fam, mild=True)
    X = gen.sample(rng, spec, 8)
    if var:
        m = vb.build(ctx.H, fam, spec["nc"])
        ctx.count("variational")
    else:
        m = gen.cls_of(ctx.H, spec)(**gen.ctor_args(spec))
    defect = "unfitted"
    ctx.detail.update(family=fam, defect=defect, X=X)
    names = gen.attrs_of(spec)
    if not var and rng.random() < .5:
        defect = "partly-set"
        keep = [a for a in names if rng.random() < .5]
        if len(keep) == len(names):
            keep.pop(int(rng.integers(len(keep))))
        ctx.detail["set"] = keep
        if keep:
            gen.assign(m, spec, None, only=keep)
        if not keep:
            defect = "unfitted"
    ctx.feed(fam, defect, str(ctx.detail.get("set")), X)
    for name, fn in methods(m).items():
        attempt(ctx, defect, name, lambda: fn(X, None))
    attempt(ctx, defect, "sample", lambda: m.sample(2))
    if "transmat" not in ctx.detail.get("set", []):
        attempt(ctx, defect, "get_stationary_distribution",
                lambda: m.get_stationary_distribution())


def case(ctx):
    k = ctx.rng.random()
    if k < .35:
        params(ctx)
    elif k < .45:
        settings(ctx)
    elif k < .9:
        data(ctx)
    else:
        unfitted(ctx)
