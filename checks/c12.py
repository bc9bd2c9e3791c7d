"""C12: a fitted model is a valid model."""
import numpy as np

from lib import common, gen, ref, train, vb

CASES = {"quick": 1400, "thorough": 16000}
RULE = ("fits from data (all parameters initialised by the library, or "
        "hand-set starts) of every family, covariance type and variational "
        "model on data drawn from other models, shifted, scaled, with constant "
        "or duplicated columns and few distinct values; every documented "
        "validity condition checked on the result and the result used to "
        "score, decode and sample; an invalid result is excused only when the "
        "last valid iterate was about to lose a component's data; non-trivial "
        "= more than one state")
REQUIRED = ["valid:cat", "valid:multi", "valid:poisson", "valid:gauss",
            "valid:gmm", "valid:vcat", "valid:vgauss", "used", "roundtrip",
            "refit", "data:shifted", "data:scaled", "data:small",
            "data:constant-column", "unfinished-training"]
ASSUMPTIONS = ["offset of the data at most 1e4 standard deviations (second "
               "moments are formed before means are subtracted)",
               "a component with about as few samples as parameters is "
               "degenerate data"]


def distribution(ctx, name, p, shape):
    ctx.check(p.shape == shape, "shape:" + name,
              f"{name} has shape {p.shape}, documented {shape}")
    ctx.check(np.all(np.isfinite(p)), "finite:" + name, f"{name} = {p}")
    ctx.check(np.all(p >= 0), "nonnegative:" + name, f"{name} = {p}")
    ctx.close(p.sum(axis=-1), np.ones(shape[:-1]), "sum:" + name, 1e-9,
              f"{name} sums")


def spd(ctx, name, c, shape, big):
    ctx.check(c.shape == shape, "shape:" + name,
              f"{name} has shape {c.shape}, documented {shape}")
    ctx.check(np.all(np.isfinite(c)), "finite:" + name, f"{name} = {c}")
    s = np.sqrt(np.abs(np.einsum("...ii->...i", c)))
    ctx.check(np.all(np.abs(c - np.swapaxes(c, -1, -2))
                     <= 1e-9 * s[..., :, None] * s[..., None, :]
                     + 1e-12 * big ** 2),
              "symmetric:" + name, f"{name} = {c}")
    ev = np.linalg.eigvalsh(c)
    ctx.check(np.all(ev > 0), "positive:" + name, f"eigenvalues {ev}")


def validity(ctx, m, X, base, ct, nc, nf, nm=None):
    big = float(np.abs(X).max())
    distribution(ctx, "startprob_", np.asarray(m.startprob_, float), (nc,))
    distribution(ctx, "transmat_", np.asarray(m.transmat_, float), (nc, nc))
    if base in ("cat", "multi", "vcat"):
        distribution(ctx, "emissionprob_", np.asarray(m.emissionprob_, float),
                     (nc, nf))
    if base == "poisson":
        lam = np.asarray(m.lambdas_, float)
        ctx.check(lam.shape == (nc, nf), "shape:lambdas_", f"{lam.shape}")
        ctx.check(np.all(np.isfinite(lam)) and np.all(lam >= 0),
                  "rates", f"lambdas_ = {lam}")
    if base in ("gauss", "vgauss", "gmm"):
        mu = np.asarray(m.means_, float)
        shape = (nc, nm, nf) if base == "gmm" else (nc, nf)
        ctx.check(mu.shape == shape, "shape:means_", f"{mu.shape}")
        ctx.check(np.all(np.isfinite(mu)), "finite:means_", f"{mu}")
        c = np.asarray(m.covars_, float)
        if base != "gmm":
            spd(ctx, "covars_", c, (nc, nf, nf), big)
        elif ct in ("full", "tied"):
            spd(ctx, "covars_", c,
                (nc, nf, nf) if ct == "tied" else (nc, nm, nf, nf), big)
        else:
            shape = (nc, nm, nf) if ct == "diag" else (nc, nm)
            ctx.check(c.shape == shape, "shape:covars_", f"{c.shape}")
            ctx.check(np.all(np.isfinite(c)) and np.all(c > 0),
                      "positive:covars_", f"{c}")
    if base == "gmm":
        distribution(ctx, "weights_", np.asarray(m.weights_, float), (nc, nm))
    ctx.count("valid:" + base)


def usable(ctx, m, X, lengths, nc, nf, n_cols):
    ll = ctx.api("score", m.score, X, lengths)
    ctx.check(np.isfinite(ll), "score", f"score = {ll!r}")
    l2, P = ctx.api("score_samples", m.score_samples, X, lengths)
    ctx.check(np.shape(P) == (len(X), nc), "posteriors", f"{np.shape(P)}")
    ctx.close(P.sum(axis=1), np.ones(len(X)), "posteriors", 1e-6, "row sums")
    lp, z = ctx.api("decode", m.decode, X, lengths)
    ctx.check(np.isfinite(lp) and lp <= ll + 1e-6 * (1 + abs(ll)), "decode",
              f"path log probability {lp!r}, score {ll!r}")
    ctx.check(np.shape(z) == (len(X),) and z.min() >= 0 and z.max() < nc,
              "decode", "states out of range")
    S, Z = ctx.api("sample", m.sample, 7, random_state=3)
    ctx.check(np.shape(S) == (7, n_cols) and np.all(np.isfinite(S)),
              "sample", f"shape {np.shape(S)}")
    ctx.count("used")


def shape_data(ctx, X, real, const=True):
    """Less polite versions of a data set."""
    rng = ctx.rng
    if not real:
        return X
    k = rng.integers(8)
    if k == 0:
        ctx.count("data:shifted")
        return X + float(rng.choice([-1, 1])) * 10. ** rng.integers(1, 4)
    if k == 1:
        ctx.count("data:scaled")
        return X * 10. ** rng.integers(-2, 5)
    if k == 2 and X.shape[1] > 1 and const:
        ctx.count("data:constant-column")
        X = X.copy()
        X[:, 0] = X[0, 0]
    if k == 3 and const:
        ctx.count("data:rounded")
        X = np.round(X)
    return X


def excused(ctx, make, t, X, n_iter, params):
    """An invalid result: find the last valid iterate, was it degenerate?"""
    last = None
    flat = X.dtype.kind == "f" and np.linalg.matrix_rank(
        X - X.mean(axis=0)) < X.shape[1]
    for k in range(n_iter + 1):
        m = make(n_iter=max(k, 1), **({"params": ""} if k == 0 else {}))
        try:
            m.fit(X, t.lengths)
            cur = gen.read(m, t.spec)
        except ValueError:
            break
        if not all(np.all(np.isfinite(cur[a])) for a in gen.attrs_of(cur)):
            break
        if train.collapsed_cov(cur, X) or \
                cur["transmat"].sum(axis=1).min() < .5:
            # degenerate, but was it legitimate?
            # (data in a hyperplane collapse every covariance onto it; the
            # degenerate step to look for is a state losing its samples)
            if flat:
                try:
                    few = train.min_occupancy(cur, X, t.lengths) \
                        < X.shape[1] + 2
                except np.linalg.LinAlgError:
                    few = True
                if few:
                    ctx.count("degenerate-data")
                    ctx.nontrivial = False
                    return True
            elif last is not None:
                break
        last = cur
    if last is None:
        return False
    with np.errstate(all="ignore"):
        _, new, aux = ref.em_step(last, X, t.lengths, params, t.pri)
    if not np.all(np.isfinite(np.asarray(new["startprob"], float))):
        # priors below one outweigh every expected start count
        ctx.count("undefined-start")
        ctx.nontrivial = False
        return True
    rows = np.asarray(new["transmat"], float).sum(axis=1)
    if rows.min() < .5 or "t" in params and (
            np.asarray(aux["trans"]).sum(axis=1).min() < 1e-150):
        # a row of which no transition was observed (to double precision)
        ctx.count("unobserved-row")
        ctx.nontrivial = False
        return True
    if last is not None and train.may_collapse(last, X, t.lengths):
        ctx.count("degenerate-data")
        ctx.nontrivial = False
        return True
    return False


def em(ctx):
    rng = ctx.rng
    from lib.runner import Violation
    t = train.make(ctx, kind=str(rng.choice(["default", "default", "random"])),
                   T=int(rng.choice([15, 50, 150, 400],
                                    p=[.15, .35, .35, .15])))
    if t.T <= 15:
        ctx.count("data:small")
    base = t.spec["family"]
    X = shape_data(ctx, t.X, base in ("gauss", "gmm")
                   and t.kind == "default", base == "gauss")
    t.X = X
    ctx.detail["X"] = X
    n_iter = int(rng.choice([1, 2, 5, 15]))
    tol = float(rng.choice([-np.inf, 1e-2]))
    hand = rng.random() < .25 and X is t.X and t.kind == "default" \
        and np.array_equal(X, t.X)
    ctx.detail.update(n_iter=n_iter, tol=tol, hand=hand)
    seed = int(rng.integers(1 << 20))
    ctx.cover("em", t.fam, t.kind, t.impl, "hand" if hand else "init", n_iter)
    params = t.params if hand else gen.all_params(t.spec)

    def make(**kw):
        args = dict(random_state=seed, implementation=t.impl, tol=tol,
                    params=params, n_iter=n_iter)
        args.update({k: (np.array(v) if isinstance(v, np.ndarray) else v)
                     for k, v in t.pri.items()})
        args.update(common.fit_kw(t.spec))
        args.update(kw)
        if hand:
            return gen.build(ctx.H, t.spec, None, init_params="", **args)
        return gen.cls_of(ctx.H, t.spec)(**gen.ctor_args(t.spec), **args)
    if base in ("gauss", "gmm") and len(np.unique(X, axis=0)) < t.spec["nc"]:
        ctx.count("data:few-distinct")
    m = make()
    try:
        ctx.api("fit", m.fit, X, t.lengths)
        if m.monitor_.iter < n_iter:
            ctx.count("stopped-early")
        else:
            ctx.count("unfinished-training")
        validity(ctx, m, X, base, t.spec["ct"], t.spec["nc"], t.spec["nf"],
                 t.spec.get("nm"))
        usable(ctx, m, X, t.lengths, t.spec["nc"], t.spec["nf"],
               1 if base == "cat" else t.spec["nf"])
        cur = gen.read(m, t.spec)
        m2 = gen.build(ctx.H, cur, None)
        s1, s2 = (float(ctx.api("score", q.score, X, t.lengths))
                  for q in (m, m2))
        ctx.close(s2, s1, "roundtrip", 1e-6 * (1 + abs(s1)),
                  "score of a model given the fitted parameters")
        ctx.count("roundtrip")
        if rng.random() < .3:
            m.init_params = ""
            ctx.api("refit", m.fit, X, t.lengths)
            n_iter *= 2
            validity(ctx, m, X, base, t.spec["ct"], t.spec["nc"],
                     t.spec["nf"], t.spec.get("nm"))
            ctx.count("refit")
    except Violation as e:
        if e.kind == "unexpected-exception" and "underflow" in e.msg \
                and t.impl == "scaling":
            ctx.count("scaling-refused")
            return
        if e.kind.startswith("shape:") or \
                not excused(ctx, make, t, X, n_iter, params):
            raise


def variational(ctx):
    rng = ctx.rng
    t = vb.make(ctx, T=int(rng.choice([8, 40, 120, 300])))
    base = t.fam.partition(":")[0]
    if base == "vgauss" and not t.pri:
        t.X = shape_data(ctx, t.X, True)
        ctx.detail["X"] = t.X
        if rng.random() < .1:
            t.X = rng.integers(0, 2, size=t.X.shape).astype(float)
            ctx.detail["X"] = t.X
    if base == "vgauss" and len(np.unique(t.X, axis=0)) < t.nc:
        ctx.count("data:few-distinct")
    if t.T <= 8:
        ctx.count("data:small")
    n = int(rng.choice([1, 3, 20]))
    ctx.cover("vb", t.fam, t.nc, t.impl, n)
    params = t.codes if rng.random() < .7 else t.params
    m = vb.model(ctx, t, n_iter=n, params=params)
    vb.fit(ctx, m, t)
    validity(ctx, m, t.X, base, t.ct, t.nc, t.nf)
    for a, v in vb.read(m, t.fam).items():
        ctx.check(np.all(np.isfinite(v)), "finite:" + a, f"{a} = {v}")
        if a.startswith(("startprob", "transmat", "emission", "beta")):
            ctx.check(np.all(v > 0), "positive:" + a, f"{a} = {v}")
        if a.startswith("dof"):
            ctx.check(np.all(v > t.nf - 1), "dof", f"{a} = {v}")
        if a.startswith("scale"):
            if t.ct in ("full", "tied"):
                ctx.check(np.all(np.linalg.eigvalsh(v) > 0), "positive:" + a,
                          f"{a} = {v}")
            else:
                ctx.check(np.all(v > 0), "positive:" + a, f"{a} = {v}")
    ctx.check(np.all(np.isfinite(np.array(m.monitor_.history))),
              "bound-finite", f"{list(m.monitor_.history)}")
    try:
        usable(ctx, m, t.X, t.lengths, t.nc, t.nf,
               1 if t.fam == "vcat" else t.nf)
    except Exception as e:
        if t.impl == "scaling" and "underflow" in str(e):
            ctx.count("scaling-refused")
            return
        raise


def case(ctx):
    if ctx.rng.random() < .7:
        em(ctx)
    else:
        variational(ctx)
