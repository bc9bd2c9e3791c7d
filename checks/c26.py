"""C26: relabelling states or features permutes results and nothing else."""
import numpy as np
from scipy.special import gammaln, xlogy

from checks import c24
from lib import common, gen, ref, train, vb
from lib.runner import Skip

CASES = {"quick": 700, "thorough": 11000}
RULE = ("pairs of models equal up to a permutation of the states (of the "
        "mixture components, symbols or features as well), same data: scores, "
        "posteriors, decoded paths, criteria, stationary laws, training "
        "histories and trained parameters must correspond; sizes up to 60 "
        "states and thousands of samples, where no reference recursion is "
        "run; non-trivial = a permutation other than the identity")
REQUIRED = (["family:" + f for f in gen.FAMS + vb.FAMS]
            + ["impl:log", "impl:scaling", "kind:infer", "kind:train",
               "kind:vb", "large", "over 1000 samples", "over 30 states",
               "training over 32 states", "states", "components", "features", "symbols", "aic",
               "stationary", "prior:array", "paths equal", "tied paths",
               "several iterations", "subset of params"])
ASSUMPTIONS = [
    "rounding differs with the order of summation: scores agree to 1e-9 "
    "plus 1e-12 of the summed magnitude of log densities, trained parameters "
    "to 1e-6 relative after at most four iterations on models whose "
    "components keep data and spread",
    "equally likely paths are interchangeable"]

AXES = {"startprob": "k", "transmat": "kk", "table": "sk",
        "cat.emissionprob": "kf", "multi.emissionprob": "kf", "lambdas": "kf",
        "gauss.means": "kf", "gmm.means": "kmf", "weights": "km"}
COV = {"gauss": {"spherical": "k", "diag": "kf", "full": "kff", "tied": "ff"},
       "gmm": {"spherical": "km", "diag": "kmf", "full": "kmff",
               "tied": "kff"}}


class Perm:
    def __init__(self, rng, nc, nf, nm=None, features=True):
        self.p = rng.permutation(nc)
        self.f = rng.permutation(nf) if features else np.arange(nf)
        self.q = ([rng.permutation(nm) for _ in range(nc)] if nm else None)
        self.trivial = bool(
            np.all(self.p == np.arange(nc)) and np.all(self.f == np.arange(nf))
            and (not nm or all(np.all(q == np.arange(nm)) for q in self.q)))

    def __call__(self, a, axes):
        a = np.asarray(a)
        if a.ndim == 0:
            return a
        if a.ndim != len(axes):
            raise ValueError((a.shape, axes))
        for i, c in enumerate(axes):
            if c == "k":
                a = a.take(self.p, axis=i)
            elif c == "f":
                a = a.take(self.f, axis=i)
        if "m" in axes:
            a = np.stack([a[k][q] for k, q in enumerate(self.q)])
        return a


def axes_of(fam, ct, name):
    if name == "covars":
        return COV[fam][ct]
    return AXES.get(name) or AXES[fam + "." + name]


def perm_spec(P, s):
    out = dict(s)
    for a in gen.attrs_of(s):
        out[a] = P(s[a], axes_of(s["family"], s["ct"], a))
    return out


def prior_axes(s, key, v):
    fam, ct, d = s["family"], s["ct"], np.ndim(v)
    if d == 0:
        return ""
    if key == "startprob_prior":
        return "k"
    if key == "transmat_prior":
        return "kk"
    if key in ("emissionprob_prior", "lambdas_prior", "lambdas_weight"):
        return "kf"
    if fam == "gauss":
        return {"means_prior": "kf", "covars_prior": (
            "kf" if ct in ("diag", "spherical") else
            "ff" if d == 2 else "kff")}[key]
    return {"weights_prior": "km", "means_prior": "kmf", "means_weight": "km",
            "covars_prior": {"full": "ff" if d == 2 else "kmff", "tied": "ff",
                             "diag": "kmf", "spherical": "km"}[ct],
            "covars_weight": {"full": "km", "tied": "k", "diag": "kmf",
                              "spherical": "km"}[ct]}[key]


def perm_data(P, s, X):
    if s["family"] == "cat":
        # new symbol j stands for old symbol f[j]
        inv = np.argsort(P.f)
        return inv[np.asarray(X)]
    if s["family"] == "table":
        return X
    return np.asarray(X)[:, P.f]


def pick(ctx, rng):
    size = str(rng.choice(["small", "mid", "large"], p=[.4, .35, .25]))
    if size == "small":
        return size, int(rng.integers(1, 5)), int(rng.integers(1, 40))
    if size == "mid":
        return size, int(rng.integers(2, 13)), int(rng.integers(30, 400))
    ctx.count("large")
    nc, T = int(rng.integers(12, 61)), int(rng.integers(300, 2600))
    if nc > 30:
        ctx.count("over 30 states")
    if T > 1000:
        ctx.count("over 1000 samples")
    return size, nc, T


def note(ctx, P, fam, nf, nm):
    ctx.nontrivial = not P.trivial
    if np.any(P.p != np.arange(len(P.p))):
        ctx.count("states")
    if nm and any(np.any(q != np.arange(nm)) for q in P.q):
        ctx.count("components")
    if np.any(P.f != np.arange(nf)):
        ctx.count("symbols" if fam.endswith("cat") else "features")


def attempt(ctx, f, *args):
    """The result or the exception; the two sides are compared."""
    ctx.counts["api_calls"] += 1
    try:
        return f(*args)
    except Exception as e:
        return e


def compare(ctx, what, m1, m2, P, X1, X2, lengths, mag, spec=None):
    """Inference of the two models corresponds."""
    T = len(X1)
    tol = 1e-9 + 1e-12 * mag + 1e-12 * T
    r1 = attempt(ctx, m1.score_samples, X1, lengths)
    r2 = attempt(ctx, m2.score_samples, X2, lengths)
    if isinstance(r1, Exception) or isinstance(r2, Exception):
        ctx.check(isinstance(r1, Exception) and isinstance(r2, Exception)
                  and type(r1) is type(r2), "raises",
                  f"{what}: score_samples: {r1!r}"[:200]
                  + f" but relabelled {r2!r}"[:200])
        ctx.count("both refuse")
        raise Skip("both refuse")
    (s1, G1), (s2, G2) = r1, r2
    ctx.close(s2, s1, "score", tol, f"{what}: score of the relabelled model")
    ctx.close(ctx.api("score", m2.score, X2, lengths), s1, "score", tol,
              f"{what}: score of the relabelled model")
    if not np.isfinite(s1):
        ctx.count("impossible data")
        return
    ctx.close(np.asarray(G2), np.asarray(G1)[:, P.p], "posteriors", tol,
              f"{what}: posteriors of the relabelled model")
    ctx.close(ctx.api("predict_proba", m2.predict_proba, X2, lengths),
              np.asarray(G1)[:, P.p], "posteriors", tol,
              f"{what}: predict_proba of the relabelled model")
    v1, z1 = ctx.api("decode", m1.decode, X1, lengths, "viterbi")
    v2, z2 = ctx.api("decode", m2.decode, X2, lengths, "viterbi")
    ctx.close(v2, v1, "viterbi-score", tol,
              f"{what}: Viterbi score of the relabelled model")
    back = P.p[np.asarray(z2)]
    if np.array_equal(back, z1):
        ctx.count("paths equal")
    elif spec is not None:
        # another optimal path: it must be exactly as likely
        lpi, lA = ref.logs(spec)
        i, d = 0, 0.
        for s in ref.split(np.asarray(X1), lengths):
            lB = log_em(spec, s)
            d += (ref.path_logprob(lpi, lA, lB, back[i:i + len(s)])
                  - ref.path_logprob(lpi, lA, lB,
                                     np.asarray(z1)[i:i + len(s)]))
            i += len(s)
        ctx.close(float(d), 0., "viterbi-path", tol,
                  f"{what}: Viterbi path of the relabelled model is worse")
        ctx.count("tied paths")
    _, z2 = ctx.api("decode", m2.decode, X2, lengths, "map")
    G = np.asarray(G1)
    lab = P.p[np.asarray(z2)]
    ctx.check(np.all(G[np.arange(T), lab] >= G.max(axis=1) - 4 * tol), "map",
              f"{what}: MAP labels of the relabelled model")


def log_em(spec, X):
    """Log densities in plain double: for tolerances and for comparing
    paths, not as an oracle of the densities themselves."""
    fam, nc = spec["family"], spec["nc"]
    X = np.asarray(X)
    if fam == "table":
        return np.asarray(spec["table"])[X[:, 0].astype(int)]
    with np.errstate(divide="ignore"):
        if fam == "cat":
            return np.log(spec["emissionprob"])[:, X[:, 0].astype(int)].T
        if fam == "multi":
            c = gammaln(X.sum(axis=1) + 1) - gammaln(X + 1).sum(axis=1)
            return c[:, None] + xlogy(
                X[:, None], np.asarray(spec["emissionprob"])).sum(axis=2)
        if fam == "poisson":
            lam = np.asarray(spec["lambdas"], float)
            return (xlogy(X[:, None], lam) - lam).sum(axis=2) - gammaln(
                X + 1).sum(axis=1)[:, None]

    def normal(mu, cov):
        L = np.linalg.cholesky(np.asarray(cov, float))
        d = np.linalg.solve(L, (X - mu).T)
        return -.5 * ((d ** 2).sum(axis=0) + len(mu) * np.log(2 * np.pi)
                      ) - np.log(np.diag(L)).sum()
    if fam == "gauss":
        return np.array([normal(spec["means"][k], ref.full_cov(spec, k))
                         for k in range(nc)]).T
    with np.errstate(divide="ignore"):
        lw = np.log(spec["weights"])
    return np.array([np.logaddexp.reduce(
        [lw[k, j] + normal(spec["means"][k][j], ref.full_cov(spec, k, j))
         for j in range(spec["nm"])], axis=0) for k in range(nc)]).T


def magnitude(spec, X):
    """Summed magnitude of the log densities."""
    lB = log_em(spec, X)
    f = np.where(np.isfinite(lB), np.abs(lB), 0)
    return float(f.max(axis=1).sum())


def infer(ctx):
    rng, H = ctx.rng, ctx.H
    fam = gen.FAMS[int(rng.integers(len(gen.FAMS)))]
    size, nc, T = pick(ctx, rng)
    spec = gen.make_spec(rng, fam, nc=nc, zeros=rng.random() < .5)
    lengths = gen.partition(rng, T, kind=None if size != "large" else
                            int(rng.choice([0, 1, 4, 4])))
    X = gen.sample(rng, spec, T, lengths)
    ties = fam != "table" and rng.random() < .15 and nc > 1
    if ties:              # states that cannot be told apart: tied paths
        spec["transmat"] = np.full((nc, nc), 1 / nc)
        spec["startprob"] = np.full(nc, 1 / nc)
        for a in gen.ATTRS[spec["family"]]:
            if axes_of(spec["family"], spec["ct"], a)[0] == "k":
                spec[a] = np.array(spec[a])
                spec[a][nc - 1] = spec[a][0]
    P = Perm(rng, nc, spec["nf"], spec.get("nm"),
             features=fam != "table")
    note(ctx, P, spec["family"], spec["nf"], spec.get("nm"))
    s2 = perm_spec(P, spec)
    X2 = perm_data(P, spec, X)
    impl = str(rng.choice(["log", "scaling"]))
    mode = str(rng.choice(["log", "logF"]))
    m1 = gen.build(H, spec, rng, table_mode=mode, implementation=impl)
    m2 = gen.build(H, s2, rng, table_mode=mode, implementation=impl)
    what = f"{fam} ({impl}), {nc} states, {T} samples"
    ctx.detail.update(family=fam, nc=nc, T=T, impl=impl, lengths=lengths,
                      perm=P.p, features=P.f, X=X,
                      params={a: spec[a] for a in gen.attrs_of(spec)})
    ctx.feed("infer", fam, impl, X, str(lengths), P.p, P.f,
             *[np.asarray(spec[a]) for a in gen.attrs_of(spec)])
    ctx.cover("infer", fam, impl, size)
    for f in ("kind:infer", "family:" + fam, "impl:" + impl):
        ctx.count(f)
    if impl == "scaling" and (size != "large" or fam == "table"):
        # near the limits of double both may or may not refuse
        lpi, lA = ref.logs(spec)
        if max(gen.dyn_range(lpi, lA, ref.ld(log_em(spec, s)))[0]
               for s in ref.split(X, lengths)) > common.SAFE:
            raise Skip("outside the range of the scaling implementation")
    mag = magnitude(spec, X)
    compare(ctx, what, m1, m2, P, X, X2, lengths, mag, spec)
    if fam != "table":
        for name in ("aic", "bic"):
            a = ctx.api(name, getattr(m1, name), X, lengths)
            b = ctx.api(name, getattr(m2, name), X2, lengths)
            ctx.close(b, a, "criteria", 2e-9 + 1e-11 * (mag + abs(a)),
                      f"{what}: {name} of the relabelled model")
        ctx.count("aic")
    if nc <= 20:
        # a unique stationary law only: irreducible chains
        A = np.asarray(spec["transmat"])
        if A.min() > 1e-3:
            a = ctx.api("get_stationary_distribution",
                        m1.get_stationary_distribution)
            b = ctx.api("get_stationary_distribution",
                        m2.get_stationary_distribution)
            ctx.close(b, np.asarray(a)[P.p], "stationary", 1e-8,
                      f"{what}: stationary law of the relabelled model")
            ctx.count("stationary")


def train_case(ctx):
    rng, H = ctx.rng, ctx.H
    t = train.make(ctx, T=int(rng.choice([30, 80, 250, 800])))
    spec = t.spec
    fam = spec["family"]
    big = rng.random() < .2
    if big:
        nc = int(rng.integers(6, 25))
        if rng.random() < .4 and fam != "gmm":
            nc = int(rng.integers(33, 61))
        t.T = int(rng.integers(600, 2000))
        src = gen.make_spec(rng, t.fam, nc=nc, nf=spec["nf"],
                            nm=spec.get("nm"), mild=True, sep=3.)
        t.lengths = gen.partition(rng, t.T, kind=int(rng.choice([0, 1, 4])))
        if fam == "multi":
            src["n_trials"] = spec["n_trials"]
        t.X = gen.sample(rng, src, t.T, t.lengths)
        t.spec = spec = dict(src)
        spec["transmat"] = gen.fix_sum(
            rng.dirichlet(np.full(nc, 2.), size=nc) + .02)
        if fam in ("gauss", "gmm"):
            spec["means"] = (src["means"]
                             + .5 * rng.standard_normal(src["means"].shape))
            spec["covars"] = src["covars"] * 2
        t.pri = train.priors(rng, spec, t.kind)
        ctx.detail.update(T=t.T, X=t.X, lengths=t.lengths, priors=t.pri,
                          start={a: spec[a] for a in gen.attrs_of(spec)})
        ctx.feed(t.X, repr(t.pri))
        ctx.count("large")
        if t.T > 1000:
            ctx.count("over 1000 samples")
    P = Perm(rng, spec["nc"], spec["nf"], spec.get("nm"))
    note(ctx, P, fam, spec["nf"], spec.get("nm"))
    n_iter = int(rng.integers(1, 5))
    kw = dict(n_iter=n_iter)
    m1 = train.model(ctx, t, **kw)
    import copy
    u = copy.copy(t)
    u.spec = perm_spec(P, spec)
    u.pri = {}
    for k, v in t.pri.items():
        ax = prior_axes(spec, k, v)
        u.pri[k] = P(v, ax) if ax else v
        if ax:
            ctx.count("prior:array")
    m2 = train.model(ctx, u, **kw)
    X2 = perm_data(P, spec, t.X)
    what = (f"{t.fam} ({t.impl}), {spec['nc']} states, {t.T} samples, params "
            f"{t.params!r}, {n_iter} iterations")
    ctx.cover("train", t.fam, t.impl, t.kind, big)
    for f in ("kind:train", "family:" + t.fam, "impl:" + t.impl):
        ctx.count(f)
    if len(t.params) < len(gen.all_params(spec)):
        ctx.count("subset of params")
    if train.may_collapse(spec, t.X, t.lengths):
        raise Skip("a component without data")
    e1 = attempt(ctx, m1.fit, t.X, t.lengths)
    e2 = attempt(ctx, m2.fit, X2, t.lengths)
    if isinstance(e1, Exception) or isinstance(e2, Exception):
        if isinstance(e1, Exception) and isinstance(e2, Exception):
            raise Skip("both refuse")
        ok = m2 if isinstance(e1, Exception) else m1
        s = u.spec if isinstance(e1, Exception) else spec
        if train.degenerate(gen.read(ok, s), X2 if ok is m2 else t.X,
                            t.lengths):
            raise Skip("degenerate training")
        ctx.check(False, "raises", f"{what}: fit: {e1!r}"[:300]
                  + f" but relabelled {e2!r}"[:300])
    a, b = gen.read(m1, spec), gen.read(m2, u.spec)
    if train.may_collapse(a, t.X, t.lengths):
        raise Skip("degenerate training")
    h1 = np.array(list(m1.monitor_.history))
    h2 = np.array(list(m2.monitor_.history))
    ctx.check(len(h1) == len(h2) == n_iter, "history",
              f"{what}: {len(h1)} and {len(h2)} iterations")
    ctx.close(h2, h1, "history", 1e-7 * (1 + np.abs(h1).max()),
              f"{what}: training history of the relabelled model")
    if n_iter > 1:
        ctx.count("several iterations")
    want = perm_spec(P, a)
    for x in gen.attrs_of(spec):
        w = np.asarray(want[x], float)
        ctx.close(np.asarray(b[x], float), w, "trained-" + x,
                  1e-6 * (1e-3 + np.abs(w).max()),
                  f"{what}: trained {x}_ of the relabelled model")
    if spec["nc"] > 32:
        ctx.count("training over 32 states")
    rows = np.asarray(a["transmat"]).sum(axis=1)
    if t.impl == "log" and np.isfinite(h1[-1]) and np.all(rows > .5):
        mag = magnitude(a, t.X)
        s1 = ctx.api("score", m1.score, t.X, t.lengths)
        s2 = ctx.api("score", m2.score, X2, t.lengths)
        ctx.close(s2, s1, "score", 1e-6 * (1 + mag),
                  f"{what}: score after training")


VAX = {"startprob": "k", "transmat": "kk", "emissionprob": "kf",
       "means": "kf", "beta": "k"}


def vax(t, a):
    base = a.rsplit("_", 2)[0]
    if base == "dof":
        return "" if t.ct == "tied" else "k"
    if base == "scale":
        return {"full": "kff", "tied": "ff", "diag": "kf",
                "spherical": "k"}[t.ct]
    return VAX[base]


def vb_case(ctx):
    rng = ctx.rng
    t = vb.make(ctx, nc=int(rng.integers(2, 13)) if rng.random() < .3
                else None, T=int(rng.choice([20, 60, 150, 600])))
    P = Perm(rng, t.nc, t.nf)
    note(ctx, P, t.fam, t.nf, None)
    n_iter = int(rng.integers(1, 4))
    m1 = vb.model(ctx, t, n_iter=n_iter)
    c24.random_start(ctx, m1, t)
    m2 = vb.model(ctx, t, n_iter=n_iter, init_params="")
    if t.fam == "vcat":
        m2.n_features = t.nf
    names = vb.post_attrs(t.fam) + vb.prior_attrs(t.fam)
    for a in names:
        v = np.array(getattr(m1, a), dtype=float)
        ax = vax(t, a)
        if v.ndim == 1 and ax == "kf" or v.ndim != len(ax) and v.ndim:
            raise Skip("broadcast prior")
        v = P(v, ax) if v.ndim else float(v)
        setattr(m2, a, v)
    spec = dict(family="cat" if t.fam == "vcat" else "gauss")
    X2 = perm_data(P, spec, t.X)
    what = (f"{t.fam} ({t.impl}), {t.nc} states, {t.T} samples, params "
            f"{t.params!r}, {n_iter} iterations")
    ctx.cover("vb", t.fam, t.impl, n_iter)
    for f in ("kind:vb", "family:" + t.fam, "impl:" + t.impl):
        ctx.count(f)
    e1 = attempt(ctx, m1.fit, t.X, t.lengths)
    e2 = attempt(ctx, m2.fit, X2, t.lengths)
    if isinstance(e1, Exception) or isinstance(e2, Exception):
        ctx.check(isinstance(e1, Exception) and isinstance(e2, Exception),
                  "raises", f"{what}: fit: {e1!r}"[:300]
                  + f" but relabelled {e2!r}"[:300])
        raise Skip("both refuse")
    h1 = np.array(list(m1.monitor_.history))
    h2 = np.array(list(m2.monitor_.history))
    ctx.check(len(h1) == len(h2) == n_iter, "history",
              f"{what}: {len(h1)} and {len(h2)} iterations")
    ctx.close(h2, h1, "history", 1e-7 * (1 + np.abs(h1).max()),
              f"{what}: recorded bounds of the relabelled model")
    if n_iter > 1:
        ctx.count("several iterations")
    for a in names + ["startprob_", "transmat_"]:
        v = np.asarray(getattr(m1, a), float)
        ax = {"startprob_": "k", "transmat_": "kk"}.get(a) or vax(t, a)
        w = P(v, ax) if v.ndim else v
        ctx.close(np.asarray(getattr(m2, a), float), w, "trained-" + a,
                  1e-6 * (1e-3 + np.abs(w).max()),
                  f"{what}: {a} of the relabelled model")
    if t.impl == "log":
        # the parameters already differ by rounding
        compare(ctx, what, m1, m2, P, t.X, X2, t.lengths,
                1e3 * (t.T + np.abs(h1).max()))


def case(ctx):
    u = ctx.rng.random()
    if u < .5:
        return infer(ctx)
    if u < .8:
        return train_case(ctx)
    vb_case(ctx)
