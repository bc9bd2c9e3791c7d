"""C07: emission probabilities follow the named distribution."""
import itertools

import numpy as np

from lib import common, gen, ref

CASES = {"quick": 3000, "thorough": 50000}
RULE = ("random emission parameters at ordinary and extreme scales x "
        "observations (typical, outlying, impossible, integer or float) x "
        "array layouts; per-state log density read off as the score of "
        "length-1 sequences from a chain that starts in that state, and from "
        "stats.log_multivariate_normal_density; judged against 80-bit "
        "densities and by summing/integrating to one; non-trivial = all")
REQUIRED = ["fam:cat", "fam:multi", "fam:poisson", "fam:gauss", "fam:gmm",
            "stats-function", "total-mass", "impl:scaling", "fitted",
            "extreme", "impossible-observation", "many-samples"]
ASSUMPTIONS = ["tolerance grows with the condition number of the covariance "
               "(below 1e10) and with the size of the terms that cancel",
               "multinomial cells are zero or above 1e-3 (scipy recomputes "
               "the last cell)"]


def emission_spec(ctx):
    rng = ctx.rng
    fam = str(rng.choice([f for f in gen.FAMS if f != "table"]))
    base, _, ct = fam.partition(":")
    extreme = rng.random() < .4
    cond = 50.
    if extreme and ct in ("full", "tied"):
        cond = 10. ** rng.uniform(2, 9)
    spec = gen.make_spec(rng, fam, cond=cond)
    nc, nf = spec["nc"], spec["nf"]
    if extreme:
        ctx.count("extreme")
        if base == "poisson":
            spec["lambdas"] = 10. ** rng.uniform(-12, 5, size=(nc, nf))
        elif base == "cat":
            spec["emissionprob"] = gen.fix_sum(
                10. ** rng.uniform(-250, 0, size=(nc, nf)))
        elif base in ("gauss", "gmm"):
            s = 10. ** rng.uniform(-30, 30)
            off = rng.choice([0., 1e3, 1e6]) * s
            spec["means"] = spec["means"] * s + off
            spec["covars"] = spec["covars"] * s * s
            if ct in ("diag", "spherical"):
                spec["covars"] = spec["covars"] * 10. ** rng.uniform(
                    -6, 6, size=spec["covars"].shape)
        if base == "gmm" and spec["nm"] > 1:
            spec["weights"] = gen.fix_sum(
                10. ** rng.uniform(-200, 0, size=spec["weights"].shape))
    return fam, spec


def observations(ctx, spec):
    rng = ctx.rng
    n = int(rng.integers(1, 5))
    X = gen.data(rng, spec, n)
    if spec["family"] in ("gauss", "gmm") and rng.random() < .4:
        d = np.asarray(spec["means"], float).reshape(-1, spec["nf"])
        sd = np.sqrt(np.abs(np.asarray(spec["covars"])).max())
        X = (d[rng.integers(len(d), size=n)]
             + rng.standard_normal((n, spec["nf"])) * sd
             * rng.choice([0., 1., 30., 1e3]))
    if spec["family"] == "poisson" and rng.random() < .5:
        X = rng.poisson(np.minimum(spec["lambdas"].mean(), 1e4),
                        size=(n, spec["nf"]))
    X = np.asarray(X)
    if spec["family"] in ("gauss", "gmm") and rng.random() < .1:
        X = np.rint(X)
    return X


def tolerance(spec, X, want):
    """(n, nc) bound on the rounding error of a sound evaluation."""
    fam, nc = spec["family"], spec["nc"]
    w = np.where(np.isfinite(want), np.abs(want), 0).astype(float)
    tol = 1e-10 + 1e-12 * w
    if fam == "poisson":
        lam = np.asarray(spec["lambdas"])
        for k in range(nc):
            with np.errstate(all="ignore"):
                t = (np.abs(ref.xlogy(X, lam[k][None])) + lam[k]
                     + ref.lfact(X)).sum(axis=1)
            tol[:, k] += 2e-14 * np.where(np.isfinite(t), t, 0).astype(float)
    if fam == "multi":
        tol += 1e-13 * float(ref.lfact(X.sum(axis=1)).max()) + 1e-10
    if fam in ("gauss", "gmm") and spec["ct"] in ("full", "tied"):
        c = np.asarray(spec["covars"]).reshape(-1, spec["nf"], spec["nf"])
        cond = max(np.linalg.cond(m) for m in c)
        if fam == "gmm":
            # a component far away may carry the error of its own exponent
            m = np.zeros(len(X))
            for k in range(nc):
                for j in range(spec["nm"]):
                    m = np.maximum(m, np.abs(np.asarray(ref.mvn_logpdf(
                        X, spec["means"][k][j], ref.full_cov(spec, k, j)),
                        float)))
            w = np.minimum(m[:, None] + 0 * w, 10 * w + 1e3)
        tol = tol + 4e-15 * cond * (w + spec["nf"] + 1)
    return tol


def judge(ctx, spec, X, m, impl, what):
    rng = ctx.rng
    nc = spec["nc"]
    want = np.asarray(ref.log_emission(spec, X), np.longdouble)
    if not np.all(np.isfinite(want)):
        ctx.count("impossible-observation")
    tol = tolerance(spec, X, want)
    sp = np.eye(nc)
    saved = m.startprob_
    for k in range(nc):
        m.startprob_ = sp[k]
        for i in range(len(X)):
            w = want[i, k]
            Xi = gen.x_container(rng, X[i:i + 1])
            if impl == "scaling":
                if not w > -640 or w > 640:
                    continue
            got = ctx.api("score", m.score, Xi)
            ctx.close(got, w, f"density-{spec['family']}", tol[i, k],
                      f"{what}: log p(x|state {k}) with {impl!r}", x=X[i],
                      state=k)
    m.startprob_ = saved
    ctx.count("impl:" + impl)


def mass(ctx, spec, m):
    """Total probability over all observations is one, without any oracle."""
    fam, nc, nf = spec["family"], spec["nc"], spec["nf"]
    grid, w, eps = None, None, 1e-6
    if fam == "cat":
        grid = np.arange(nf)[:, None]
    elif fam == "multi":
        n = spec["n_trials"]
        if (n + 1) ** (nf - 1) > 400:
            return
        rows = [r + (n - sum(r),) for r in
                itertools.product(range(n + 1), repeat=nf - 1)
                if sum(r) <= n]
        grid = np.array(rows)
    elif fam == "poisson":
        lam = np.asarray(spec["lambdas"])
        hi = int(np.ceil(lam.max() + 12 * np.sqrt(lam.max()) + 25))
        if (hi + 1) ** nf > 900:
            return
        grid = np.array(list(itertools.product(range(hi + 1), repeat=nf)))
    elif nf == 1:
        mu = np.asarray(spec["means"], float).reshape(nc, -1)
        sd = np.sqrt(max(float(ref.full_cov(spec, k, j)[0, 0])
                         if fam == "gmm" else
                         float(ref.full_cov(spec, k)[0, 0])
                         for k in range(nc)
                         for j in range(spec.get("nm") or 1)))
        sm = np.sqrt(min(float(ref.full_cov(spec, k, j)[0, 0])
                         if fam == "gmm" else
                         float(ref.full_cov(spec, k)[0, 0])
                         for k in range(nc)
                         for j in range(spec.get("nm") or 1)))
        lo, hi = mu.min() - 9 * sd, mu.max() + 9 * sd
        h = sm / 4
        if not 0 < (hi - lo) / h < 1500:
            return
        grid = np.arange(lo, hi + h, h)[:, None]
        w = h
        # the grid itself is rounded
        eps += 8 * np.finfo(float).eps * max(abs(lo), abs(hi)) / sm
    else:
        return
    # One call per state: posteriors of length-1 sequences are proportional to
    # startprob * density, so use the score instead.
    k = int(ctx.rng.integers(nc))
    saved = m.startprob_
    m.startprob_ = np.eye(nc)[k]
    tot = 0.
    step = max(1, len(grid) // 400)
    if step > 1 and w is None:
        m.startprob_ = saved
        return
    for x in grid:
        tot += np.exp(ctx.api("score", m.score, x[None]))
    m.startprob_ = saved
    ctx.close(tot * (w or 1), 1., "total-mass", eps,
              f"total probability of {fam} observations in state {k}")
    ctx.count("total-mass")


def many(ctx):
    """Thousands of samples in one call: the densities, sample by sample."""
    rng, H = ctx.rng, ctx.H
    fam = str(rng.choice([f for f in gen.FAMS if f != "table"]))
    spec = gen.make_spec(rng, fam, nc=int(rng.integers(1, 4)), zeros=False)
    nc = spec["nc"]
    T = int(rng.choice([1500, 4097, 9000, 20000])) + int(rng.integers(0, 999))
    X = gen.big_data(rng, spec, T)
    want = np.asarray(ref.log_emission(spec, X), np.longdouble)
    tol = tolerance(spec, X, want)
    ctx.detail.update(family=fam, T=T,
                      params={a: spec[a] for a in gen.attrs_of(spec)})
    ctx.feed("many", fam, X, *[np.asarray(spec[a])
                               for a in gen.attrs_of(spec)])
    ctx.nontrivial = True
    impl = "scaling" if rng.random() < .3 else "log"
    m = gen.build(H, spec, rng, implementation=impl)
    m.transmat_ = np.eye(nc)
    for k in range(nc):
        m.startprob_ = np.eye(nc)[k]
        # one run through a single state: the score is the sum of densities
        lo = int(rng.integers(0, T // 3))
        for a, b in ((0, T), (lo, T)):
            if impl == "scaling" and not np.all(
                    np.abs(want[a:b, k]) < 600):
                continue
            got = ctx.api("score", m.score, X[a:b])
            ctx.close(got, want[a:b, k].sum(), "density-many",
                      float(tol[a:b, k].sum()),
                      f"{fam}: sum of {b - a} log densities of state {k}")
    if spec["family"] == "gauss":
        got = ctx.api("stats.log_multivariate_normal_density",
                      H.stats.log_multivariate_normal_density, X,
                      np.asarray(spec["means"]), np.asarray(spec["covars"]),
                      covariance_type=spec["ct"])
        ctx.close(got, want, "stats-density", tol,
                  f"log_multivariate_normal_density of {T} samples")
    ctx.count("many-samples")


DIRECTED = [many] * 24


def stats_function(ctx):
    rng, H = ctx.rng, ctx.H
    ct = str(rng.choice(gen.CTS))
    spec = gen.make_spec(rng, "gauss:" + ct,
                         cond=10. ** rng.uniform(0, 8), nc=int(
                             rng.integers(1, 6)), nf=int(rng.integers(1, 7)))
    X = observations(ctx, spec)
    want = ref.log_emission(spec, X)
    tol = tolerance(spec, X, want)
    args = [gen.container(rng, np.asarray(v, float), lists=False)
            for v in (X, spec["means"], spec["covars"])]
    before = [np.array(a) for a in args]
    if ct == "diag" and rng.random() < .5:
        got = ctx.api("stats.log_multivariate_normal_density",
                      H.stats.log_multivariate_normal_density, *args)
    else:
        got = ctx.api("stats.log_multivariate_normal_density",
                      H.stats.log_multivariate_normal_density, *args,
                      covariance_type=ct)
    ctx.close(got, want, "stats-density", tol,
              f"log_multivariate_normal_density({ct})")
    for a, b in zip(args, before):
        ctx.check(np.array_equal(np.asarray(a), b), "inputs-unchanged",
                  "log_multivariate_normal_density changed its input")
    ctx.count("stats-function")
    ctx.cover("stats", ct, spec["nc"], spec["nf"])
    ctx.detail.update(stats=ct, X=X, params=spec)
    ctx.feed("stats", X, *[np.asarray(spec[a]) for a in ("means", "covars")])
    ctx.nontrivial = True


def case(ctx):
    rng = ctx.rng
    if rng.random() < .25:
        return stats_function(ctx)
    fam, spec = emission_spec(ctx)
    X = observations(ctx, spec)
    spec["transmat"] = np.eye(spec["nc"])
    ctx.detail.update(family=fam, X=X,
                      params={a: spec[a] for a in gen.attrs_of(spec)})
    ctx.feed(fam, X, *[np.asarray(spec[a]) for a in gen.attrs_of(spec)])
    ctx.nontrivial = True
    base = spec["family"]
    ctx.count("fam:" + base)
    ctx.cover(fam, spec["nc"], spec["nf"])
    impl = "scaling" if rng.random() < .35 else "log"
    m = gen.build(ctx.H, spec, rng, implementation=impl)
    judge(ctx, spec, X, m, impl, fam)
    if impl == "log" and rng.random() < .35:
        mass(ctx, spec, m)
    if rng.random() < .3:
        fitted(ctx, fam, impl)


def fitted(ctx, fam, impl):
    """The same for parameters that fit produced (other internal layouts)."""
    rng = ctx.rng
    src = gen.make_spec(rng, fam, mild=True, nc=int(rng.integers(1, 4)))
    n = 60
    X = gen.sample(rng, src, n)
    if src["family"] == "gauss" and rng.random() < .4:
        m = ctx.H.vhmm.VariationalGaussianHMM(
            src["nc"], src["ct"], n_iter=2, random_state=int(
                rng.integers(1000)), implementation=impl)
        src = dict(src)
    else:
        m = gen.cls_of(ctx.H, src)(**gen.ctor_args(src), n_iter=2,
                                   random_state=int(rng.integers(1000)),
                                   implementation=impl, **common.fit_kw(src))
    ctx.api("fit", m.fit, X)
    got = gen.read(m, src)
    if not all(np.all(np.isfinite(got[a])) for a in gen.attrs_of(src)):
        return
    if src["family"] == "multi" and got["emissionprob"].min() < 1e-3:
        return
    if src["family"] in ("gauss", "gmm"):
        c = np.asarray(got["covars"])
        if src["ct"] in ("full", "tied"):
            ev = np.linalg.eigvalsh(c.reshape(-1, src["nf"], src["nf"]))
            if ev.min() <= 0 or (ev.max(axis=1) / ev.min(axis=1)).max() > 1e8:
                return
        elif c.min() < 1e-8:
            return
    ctx.detail["fitted"] = type(m).__name__
    judge(ctx, got, X[:3], m, impl, "fitted " + type(m).__name__)
    ctx.count("fitted")
