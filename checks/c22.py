"""C22: variational training never decreases the lower bound."""
import numpy as np

from lib import gen, vb
from lib.runner import Skip

CASES = {"quick": 1300, "thorough": 20000}
FAMS = ["vcat", "vgauss:full", "vgauss:tied"]
RULE = ("variational models with random or default priors, initialised from "
        "data or with random posteriors, fitted for 3-40 iterations with any "
        "subset of params, then further with other subsets; the recorded "
        "bound must not decrease within a fit nor from one fit to the next; "
        "non-trivial = more than one state and a bound that rose")
REQUIRED = (["family:" + f for f in FAMS]
            + ["init:data", "init:random", "subset", "full-set", "impl:log",
               "impl:scaling", "continued", "pairs", "rose", "many-iterations",
               "prior:default", "prior:random"])
ASSUMPTIONS = [
    "rounding slack 1e-8 times the largest magnitude of the recorded bounds "
    "plus 1e-7",
    "diag and spherical covariances have no guarantee (their update is not "
    "the coordinate-wise optimum of the bound)",
    "data without spread (a cluster of identical points, an empty cluster) "
    "may be rejected"]


def random_start(ctx, m, t):
    """Valid posteriors unrelated to the data; priors as the model sets
    them."""
    rng = ctx.rng
    nc, nf = t.nc, t.nf
    sc = float(np.std(t.X)) + 1e-2

    def dirichlet(*shape):
        return rng.gamma(float(rng.choice([.5, 2., 10.])), size=shape) + .05
    m.startprob_posterior_ = gen.container(rng, dirichlet(nc), lists=False)
    m.transmat_posterior_ = gen.container(rng, dirichlet(nc, nc),
                                           lists=False)
    m.startprob_prior_ = np.full(nc, t.pri.get("startprob_prior", 1 / nc))
    m.transmat_prior_ = np.full((nc, nc), t.pri.get("transmat_prior", 1 / nc))
    if t.fam == "vcat":
        m.emissionprob_posterior_ = gen.container(rng, dirichlet(nc, nf),
                                                  lists=False)
        m.emissionprob_prior_ = np.full(
            (nc, nf), t.pri.get("emissionprob_prior", 1 / nf))
        return
    m.means_posterior_ = gen.container(
        rng, np.mean(t.X, axis=0) + sc * rng.standard_normal((nc, nf)),
        lists=False)
    m.beta_posterior_ = rng.uniform(.1, 20, nc)
    m.means_prior_ = t.pri.get("means_prior", np.full(
        (nc, nf), np.mean(t.X, axis=0)))
    m.beta_prior_ = t.pri.get("beta_prior", np.ones(nc))
    dof = nf + rng.uniform(0, 30, nc)
    if t.ct == "tied":
        m.dof_posterior_ = float(dof[0])
        m.dof_prior_ = t.pri.get("dof_prior", nf)
        m.scale_posterior_ = gen.spd(rng, nf, 20., sc ** 2) * dof[0]
        m.scale_prior_ = t.pri.get("scale_prior", 1e-3 * np.eye(nf))
    else:
        m.dof_posterior_ = dof
        m.dof_prior_ = t.pri.get("dof_prior", np.full(nc, nf))
        m.scale_posterior_ = np.array(
            [gen.spd(rng, nf, 20., sc ** 2) * d for d in dof])
        m.scale_prior_ = t.pri.get("scale_prior", np.array(
            [1e-3 * np.eye(nf)] * nc))


def refused(e):
    return ("underflow" in str(e) or "singular" in str(e).lower()
            or isinstance(e, np.linalg.LinAlgError))


def bounds(ctx, m, t, X):
    """The bounds recorded by one fit."""
    ctx.counts["api_calls"] += 1
    try:
        m.fit(X, t.lengths)
    except ValueError as e:
        if t.impl == "scaling" and "underflow" in str(e):
            raise Skip("scaling refused: underflow")
        if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < t.nc + t.nf + 1:
            raise Skip("fewer distinct points than needed")
        raise
    return np.array(list(m.monitor_.history), float)


def monotone(ctx, h, what):
    ctx.check(np.all(np.isfinite(h)), "finite", f"{what}: bounds {h}")
    d = np.diff(h)
    tol = 1e-7 + 1e-8 * np.maximum(np.abs(h[1:]), np.abs(h[:-1]))
    i = int(np.argmin(d + tol)) if len(d) else 0
    ctx.check(np.all(d >= -tol), "monotone",
              f"{what}: the bound went from {h[i] if len(d) else 0!r} to "
              f"{h[i + 1] if len(d) else 0!r} at iteration {i + 2} of "
              f"{len(h)}", history=h)
    ctx.count("pairs", len(d))
    if np.any(d > tol):
        ctx.count("rose")
        return True
    return False


def case(ctx):
    rng = ctx.rng
    t = vb.make(ctx, fams=FAMS)
    if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < t.nc:
        raise Skip("fewer distinct points than states")
    n = int(rng.choice([3, 8, 40]))
    m = vb.model(ctx, t, n_iter=n, tol=-np.inf)
    init = "data"
    if rng.random() < .5:
        init = "random"
        m.set_params(init_params="")
        if t.fam == "vcat":
            m.n_features = t.nf
        random_start(ctx, m, t)
    X = gen.x_container(rng, t.X)
    ctx.detail.update(init=init, n_iter=n)
    ctx.count("family:" + t.fam)
    ctx.count("init:" + init)
    ctx.count("impl:" + t.impl)
    ctx.count("prior:" + ("random" if t.pri else "default"))
    full = set(t.params) == set(t.codes)
    ctx.count("full-set" if full else "subset")
    ctx.cover(t.fam, init, "".join(sorted(t.params)), t.impl, f"nc{t.nc}")
    what = f"{t.fam}, params {t.params!r}, start from {init}, {t.impl}"
    h = bounds(ctx, m, t, X)
    ctx.check(len(h) == n, "recorded", f"{len(h)} bounds recorded in {n} "
              "iterations")
    rose = monotone(ctx, h, what)
    if n == 40:
        ctx.count("many-iterations")
    if rng.random() < .6:
        m.set_params(init_params="")
        total = list(h[-1:])
        for _ in range(int(rng.integers(1, 4))):
            p = "".join(c for c in t.codes if rng.random() < .5) or t.codes
            q = int(rng.integers(1, 5))
            m.set_params(params=p, n_iter=q)
            m.monitor_.n_iter = q
            h = bounds(ctx, m, t, X)
            total += list(h)
            rose |= monotone(ctx, np.array(total),
                             f"{what}; continued with params {p!r}")
        ctx.count("continued")
    ctx.nontrivial = ctx.nontrivial and rose
