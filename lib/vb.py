"""Workloads for the variational models."""
import numpy as np

from lib import gen

FAMS = ["vcat", "vgauss:full", "vgauss:tied", "vgauss:diag",
        "vgauss:spherical"]
POST = {"s": ["startprob_posterior_"], "t": ["transmat_posterior_"],
        "e": ["emissionprob_posterior_"],
        "m": ["means_posterior_", "beta_posterior_"],
        "c": ["dof_posterior_", "scale_posterior_"]}
PRIOR = {"s": ["startprob_prior_"], "t": ["transmat_prior_"],
         "e": ["emissionprob_prior_"], "m": ["means_prior_", "beta_prior_"],
         "c": ["dof_prior_", "scale_prior_"]}


def codes(fam):
    return "ste" if fam == "vcat" else "stmc"


def em_fam(fam):
    return "cat" if fam == "vcat" else "gauss:" + fam.partition(":")[2]


def post_attrs(fam, which=None):
    return [a for c in (codes(fam) if which is None else which)
            for a in POST[c]]


def prior_attrs(fam, which=None):
    return [a for c in (codes(fam) if which is None else which)
            for a in PRIOR[c]]


def dirichlet(rng, shape):
    if rng.random() < .1:           # integers are numbers, too
        return rng.integers(1, 4, size=shape)
    k = rng.integers(4)
    if k == 0:
        return float(rng.choice([.01, .5, 1., 4.]))
    return rng.uniform(.05, 3., size=shape)


def priors(rng, fam, nc, nf, X, some=True):
    """Constructor arguments describing the priors; {} = all defaults."""
    ct = fam.partition(":")[2]
    p = {}
    if not some or rng.random() < .3:
        return p
    if rng.random() < .7:
        p["startprob_prior"] = dirichlet(rng, nc)
    if rng.random() < .7:
        p["transmat_prior"] = dirichlet(rng, (nc, nc))
    if fam == "vcat":
        if rng.random() < .7:
            p["emissionprob_prior"] = dirichlet(rng, (nc, nf))
        return p
    sc = float(np.std(X)) + 1e-3
    if rng.random() < .7:
        p["means_prior"] = (np.mean(X, axis=0)
                            + sc * rng.standard_normal((nc, nf)))
    if rng.random() < .7:
        p["beta_prior"] = rng.uniform(.05, 3., size=nc)
    if rng.random() < .7:
        p["dof_prior"] = (float(nf + rng.uniform(0, 4)) if ct == "tied"
                          else nf + rng.uniform(0, 4, size=nc))
    if rng.random() < .1:
        for k in p:
            if k in ("means_prior", "beta_prior", "dof_prior"):
                p[k] = np.ceil(p[k]).astype(int)
    if rng.random() < .7:
        p["scale_prior"] = {
            "full": lambda: np.array([gen.spd(rng, nf, 10., sc ** 2)
                                      for _ in range(nc)]),
            "tied": lambda: gen.spd(rng, nf, 10., sc ** 2),
            "diag": lambda: rng.uniform(.1, 2, size=(nc, nf)) * sc ** 2,
            "spherical": lambda: rng.uniform(.1, 2, size=nc) * sc ** 2,
        }[ct]()
    return p


def build(H, fam, nc, **kw):
    if fam == "vcat":
        return H.vhmm.VariationalCategoricalHMM(nc, **kw)
    return H.vhmm.VariationalGaussianHMM(
        nc, covariance_type=fam.partition(":")[2], **kw)


def copies(pri):
    return {k: (np.array(v) if isinstance(v, np.ndarray) else v)
            for k, v in pri.items()}


class Training:
    pass


def make(ctx, fam=None, T=None, fams=None, nc=None, wide=False):
    rng = ctx.rng
    fams = fams or FAMS
    t = Training()
    t.fam = fam or fams[int(rng.integers(len(fams)))]
    t.ct = t.fam.partition(":")[2] or None
    t.T = T or int(rng.choice([8, 20, 60, 150]))
    src = gen.make_spec(rng, em_fam(t.fam), mild=True,
                        sep=float(rng.choice([.5, 1., 3.])),
                        nf=gen.wide_nf(rng, em_fam(t.fam)) if wide else None)
    t.src = src
    t.nc = nc or (src["nc"] if rng.random() < .6
                  else int(rng.integers(1, 5)))
    t.nc = min(t.nc, t.T)
    t.lengths = gen.partition(rng, t.T)
    t.X = gen.sample(rng, src, t.T, t.lengths)
    if t.X.dtype.kind == "f" and rng.random() < .12:
        t.X = np.rint(t.X * float(rng.choice([8., 30.])))
        if rng.random() < .5:
            t.X -= t.X.min()
    t.nf = src["nf"]
    t.pri = priors(rng, t.fam, t.nc, t.nf, t.X)
    t.codes = codes(t.fam)
    t.params = ("".join(rng.permutation(list(t.codes)))
                if rng.random() < .5 else
                "".join(c for c in t.codes if rng.random() < .6) or "s")
    t.impl = str(rng.choice(["log", "scaling"]))
    t.seed = int(rng.integers(1 << 20))
    ctx.detail.update(family=t.fam, nc=t.nc, T=t.T, X=t.X, lengths=t.lengths,
                      priors=t.pri, params=t.params, impl=t.impl, seed=t.seed)
    ctx.feed(t.fam, t.nc, t.X, str(t.lengths), repr(t.pri), t.params, t.impl)
    ctx.nontrivial = t.nc > 1
    return t


def model(ctx, t, **kw):
    args = dict(implementation=t.impl, params=t.params, tol=-np.inf,
                n_iter=1, random_state=t.seed, init_params=t.codes)
    args.update(copies(t.pri))
    if t.fam == "vcat":
        args["n_features"] = t.nf
    args.update(kw)
    return build(ctx.H, t.fam, t.nc, **args)


def read(m, fam, which=None):
    out = {}
    for a in post_attrs(fam, which) + prior_attrs(fam, which):
        if hasattr(m, a):
            out[a] = np.array(getattr(m, a), dtype=float)
    return out


def fit(ctx, m, t):
    """fit, skipping the case where 'scaling' refuses because of underflow."""
    from lib.runner import Skip
    if t.impl == "log":
        return ctx.api("fit", m.fit, t.X, t.lengths)
    ctx.counts["api_calls"] += 1
    try:
        return m.fit(t.X, t.lengths)
    except ValueError as e:
        if "underflow" in str(e):
            raise Skip("scaling refused: underflow")
        raise
