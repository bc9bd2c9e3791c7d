"""Training workloads shared by the EM checks."""
import itertools

import numpy as np

from lib import common, gen, ref

TRAIN_FAMS = [f for f in gen.FAMS if f != "table"]


def pick_arr(rng, shape, lo, hi):
    """A scalar or a full array of prior parameters."""
    if rng.random() < .15:          # integers are numbers, too
        lo, hi = int(np.ceil(lo)), int(np.floor(hi))
        if rng.random() < .5:
            return int(rng.integers(lo, hi + 1))
        return rng.integers(lo, hi + 1, size=shape)
    if rng.random() < .5:
        return float(rng.uniform(lo, hi))
    return rng.uniform(lo, hi, size=shape)


def priors(rng, spec, kind, convex=False):
    """Constructor arguments for the priors (and nothing else)."""
    fam, nc, nf, ct = spec["family"], spec["nc"], spec["nf"], spec["ct"]
    lo = 1.0 if convex else .4
    p = {}
    if kind == "default":
        return p
    if kind == "flat":
        if fam == "gauss":
            p["covars_prior"] = 0.
            p["covars_weight"] = float(rng.choice([0., 1.]))
        return p
    if rng.random() < .7:
        p["startprob_prior"] = pick_arr(rng, nc, lo, 3.)
    if rng.random() < .7:
        p["transmat_prior"] = pick_arr(rng, (nc, nc), lo, 3.)
    if fam == "cat" and rng.random() < .8:
        p["emissionprob_prior"] = pick_arr(rng, (nc, nf), lo, 3.)
    if fam == "poisson" and rng.random() < .8:
        p["lambdas_prior"] = pick_arr(rng, (nc, nf), 0., 4.)
        p["lambdas_weight"] = pick_arr(rng, (nc, nf), 0., 2.)
    if fam == "gauss":
        if rng.random() < .8:
            p["means_prior"] = pick_arr(rng, (nc, nf), -3., 3.)
            p["means_weight"] = float(rng.uniform(0, 3))
        if rng.random() < .8:
            if ct in ("diag", "spherical"):
                p["covars_prior"] = pick_arr(rng, (nc, nf), 0., 2.)
            else:
                k = rng.integers(3)
                p["covars_prior"] = (
                    float(rng.uniform(0, 1)) if k == 0 else
                    gen.spd(rng, nf, 10.) if k == 1 or ct == "tied" else
                    np.array([gen.spd(rng, nf, 10.) for _ in range(nc)]))
            p["covars_weight"] = float(rng.uniform(0, nf + 4))
    if fam == "gmm":
        nm = spec["nm"]
        if rng.random() < .7:
            p["weights_prior"] = pick_arr(rng, (nc, nm), 1., 3.)
        if not convex and rng.random() < .6:
            p["means_prior"] = pick_arr(rng, (nc, nm, nf), -3., 3.)
            p["means_weight"] = pick_arr(rng, (nc, nm), 0., 3.)
        if not convex and rng.random() < .6:
            if ct == "full":
                p["covars_prior"] = (gen.spd(rng, nf, 10.) if rng.random() < .5
                                     else np.array([[gen.spd(rng, nf, 10.)
                                                     for _ in range(nm)]
                                                    for _ in range(nc)]))
                p["covars_weight"] = pick_arr(rng, (nc, nm), -1., 5.)
            elif ct == "tied":
                p["covars_prior"] = gen.spd(rng, nf, 10.)
                p["covars_weight"] = pick_arr(rng, (nc,), -1., 5.)
            elif ct == "diag":
                p["covars_prior"] = pick_arr(rng, (nc, nm, nf), -1., 4.)
                p["covars_weight"] = pick_arr(rng, (nc, nm, nf), 0., 3.)
            else:
                p["covars_prior"] = pick_arr(rng, (nc, nm), -1., 4.)
                p["covars_weight"] = pick_arr(rng, (nc, nm), 0., 3.)
    return p


def subset(rng, spec, full=.4):
    """A params string."""
    codes = gen.all_params(spec)
    if rng.random() < full:
        return "".join(rng.permutation(list(codes)))
    while True:
        s = [c for c in codes if rng.random() < .55]
        if s:
            return "".join(rng.permutation(s))


class Training:
    pass


def make(ctx, fam=None, kind=None, convex=False, T=None, zeros=False,
         fams=None, wide=False):
    """A starting model, data from another model, priors, params subset."""
    rng = ctx.rng
    fams = fams or TRAIN_FAMS
    fam = fam or fams[int(rng.integers(len(fams)))]
    t = Training()
    t.fam = fam
    t.kind = kind or str(rng.choice(["flat", "default", "random"]))
    sep = float(rng.choice([1., 3.]))
    src = gen.make_spec(rng, fam, mild=True, sep=sep,
                        nf=gen.wide_nf(rng, fam) if wide else None)
    if wide:
        gen.widen(rng, src)
    t.T = T or int(rng.choice([12, 30, 80, 200]))
    t.lengths = gen.partition(rng, t.T)
    t.X = gen.sample(rng, src, t.T, t.lengths)
    t.integral = bool(t.X.dtype.kind == "f" and rng.random() < .12)
    if t.integral:                  # counts, pixels, ...
        t.X = np.rint(t.X * float(rng.choice([8., 30.])))
        if rng.random() < .5:
            t.X -= t.X.min()
    k = dict(nc=src["nc"], nf=src["nf"], mild=True)
    if src["family"] == "gmm":
        k["nm"] = src["nm"]
    t.spec = gen.make_spec(rng, fam, sep=1., **k)
    if src["family"] == "multi":
        t.spec["n_trials"] = src["n_trials"]
    if wide and fam == "poisson":
        t.spec["lambdas"] = src["lambdas"] * rng.uniform(
            .7, 1.4, src["lambdas"].shape)
    if src["family"] in ("gauss", "gmm"):
        # start near the data so that every state is used
        m = t.spec["means"]
        idx = rng.integers(len(t.X), size=int(np.prod(m.shape[:-1])))
        t.spec["means"] = (t.X[idx].reshape(m.shape)
                           + .3 * rng.standard_normal(m.shape))
        t.spec["covars"] = t.spec["covars"] * max(1., float(np.var(t.X)))
    if zeros:
        nc = t.spec["nc"]
        if nc > 1:
            A = np.triu(t.spec["transmat"])
            if rng.random() < .5:
                A = t.spec["transmat"] * (rng.random((nc, nc)) < .6)
                A[np.arange(nc), np.arange(nc)] += .2
            t.spec["transmat"] = gen.fix_sum(A)
            p = t.spec["startprob"] * (rng.random(nc) < .6)
            if p.sum() == 0:
                p[0] = 1
            t.spec["startprob"] = gen.fix_sum(p)
    t.pri = priors(rng, t.spec, t.kind, convex)
    t.params = subset(rng, t.spec)
    t.impl = str(rng.choice(["log", "scaling"]))
    ctx.detail.update(family=fam, priors=t.pri, params=t.params, impl=t.impl,
                      T=t.T, lengths=t.lengths, X=t.X,
                      start={a: t.spec[a] for a in gen.attrs_of(t.spec)})
    ctx.feed(fam, t.X, str(t.lengths), t.params, repr(t.pri),
             *[np.asarray(t.spec[a]) for a in gen.attrs_of(t.spec)])
    ctx.nontrivial = t.spec["nc"] > 1
    return t


def model(ctx, t, spec=None, containers=True, **kw):
    args = dict(implementation=t.impl, params=t.params, init_params="",
                tol=-np.inf, n_iter=1)
    args.update({k: (np.array(v) if isinstance(v, np.ndarray) else v)
                 for k, v in t.pri.items()})
    args.update(common.fit_kw(t.spec))
    args.update(kw)
    return gen.build(ctx.H, spec or t.spec, ctx.rng if containers else None,
                     **args)


def occupancy(spec, X, lengths):
    lpi, lA = ref.logs(spec)
    return np.sum([np.asarray(ref.estep(lpi, lA, ref.log_emission(spec, s))[1]
                              .sum(axis=0), float)
                   for s in ref.split(np.asarray(X), lengths)], axis=0)


def collapsed_cov(spec, X):
    """Whether a covariance is (nearly) singular, or not finite."""
    if spec["family"] not in ("gauss", "gmm"):
        return False
    var = float(np.var(X)) + 1e-300
    c = np.asarray(spec["covars"], float)
    if not np.all(np.isfinite(c)):
        return True
    if spec["ct"] in ("full", "tied"):
        ev = np.linalg.eigvalsh(c.reshape(-1, spec["nf"], spec["nf"]))
        return not ev.min() > 1e-5 * var
    return not c.min() > 1e-5 * var


def min_occupancy(spec, X, lengths):
    """Smallest expected number of samples of a state (or component)."""
    lpi, lA = ref.logs(spec)
    G = np.concatenate([np.asarray(ref.estep(
        lpi, lA, ref.log_emission(spec, s))[1], float)
        for s in ref.split(np.asarray(X), lengths)])
    if spec["family"] == "gmm":
        with np.errstate(under="ignore"):
            R = np.exp(np.asarray(ref.mix_resp(spec, X), float))
        return float((R * G[:, :, None]).sum(axis=0).min())
    return float(G.sum(axis=0).min())


def degenerate(spec, X, lengths):
    """Whether a component has (almost) lost its data or its spread."""
    return collapsed_cov(spec, X) or not min_occupancy(
        spec, X, lengths) > .05


def may_collapse(spec, X, lengths):
    """Whether the next M-step may legitimately produce a degenerate model:
    a component with about as few samples as parameters, or repeated data."""
    if spec["family"] not in ("gauss", "gmm"):
        return degenerate(spec, X, lengths)
    nf = np.shape(X)[1]
    need = {"full": nf + 2, "tied": nf + 2}.get(spec.get("ct"), 3)
    return (degenerate(spec, X, lengths)
            or min_occupancy(spec, X, lengths) < need
            or len(np.unique(X, axis=0)) < need + spec["nc"])


def objective(spec, ll, pri, kind):
    """Log-likelihood plus the log prior the M-step maximises (constants
    dropped); None where it is not finite."""
    fam = spec["family"]
    J = float(ll)

    def dirichlet(alpha, p):
        a = np.broadcast_to(np.asarray(alpha, float), np.shape(p)) - 1
        p = np.asarray(p, float)
        use = (a != 0) & (p > 0)
        return float((a[use] * np.log(p[use])).sum())
    J += dirichlet(pri.get("startprob_prior", 1.), spec["startprob"])
    J += dirichlet(pri.get("transmat_prior", 1.), spec["transmat"])
    if fam == "cat":
        J += dirichlet(pri.get("emissionprob_prior", 1.), spec["emissionprob"])
    if fam == "gmm":
        J += dirichlet(pri.get("weights_prior", 1.), spec["weights"])
    if fam == "poisson":
        lam = np.asarray(spec["lambdas"], float)
        al = np.broadcast_to(pri.get("lambdas_prior", 0.), lam.shape)
        be = np.broadcast_to(pri.get("lambdas_weight", 0.), lam.shape)
        J += float(np.asarray(ref.xlogy(al, lam), float).sum()
                   - (be * lam).sum())
    if fam == "gauss":
        nc, nf, ct = spec["nc"], spec["nf"], spec["ct"]
        mu = np.asarray(spec["means"], float)
        m0 = np.broadcast_to(pri.get("means_prior", 0), (nc, nf))
        w0 = float(pri.get("means_weight", 0))
        cp = np.asarray(pri.get("covars_prior", 1e-2), float)
        cw = float(pri.get("covars_weight", 1))
        c = np.asarray(spec["covars"], float)
        if ct in ("diag", "spherical"):
            s = c if ct == "diag" else np.tile(c[:, None], (1, nf))
            J += float(-.5 * ((w0 * (mu - m0) ** 2 + cp) / s
                              + max(cw - 1, 0) * np.log(s)).sum())
        else:
            d = max(cw - nf, 0)
            def part(S, P, ms):
                inv = np.linalg.inv(S)
                v = d * np.linalg.slogdet(S)[1] + np.trace(
                    inv @ np.broadcast_to(P, (nf, nf)))
                for q in ms:
                    v += w0 * (mu[q] - m0[q]) @ inv @ (mu[q] - m0[q])
                return -.5 * v
            if ct == "tied":
                J += part(c, cp, range(nc))
            else:
                for k in range(nc):
                    J += part(c[k], cp[k] if cp.ndim == 3 else cp, [k])
    return J if np.isfinite(J) else None


def all_subsets(codes):
    return ["".join(s) for n in range(len(codes) + 1)
            for s in itertools.combinations(codes, n)]
