"""C23: the recorded bound is a true lower bound on the log evidence."""
import numpy as np

from checks import c22
from lib import gen, ref, vb
from lib.runner import Skip

CASES = {"quick": 1300, "thorough": 16000}
RULE = ("variational models with random or default priors on data sets small "
        "enough to sum over all joint state assignments; every recorded bound "
        "is compared with the exact log evidence and, for the posteriors in "
        "force, with an independent evaluation of the bound; non-trivial = "
        "more than one state")
REQUIRED = (["family:" + f for f in vb.FAMS]
            + ["bound-vs-evidence", "bound-value", "equality", "impl:log",
               "impl:scaling", "prior:default", "prior:random", "subset",
               "init:data", "init:random", "several sequences", "tight"])
ASSUMPTIONS = [
    "diag and spherical models are judged as what their bound describes: a "
    "Wishart distribution over whole precision matrices with diagonal scale",
    "the omitted constant is the number of scalars times log(2 pi) / 2",
    "tolerance 1e-7 plus 1e-8 times the largest term",
    "the log evidence is summed in double precision"]


def full_scale(S, ct, nc, nf):
    S = np.asarray(S, float)
    if ct in ("full", "tied"):
        return S
    if ct == "diag":
        return np.array([np.diag(s) for s in S])
    return np.array([np.eye(nf) * s for s in S])


def evidence(t, P):
    """Exact log evidence; P = priors read from the model."""
    nc, nf, X = t.nc, t.nf, np.asarray(t.X)
    Z = ref.all_paths(nc, t.T)
    first = np.zeros(t.T, bool)
    first[np.concatenate([[0], np.cumsum(t.lengths or [t.T])[:-1]])] = True
    oh = (Z[:, :, None] == np.arange(nc)).astype(float)       # (P, T, nc)
    ll = ref.log_dirmult(oh[:, first].sum(axis=1), P["startprob_prior_"])
    step = ~first[1:]
    tr = np.einsum("pti,ptj->pij", oh[:, :-1][:, step], oh[:, 1:][:, step])
    ll = ll + ref.log_dirmult(tr, P["transmat_prior_"]).sum(axis=-1)
    if t.fam == "vcat":
        sym = (X == np.arange(nf)).astype(float)
        ll = ll + ref.log_dirmult(np.einsum("pti,ts->pis", oh, sym),
                                  P["emissionprob_prior_"]).sum(axis=-1)
        return float(ref.lse(ll))
    # Work about the data mean: the evidence does not depend on the origin,
    # rounding does.
    c = X.mean(axis=0)
    X = X.astype(float) - c
    m0, b0 = P["means_prior_"] - c, P["beta_prior_"]
    S0 = full_scale(P["scale_prior_"], t.ct, nc, nf)
    n = oh.sum(axis=1)
    sx = np.einsum("pti,td->pid", oh, X)
    if t.ct == "tied":
        ll = ll + ref.log_nw_tied_evidence(
            n, sx, np.broadcast_to(X.T @ X, (len(Z), nf, nf)), m0, b0,
            float(P["dof_prior_"]), S0)
        return float(ref.lse(ll))
    sxx = np.einsum("pti,td,te->pide", oh, X, X)
    for k in range(nc):
        ll = ll + ref.log_nw_evidence(n[:, k], sx[:, k], sxx[:, k], m0[k],
                                      b0[k], P["dof_prior_"][k], S0[k])
    return float(ref.lse(ll))


def log_subnorm(t, Q):
    """Expected log parameters under the posteriors Q, as the variational
    E-step needs them (longdouble lpi, lA and the (T, nc) emission part)."""
    nc, nf, X = t.nc, t.nf, np.asarray(t.X)
    lpi = ref.ld(ref.vb_sub_dirichlet(Q["startprob_posterior_"]))
    lA = ref.ld(ref.vb_sub_dirichlet(Q["transmat_posterior_"]))
    if t.fam == "vcat":
        lE = ref.vb_sub_dirichlet(Q["emissionprob_posterior_"])
        return lpi, lA, ref.ld(lE[:, X[:, 0]].T)
    S = full_scale(Q["scale_posterior_"], t.ct, nc, nf)
    dof = np.broadcast_to(Q["dof_posterior_"], nc)
    lB = np.empty((t.T, nc))
    for k in range(nc):
        Sk = S if t.ct == "tied" else S[k]
        d = X - Q["means_posterior_"][k]
        lB[:, k] = .5 * (ref.wishart_elogdet(dof[k], Sk)
                         - nf / Q["beta_posterior_"][k]
                         - dof[k] * (d * np.linalg.solve(Sk, d.T).T).sum(1))
    return lpi, lA, ref.ld(lB)


def bound(t, Q):
    """(lower bound at the posteriors Q, magnitude of its terms)."""
    nc, nf = t.nc, t.nf
    lpi, lA, lB = log_subnorm(t, Q)
    terms = [float(ref.lse(ref.forward(lpi, lA, b)[-1]))
             for b in ref.split(lB, t.lengths)]
    terms.append(-ref.kl_dirichlet(Q["startprob_posterior_"],
                                   Q["startprob_prior_"]))
    for k in range(nc):
        terms.append(-ref.kl_dirichlet(Q["transmat_posterior_"][k],
                                       Q["transmat_prior_"][k]))
        if t.fam == "vcat":
            terms.append(-ref.kl_dirichlet(Q["emissionprob_posterior_"][k],
                                           Q["emissionprob_prior_"][k]))
    if t.fam != "vcat":
        S = full_scale(Q["scale_posterior_"], t.ct, nc, nf)
        S0 = full_scale(Q["scale_prior_"], t.ct, nc, nf)
        dof = np.broadcast_to(Q["dof_posterior_"], nc)
        for k in range(nc):
            Sk = S if t.ct == "tied" else S[k]
            terms.append(-ref.ekl_normal(
                Q["means_posterior_"][k], Q["beta_posterior_"][k],
                Q["means_prior_"][k], Q["beta_prior_"][k],
                dof[k] * np.linalg.inv(Sk)))
            if t.ct != "tied":
                terms.append(-ref.kl_wishart(dof[k], Sk, Q["dof_prior_"][k],
                                             S0[k]))
        if t.ct == "tied":
            terms.append(-ref.kl_wishart(dof[0], S, float(Q["dof_prior_"]),
                                         S0))
    return sum(terms), float(np.abs(terms).sum())


def cond(t, Q):
    if t.fam == "vcat":
        return 1.
    S = full_scale(Q["scale_posterior_"], t.ct, t.nc, t.nf)
    return float(np.max(np.linalg.cond(S)))


def step(ctx, m, t):
    """One iteration from known posteriors: (posteriors before, bound)."""
    Q = vb.read(m, t.fam)
    m.set_params(init_params="", n_iter=1)
    h = c22.bounds(ctx, m, t, t.X)
    ctx.check(len(h) == 1 and np.isfinite(h[0]), "finite", f"bound {h}")
    return Q, float(h[0])


def tiny(ctx):
    rng = ctx.rng
    nc = int(rng.choice([1, 2, 2, 3]))
    T = int(rng.integers(2, {1: 12, 2: 11, 3: 8}[nc]))
    t = vb.make(ctx, T=T, nc=min(nc, T))
    if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < max(t.nc, 2):
        raise Skip("fewer distinct points than states")
    m = vb.model(ctx, t, n_iter=int(rng.choice([1, 3, 25])))
    init = "random" if rng.random() < .5 else "data"
    if init == "random":
        m.set_params(init_params="")
        if t.fam == "vcat":
            m.n_features = t.nf
        c22.random_start(ctx, m, t)
        if t.ct in ("diag", "spherical"):
            r = (lambda *s: rng.uniform(.2, 3., size=s))
            sc = float(np.std(t.X)) ** 2 + 1e-2
            s = (t.nc, t.nf) if t.ct == "diag" else (t.nc,)
            m.scale_posterior_ = r(*s) * sc * 5
            m.scale_prior_ = t.pri.get("scale_prior", np.full(s, 1e-3))
    ctx.count("init:" + init)
    return t, m


def case(ctx):
    rng = ctx.rng
    t, m = tiny(ctx)
    h = c22.bounds(ctx, m, t, t.X)
    P = vb.read(m, t.fam)
    ev = evidence(t, P)
    const = 0. if t.fam == "vcat" else t.T * t.nf / 2 * np.log(2 * np.pi)
    steps = []
    for _ in range(int(rng.integers(1, 3))):
        if rng.random() < .5:
            m.set_params(params="".join(c for c in t.codes
                                        if rng.random() < .6) or t.codes)
        steps.append(step(ctx, m, t))
    for f in ("family:" + t.fam, "impl:" + t.impl,
              "prior:" + ("random" if t.pri else "default")):
        ctx.count(f)
    if len(set(t.params)) < len(t.codes):
        ctx.count("subset")
    if t.lengths and len(t.lengths) > 1:
        ctx.count("several sequences")
    ctx.cover(t.fam, f"nc{t.nc}", f"T{t.T}", t.impl)
    what = f"{t.fam}, nc={t.nc}, T={t.T}, params {t.params!r}, {t.impl}"
    mag = 0.
    for Q, b in steps:
        v, g = bound(t, Q)
        mag = max(mag, g)
        ctx.close(b, v, "bound-value",
                  1e-7 + (1e-8 + 1e-13 * cond(t, Q)) * g,
                  f"{what}: recorded bound vs bound of the posteriors in "
                  "force", posteriors=Q)
        ctx.count("bound-value")
    tol = 1e-7 + 1e-8 * max(mag, np.abs(h).max(), abs(ev))
    vals = np.concatenate([h, [b for _, b in steps]]) - const
    ctx.check(np.all(vals <= ev + tol), "below-evidence",
              f"{what}: bound {vals.max()!r} exceeds the log evidence {ev!r}",
              bounds=vals, evidence=ev)
    ctx.count("bound-vs-evidence", len(vals))
    if ev - vals.max() < .05 * t.T:
        ctx.count("tight")
    if t.nc == 1 and (t.fam in ("vcat", "vgauss:full", "vgauss:tied")
                      or t.nf == 1):
        m.set_params(params=t.codes, n_iter=2)
        h = c22.bounds(ctx, m, t, t.X) - const
        ctx.close(h[1], ev, "equality", tol + 1e-8 * mag,
                  f"{what}: bound of a converged single-state model vs log "
                  "evidence")
        ctx.count("equality")
