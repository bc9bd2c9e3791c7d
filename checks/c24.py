"""C24: variational posteriors are prior plus expected counts."""
import numpy as np

from checks import c22, c23
from lib import common, gen, ref, vb
from lib.runner import Skip

CASES = {"quick": 1500, "thorough": 24000}
RULE = ("variational models with random or default priors (numbers and "
        "arrays) initialised from data or by hand; single iterations from "
        "known posteriors are compared with prior plus expected statistics "
        "computed in extended precision under the expected log parameters; "
        "then the point estimates with the posteriors, and scores, posteriors, "
        "decoding and samples with those of an EM model given the point "
        "estimates; non-trivial = more than one state")
REQUIRED = (["family:" + f for f in vb.FAMS]
            + ["param:" + a for a in (
                "startprob_posterior_", "transmat_posterior_",
                "emissionprob_posterior_", "means_posterior_",
                "beta_posterior_", "dof_posterior_", "scale_posterior_")]
            + ["init:data", "init:random", "impl:log", "impl:scaling",
               "subset", "second-iteration", "scale with fixed means",
               "prior:default", "prior:random", "prior:scalar", "prior:array",
               "unchanged", "hand-set", "point-estimates", "as-em-model", "sampled",
               "unit sequences"])
ASSUMPTIONS = [
    "diag scale posteriors are per dimension; spherical ones add the mean "
    "over dimensions of the per-dimension scatter to the prior",
    "updates with the scatter about the posterior means in force: the new "
    "ones if the means are trained",
    "a second moment is summed before the means are subtracted: rounding "
    "proportional to the squared magnitude of the data is allowed"]


def random_start(ctx, m, t):
    rng = ctx.rng
    m.set_params(init_params="")
    if t.fam == "vcat":
        m.n_features = t.nf
    c22.random_start(ctx, m, t)
    if t.ct in ("diag", "spherical"):
        s = (t.nc, t.nf) if t.ct == "diag" else (t.nc,)
        m.scale_posterior_ = (rng.uniform(.2, 3., s) * 5
                              * (float(np.std(t.X)) ** 2 + 1e-2))
        m.scale_prior_ = t.pri.get("scale_prior", np.full(s, 1e-3))


def hand_set(ctx, m, t):
    """Replace some posteriors of a fitted model by other valid ones."""
    rng = ctx.rng
    for a in vb.post_attrs(t.fam):
        v = np.array(getattr(m, a), float)
        if rng.random() < .5:
            continue
        if a == "means_posterior_":
            v = v + .3 * np.std(t.X) * rng.standard_normal(v.shape)
        elif a == "scale_posterior_":
            v = v * rng.uniform(.7, 2.)
        else:
            v = v * rng.uniform(1., 3., v.shape)
        setattr(m, a, v)


def update(t, Q, params):
    """(posteriors after one iteration from Q, magnitude of log emissions)."""
    nc, nf = t.nc, t.nf
    lpi, lA, lB = c23.log_subnorm(t, Q)
    start = np.zeros(nc, ref.LD)
    trans = np.zeros((nc, nc), ref.LD)
    G = []
    for b in ref.split(lB, t.lengths):
        _, g, xi = ref.estep(lpi, lA, b)
        start += g[0]
        trans += xi
        G.append(g)
    G = np.concatenate(G)
    mag = float(np.abs(lB).max(axis=1).sum())
    n = G.sum(axis=0)
    X = ref.ld(t.X)
    new = dict(Q)
    if "s" in params:
        new["startprob_posterior_"] = Q["startprob_prior_"] + start
    if "t" in params:
        new["transmat_posterior_"] = Q["transmat_prior_"] + trans
    if t.fam == "vcat":
        if "e" in params:
            obs = np.zeros((nc, nf), ref.LD)
            for i in range(t.T):
                obs[:, int(t.X[i, 0])] += G[i]
            new["emissionprob_posterior_"] = Q["emissionprob_prior_"] + obs
        return new, mag, n
    b0, m0 = ref.ld(Q["beta_prior_"]), ref.ld(Q["means_prior_"])
    if "m" in params:
        new["beta_posterior_"] = b0 + n
        new["means_posterior_"] = ((b0[:, None] * m0 + G.T @ X)
                                   / (b0 + n)[:, None])
    if "c" in params:
        mu = ref.ld(new["means_posterior_"])
        D = X[:, None] - mu
        e = mu - m0
        S = np.einsum("tk,tki,tkj->kij", G, D, D) + b0[:, None, None] * (
            e[:, :, None] * e[:, None, :])
        d = np.einsum("kii->ki", S)
        if t.ct == "tied":
            new["dof_posterior_"] = ref.ld(Q["dof_prior_"]) + n.sum()
            add = S.sum(axis=0)
        else:
            new["dof_posterior_"] = ref.ld(Q["dof_prior_"]) + n
            add = {"full": S, "diag": d, "spherical": d.mean(axis=1)}[t.ct]
        new["scale_posterior_"] = ref.ld(Q["scale_prior_"]) + add
    return new, mag, n


def tolerance(a, t, Q, want, mag):
    rel = 1e-9 + 1e-12 * mag
    w = np.abs(np.asarray(want, float))
    if t.fam == "vcat" or a[:4] in ("star", "tran", "beta", "dof_"):
        return rel * (w + t.T) + 1e-14
    sc = max(float(np.abs(t.X).max()), float(np.abs(Q["means_prior_"]).max()),
             float(np.abs(Q["means_posterior_"]).max()))
    if a == "means_posterior_":
        return rel * (w + sc)
    return rel * w + (rel + 1e-12) * t.T * sc ** 2


def point_estimates(ctx, m, t, what):
    """Read the EM-style parameters and compare them with the posteriors."""
    Q = vb.read(m, t.fam)
    nc, nf = t.nc, t.nf
    spec = dict(family="cat" if t.fam == "vcat" else "gauss", ct=t.ct, nc=nc,
                nf=nf)

    def norm(p):
        return p / p.sum(axis=-1, keepdims=True)
    want = {"startprob": norm(Q["startprob_posterior_"]),
            "transmat": norm(Q["transmat_posterior_"])}
    if t.fam == "vcat":
        want["emissionprob"] = norm(Q["emissionprob_posterior_"])
    else:
        want["means"] = Q["means_posterior_"]
        S, dof = Q["scale_posterior_"], Q["dof_posterior_"]
        want["covars"] = S / (dof if t.ct == "tied" else
                              dof.reshape((nc,) + (1,) * (S.ndim - 1)))
    got = gen.read(m, spec)
    for a, w in want.items():
        ctx.close(got[a], w, "point-estimate",
                  1e-12 * max(1e-300, float(np.abs(w).max())),
                  f"{what}: {a}_ vs posterior")
    ctx.count("point-estimates")
    spec.update(got)
    return spec


def as_em_model(ctx, m, t, spec, what):
    """Inference and sampling are those of the EM model with its parameters."""
    rng = ctx.rng
    n = int(rng.integers(1, 30))
    L = gen.partition(rng, n)
    Y = gen.sample(rng, t.src, n, L)
    if t.fam == "vcat" and Y.max() >= spec["emissionprob"].shape[1]:
        return
    em = gen.build(ctx.H, spec, None, implementation=t.impl)
    lpi, lA, seqs, mag = common.oracle(spec, Y, L)
    if t.impl == "scaling" and max(
            gen.dyn_range(lpi, lA, s)[0] for s in seqs) > common.SAFE:
        return
    cd = 1.
    if t.ct in ("full", "tied"):
        cd = float(np.max(np.linalg.cond(spec["covars"])))
    if cd > 1e9:
        return
    tol = 1e-9 + 1e-12 * mag + 1e-15 * cd * mag
    ll, g = 0., []
    for s in seqs:
        v, gg, _ = ref.estep(lpi, lA, s)
        ll += v
        g.append(gg)
    sc, P = ctx.api("score_samples", m.score_samples, Y, L)
    ctx.close(sc, ll, "score", tol, f"{what}: score vs oracle")
    ctx.close(ctx.api("score", m.score, Y, L), ll, "score", tol,
              f"{what}: score vs oracle")
    ctx.close(P, np.concatenate(g), "posteriors", tol,
              f"{what}: posteriors vs oracle")
    ctx.close(ctx.api("predict_proba", m.predict_proba, Y, L),
              np.concatenate(g), "posteriors", tol,
              f"{what}: predict_proba vs oracle")
    for alg in ("viterbi", "map"):
        a = ctx.api("decode", m.decode, Y, L, alg)
        b = ctx.api("decode (EM model)", em.decode, Y, L, alg)
        ctx.close(a[0], b[0], "decode", tol, f"{what}: decode {alg} score")
        if alg == "viterbi":
            best = sum(ref.viterbi_value(lpi, lA, s) for s in seqs)
            ctx.close(a[0], best, "decode", tol, f"{what}: Viterbi score")
            z, i, v = np.asarray(a[1]), 0, 0.
            for s in seqs:
                v += ref.path_logprob(lpi, lA, s, z[i:i + len(s)])
                i += len(s)
            ctx.close(v, best, "decode", tol, f"{what}: Viterbi path")
    ctx.count("as-em-model")
    seed = int(rng.integers(1 << 20))
    k = int(rng.integers(1, 40))
    # a categorical draw can fall between two cumulative sums that differ by
    # one rounding: compare with a model of the very same parameters
    for x in ("startprob_", "transmat_", "emissionprob_"):
        if hasattr(m, x):
            setattr(em, x, np.array(getattr(m, x)))
    a = ctx.api("sample", m.sample, k, random_state=seed)
    b = ctx.api("sample (EM model)", em.sample, k, random_state=seed)
    ctx.close(a[1], b[1], "sample", 0, f"{what}: sampled states")
    ctx.close(a[0], b[0], "sample",
              1e-9 * (1 + float(np.abs(b[0]).max())), f"{what}: samples")
    ctx.count("sampled")


def case(ctx):
    rng = ctx.rng
    t = vb.make(ctx)
    if rng.random() < .1:
        t.lengths = [1] * t.T
        ctx.count("unit sequences")
    if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < t.nc + t.nf + 1:
        raise Skip("fewer distinct points than needed")
    m = vb.model(ctx, t)
    init = "random" if rng.random() < .5 else "data"
    if init == "random":
        random_start(ctx, m, t)
    else:
        c22.bounds(ctx, m, t, t.X)
        m.set_params(init_params="")
    for f in ("family:" + t.fam, "impl:" + t.impl, "init:" + init,
              "prior:" + ("random" if t.pri else "default")):
        ctx.count(f)
    for p in t.pri.values():
        ctx.count("prior:scalar" if np.ndim(p) == 0 else "prior:array")
    ctx.cover(t.fam, init, "".join(sorted(t.params)), t.impl)
    Xc = gen.x_container(rng, t.X)
    Lc = gen.len_container(rng, t.lengths)
    params = t.params
    what = f"{t.fam}, start from {init}, {t.impl}"
    for it in range(int(rng.integers(1, 4))):
        if it and rng.random() < .5:
            params = "".join(c for c in t.codes if rng.random() < .6) or "t"
            m.set_params(params=params)
        if it and rng.random() < .35:
            # New posteriors by hand, trained or not in the next iteration
            hand_set(ctx, m, t)
            if rng.random() < .5:
                params = str(rng.choice(list(t.codes)))
                m.set_params(params=params)
            ctx.count("hand-set")
        Q = vb.read(m, t.fam)
        try:
            new, mag, n = update(t, Q, params)
        except np.linalg.LinAlgError:
            raise Skip("singular scale matrix")
        if c23.cond(t, Q) > 1e9:
            raise Skip("ill-conditioned scale matrix")
        ctx.counts["api_calls"] += 1
        try:
            m.fit(Xc, Lc)
        except ValueError as e:
            if t.impl == "scaling" and "underflow" in str(e):
                raise Skip("scaling refused: underflow")
            raise
        got = vb.read(m, t.fam)
        for a in got:
            if a in vb.post_attrs(t.fam, [c for c in t.codes
                                          if c in params]):
                ctx.close(got[a], np.asarray(new[a]), "update",
                          tolerance(a, t, Q, new[a], mag
                                    * max(1., 1e-4 * c23.cond(t, Q))),
                          f"{what}: {a} after iteration {it + 1} with params "
                          f"{params!r}", before=Q)
                ctx.count("param:" + a)
            else:
                ctx.close(got[a], Q[a], "unchanged", 0,
                          f"{what}: {a} changed with params {params!r}")
                ctx.count("unchanged")
        if len(set(params)) < len(t.codes):
            ctx.count("subset")
        if "c" in params and "m" not in params and t.fam != "vcat":
            ctx.count("scale with fixed means")
        if it:
            ctx.count("second-iteration")
    spec = point_estimates(ctx, m, t, what)
    as_em_model(ctx, m, t, spec, what)
