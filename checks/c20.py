"""C20: AIC and BIC use the exact likelihood and free parameter count."""
import numpy as np

from lib import common, gen, ref, train

CASES = {"quick": 2200, "thorough": 40000}
RULE = ("models of every EM family and covariance type, up to 40 states, 12 "
        "features and 5 mixture components, hand-set, fitted, re-assigned or "
        "restored from a pickle, scored on data of any partition under both "
        "implementations; non-trivial = more than one state")
FAMS = gen.REAL_FAMS
REQUIRED = ["aic", "bic", "hand-set", "fitted", "impl:log", "impl:scaling",
            "big", "dof-recovered"] + ["family:" + f for f in FAMS]
ASSUMPTIONS = [
    "the likelihood is the oracle's; for fitted models it is computed from "
    "the parameters the model reports",
    "every parameter of the family is counted, whether or not fit was asked "
    "to update it"]


def dof(spec):
    """Free parameters, counted from the model's definition."""
    nc, nf = spec["nc"], spec["nf"]
    base, ct = spec["family"], spec["ct"]
    # a stochastic vector of n entries has n - 1 free ones
    k = (nc - 1) + sum(nc - 1 for _ in range(nc))
    if base in ("cat", "multi"):
        return k + sum(nf - 1 for _ in range(nc))
    if base == "poisson":
        return k + nc * nf
    sym = len([(i, j) for i in range(nf) for j in range(i + 1)])
    if base == "gauss":
        cov = {"spherical": nc, "diag": nc * nf, "full": nc * sym,
               "tied": sym}[ct]
        return k + nc * nf + cov
    nm = spec["nm"]
    cov = {"spherical": nc * nm, "diag": nc * nm * nf, "full": nc * nm * sym,
           "tied": nc * sym}[ct]
    return k + nc * nm * nf + nc * (nm - 1) + cov


def judge(ctx, m, spec, X, lengths, ll, tol, Xc=None, Lc=None):
    Xc = X if Xc is None else Xc
    Lc = lengths if Lc is None else Lc
    k = dof(spec)
    n = len(X)
    first = str(ctx.rng.choice(["aic", "bic"]))
    for name in (first, {"aic": "bic", "bic": "aic"}[first]):
        got = ctx.api(name, getattr(m, name), Xc, Lc)
        pen = 2 * k if name == "aic" else k * float(np.log(n))
        ctx.close(got, -2 * ll + pen, name, 2 * tol + 1e-12 * pen,
                  f"{name} of a {ctx.detail['family']} model, nc={spec['nc']}"
                  f" nf={spec['nf']} nm={spec.get('nm')} n={n}: ")
        ctx.count(name)
        if name == "aic":
            # the count alone, free of the likelihood's magnitude
            s = ctx.api("score", m.score, Xc, Lc)
            if abs(s) < 1e7 and np.isfinite(s):
                ctx.close((got + 2 * s) / 2, k, "free-parameters", 1e-6,
                          "number of free parameters")
                ctx.count("dof-recovered")
    ctx.count("family:" + ctx.detail["family"])


def hand_set(ctx):
    c = common.inference_case(ctx, families=FAMS, possible=True)
    impl = "log"
    if ctx.rng.random() < .4 and common.dyn(c)[0] < common.SAFE:
        impl = "scaling"
    ctx.count("impl:" + impl)
    m = common.models(ctx, c, impl)
    ctx.count("hand-set")
    ctx.cover(c.fam, impl, "hand-set")
    judge(ctx, m, c.spec, c.X, c.lengths, float(c.lls.sum()), c.tol,
          c.Xc, c.Lc)


def big(ctx):
    rng = ctx.rng
    fam = FAMS[int(rng.integers(len(FAMS)))]
    spec = gen.make_spec(
        rng, fam, nc=int(rng.integers(1, 41)),
        nf=int(rng.integers(2 if fam == "multi" else 1, 13)),
        nm=int(rng.integers(1, 6)), mild=True)
    n = int(rng.choice([1, 2, 5, 30]))
    lengths = gen.partition(rng, n)
    X = gen.sample(rng, spec, n, lengths)
    ctx.detail.update(family=fam, nc=spec["nc"], nf=spec["nf"],
                      nm=spec.get("nm"), n=n)
    ctx.feed("big", fam, spec["nc"], spec["nf"], spec.get("nm"), X)
    ctx.nontrivial = spec["nc"] > 1
    o = common.oracle(spec, X, lengths)
    ll = float(sum(ref.lse(ref.forward(o[0], o[1], s)[-1]) for s in o[2]))
    m = gen.build(ctx.H, spec, rng)
    ctx.count("big")
    ctx.cover(fam, "big")
    judge(ctx, m, spec, X, lengths, ll, 1e-9 + 1e-12 * o[3] + 1e-12 * n)


def fitted(ctx):
    import pickle
    rng = ctx.rng
    fam = FAMS[int(rng.integers(len(FAMS)))]
    spec = gen.make_spec(rng, fam, mild=True)
    n = int(rng.integers(30, 80))
    lengths = gen.partition(rng, n)
    X = gen.sample(rng, spec, n, lengths)
    params = train.subset(rng, spec) if rng.random() < .5 else \
        gen.all_params(spec)
    ctx.detail.update(family=fam, X=X, lengths=lengths, params=params)
    ctx.feed("fitted", fam, X, params)
    m = gen.build(ctx.H, spec, None, n_iter=int(rng.integers(1, 4)),
                  params=params, init_params="", random_state=0,
                  **common.fit_kw(spec))
    try:
        with np.errstate(all="ignore"):
            m.fit(X, lengths)
        new = gen.read(m, spec)
    except ValueError:
        ctx.count("degenerate")
        return
    if np.any(new["transmat"].sum(axis=1) < .5):    # nothing to learn it from
        ctx.count("unobserved-transitions")
        return
    if not all(np.all(np.isfinite(new[a])) for a in gen.attrs_of(spec)) \
            or train.degenerate(new, X, lengths):
        ctx.count("degenerate")
        return
    if rng.random() < .3:
        m = pickle.loads(pickle.dumps(m))
    ctx.nontrivial = spec["nc"] > 1
    k = int(rng.integers(1, n + 1))
    for Y, L in ((X, lengths), (X[:k], None)):
        o = common.oracle(new, Y, L)
        ll = float(sum(ref.lse(ref.forward(o[0], o[1], s)[-1])
                       for s in o[2]))
        if not np.isfinite(ll):
            continue
        judge(ctx, m, new, Y, L, ll,
              1e-7 + 1e-9 * o[3] + 1e-12 * len(Y))
    ctx.count("fitted")
    ctx.cover(fam, "fitted", params)


def case(ctx):
    k = ctx.rng.random()
    (hand_set if k < .45 else big if k < .75 else fitted)(ctx)
