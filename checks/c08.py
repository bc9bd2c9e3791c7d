"""C08: sample draws from the model's joint distribution."""
import numpy as np
from scipy import stats as st

from lib import common, gen, ref, train

CASES = {"quick": 900, "thorough": 9000}
RULE = ("(a) structural: every sampled path checked against the support of "
        "the model, under ordinary and adversarial random sources (draws of "
        "exactly 0 and of the largest double below 1), all currstate values; "
        "(b) statistical: start, transition and emission frequencies of "
        "recorded samples tested against the parameters, p < 1e-9 is a "
        "violation; hand-set and fitted models; non-trivial = all")
REQUIRED = ["structural", "hostile-source", "currstate", "statistical",
            "gof:start", "gof:transition", "gof:emission", "gof:mean",
            "gof:cov", "gof:weights", "fitted", "zero-prob-transition"]
ASSUMPTIONS = ["goodness of fit detects deviations visible in the recorded "
               "sample sizes (listed under samples-drawn) at p < 1e-9",
               "a random source is a RandomState whose uniform draws lie in "
               "[0, 1)"]
ALPHA = 1e-9
TOP = 1 - 2.0 ** -53


class Hostile(np.random.RandomState):
    """A RandomState whose uniform draws are at the ends of [0, 1)."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, seed, p):
        super().__init__(seed)
        self._r = np.random.RandomState(seed + 1)
        self._p = p
        self.drawn = 0

    def _draw(self, size):
        self.drawn += 1
        u = self._r.random_sample(size)
        v = self._r.random_sample(size)
        out = np.where(u < self._p, TOP,
                       np.where(u < self._p + .15, 0., v))
        return float(out) if size is None or size == () else out

    def random_sample(self, size=None):
        return self._draw(size)

    def rand(self, *size):
        return self._draw(size or None)

    def random(self, size=None):
        return self._draw(size)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self._draw(size)


def near_one(rng, spec):
    """Probability vectors that sum to one only within the accepted slack."""
    spec = dict(spec)
    for a in ("startprob", "transmat", "emissionprob"):
        if a in spec and spec["family"] != "multi" and rng.random() < .7:
            v = np.array(spec[a], float)
            spec[a] = v * (1 + rng.choice([-1e-6, 1e-6, -1e-9, -2e-16]))
    return spec


def check_support(ctx, spec, X, Z, n, cur, what):
    nc, nf, fam = spec["nc"], spec["nf"], spec["family"]
    X, Z = np.asarray(X), np.asarray(Z)
    ctx.check(Z.shape == (n,) and Z.dtype.kind in "iu", "states-form",
              f"{what}: states {Z.shape} {Z.dtype}")
    ctx.check(X.shape == (n, 1 if fam == "cat" else nf), "sample-form",
              f"{what}: observations {X.shape}")
    ctx.check(Z.min() >= 0 and Z.max() < nc, "state-range", f"{what}")
    A, p = np.asarray(spec["transmat"]), np.asarray(spec["startprob"])
    if cur is None:
        ctx.check(p[Z[0]] > 0, "start-support",
                  f"{what}: started in state {Z[0]} of probability zero")
    else:
        ctx.check(Z[0] == cur, "currstate",
                  f"{what}: started in {Z[0]}, currstate={cur}")
        ctx.count("currstate")
    if n > 1:
        tr = A[Z[:-1], Z[1:]]
        ctx.check(np.all(tr > 0), "transition-support",
                  f"{what}: transition of probability zero",
                  at=int(np.argmin(tr)), states=Z)
    if (A == 0).any():
        ctx.count("zero-prob-transition")
    if fam == "cat":
        ctx.check(X.dtype.kind in "iu" and X.min() >= 0 and X.max() < nf,
                  "symbol-range", f"{what}: symbols {X.min()}..{X.max()}")
        e = np.asarray(spec["emissionprob"])[Z, X[:, 0]]
        ctx.check(np.all(e > 0), "symbol-support",
                  f"{what}: symbol of probability zero")
    elif fam == "multi":
        ctx.check(np.all(X.sum(axis=1) == spec["n_trials"])
                  and X.min() >= 0, "multinomial-total", what)
        ctx.check(np.all(X[np.asarray(spec["emissionprob"])[Z] == 0] == 0),
                  "symbol-support", f"{what}: cell of probability zero")
    elif fam == "poisson":
        ctx.check(X.dtype.kind in "iu" and X.min() >= 0, "poisson-counts",
                  what)
        ctx.check(np.all(X[np.asarray(spec["lambdas"])[Z] == 0] == 0),
                  "poisson-support", what)
    else:
        ctx.check(np.all(np.isfinite(X)), "finite-sample", what)


def structural(ctx):
    rng = ctx.rng
    fam = str(rng.choice(gen.REAL_FAMS))
    spec = gen.make_spec(rng, fam)
    slack = rng.random() < .5
    shown = near_one(rng, spec) if slack else spec
    m = gen.build(ctx.H, shown, rng)
    ctx.detail.update(mode="structural", family=fam, slack=slack,
                      params={a: shown[a] for a in gen.attrs_of(shown)})
    ctx.feed("s", fam, *[np.asarray(shown[a]) for a in gen.attrs_of(shown)])
    for _ in range(4):
        n = int(rng.choice([1, 2, 3, 10, 60]))
        cur = None
        if rng.random() < .4:
            cur = int(rng.integers(spec["nc"]))
            if rng.random() < .5:
                cur = np.int64(cur)
        if rng.random() < .6:
            rs = Hostile(int(rng.integers(1 << 30)),
                         float(rng.choice([.2, .7, .98])))
            what = "hostile random source"
        else:
            rs = int(rng.integers(1 << 30))
            what = f"seed {rs}"
        via = rng.random() < .3
        if via:
            m.random_state = rs
        X, Z = ctx.api("sample", m.sample, n, **(
            {} if via else {"random_state": rs}),
            **({} if cur is None else {"currstate": cur}))
        check_support(ctx, spec, X, Z, n, cur, what)
        ctx.count("structural")
        if isinstance(rs, Hostile) and rs.drawn:
            ctx.count("hostile-source")
    ctx.cover("structural", fam, spec["nc"])
    ctx.nontrivial = True


def chi2(obs, p):
    """p-value of a chi-square test with small cells pooled."""
    obs, p = np.asarray(obs, float), np.asarray(p, float)
    n = obs.sum()
    e = n * p / p.sum()
    o = np.argsort(e)
    obs, e = obs[o], e[o]
    while len(e) > 1 and e[0] < 8:
        e = np.concatenate([[e[0] + e[1]], e[2:]])
        obs = np.concatenate([[obs[0] + obs[1]], obs[2:]])
        o = np.argsort(e)
        obs, e = obs[o], e[o]
    if len(e) < 2:
        return 1.
    return float(st.chi2.sf(((obs - e) ** 2 / e).sum(), len(e) - 1))


def gof(ctx, name, p, what, **d):
    ctx.count("gof:" + name)
    ctx.check(p > ALPHA, "law-" + name, f"{what}: p = {p:.3g}", **d)


def ztest(x, mean, var):
    """Two-sided p for the sample mean of x (n,) with known moments."""
    z = (x.mean() - mean) / np.sqrt(var / len(x))
    return float(2 * st.norm.sf(abs(z)))


def tails(x, mean):
    """p for the mean of a sample of unknown variance (n large)."""
    s = x.std() / np.sqrt(len(x))
    return 1. if s == 0 and np.allclose(x.mean(), mean) else float(
        2 * st.norm.sf(abs((x.mean() - mean) / max(s, 1e-300))))


def statistical(ctx):
    rng = ctx.rng
    fam = str(rng.choice(gen.REAL_FAMS))
    base, _, ct = fam.partition(":")
    spec = gen.make_spec(rng, fam, cond=30., mild=rng.random() < .5)
    fit = rng.random() < .3
    if fit:
        src = gen.make_spec(rng, fam, mild=True, nc=int(rng.integers(1, 4)))
        Xf = gen.sample(rng, src, 120)
        m = gen.cls_of(ctx.H, src)(**gen.ctor_args(src), n_iter=3,
                                   random_state=int(rng.integers(1000)),
                                   **common.fit_kw(src))
        ctx.api("fit", m.fit, Xf)
        spec = gen.read(m, src)
        if not all(np.all(np.isfinite(spec[a])) for a in gen.attrs_of(spec)) \
                or train.collapsed_cov(spec, Xf) \
                or spec["transmat"].sum(axis=1).min() < .5:
            return structural(ctx)
        ctx.count("fitted")
    else:
        m = gen.build(ctx.H, spec, rng)
    ctx.detail.update(mode="statistical", family=fam, fitted=fit,
                      params={a: spec[a] for a in gen.attrs_of(spec)})
    ctx.feed("g", fam, *[np.asarray(spec[a]) for a in gen.attrs_of(spec)])
    nc, nf = spec["nc"], spec["nf"]
    rs = np.random.RandomState(int(rng.integers(1 << 30)))
    ctx.count("statistical")
    ctx.cover("statistical", fam, nc, "fitted" if fit else "set")
    ctx.nontrivial = True

    k = 400
    Z0 = np.array([ctx.api("sample", m.sample, 1, random_state=rs)[1][0]
                   for _ in range(k)])
    ctx.count("samples-drawn", k)
    gof(ctx, "start", chi2(np.bincount(Z0, minlength=nc), spec["startprob"]),
        "start state frequencies")

    n = 1500 if base in ("gauss", "gmm", "multi") else 3000
    Xs, Zs = [], []
    chunks = []
    cur = None
    left = n
    while left:
        q = min(left, int(rng.choice([200, 500, n])))
        kw = {} if cur is None else {"currstate": cur}
        X, Z = ctx.api("sample", m.sample, q, random_state=rs, **kw)
        check_support(ctx, spec, X, Z, q, cur, "statistical")
        if not (cur is None):
            # currstate repeats the state: its emission is fresh, no
            # transition is drawn.
            pass
        Xs.append(np.asarray(X))
        Zs.append(np.asarray(Z))
        left -= q
        # documented way of sampling continuously, or a jump to any state so
        # that absorbing chains are exercised everywhere
        cur = Z[-1] if rng.random() < .3 else int(rng.integers(nc))
    ctx.count("samples-drawn", n)
    X = np.concatenate(Xs)
    Z = np.concatenate(Zs)
    C = np.zeros((nc, nc))
    for z in Zs:
        np.add.at(C, (z[:-1], z[1:]), 1)
    A = np.asarray(spec["transmat"])
    for i in range(nc):
        if C[i].sum() >= 20:
            gof(ctx, "transition", chi2(C[i], A[i]),
                f"transitions out of state {i}", counts=C[i], expected=A[i])
    for i in range(nc):
        x = X[Z == i]
        if len(x) < 40:
            continue
        emission(ctx, spec, x, i)
    # observations given states are independent: lag-one products
    if base == "gauss" or (base == "gmm" and not any(
            0 < w < .05 for w in np.ravel(spec["weights"]))):
        r = np.array([x[0] - mean_of(spec, z)[0] for x, z in zip(X, Z)])
        s = np.sqrt([max(var_of(spec, z)[0], 1e-300) for z in Z])
        u = r / s
        gof(ctx, "independence", tails(u[1:] * u[:-1], 0.),
            "lag-one correlation of residuals")


def mean_of(spec, i):
    if spec["family"] == "gauss":
        return np.asarray(spec["means"][i])
    return np.asarray(spec["weights"][i]) @ np.asarray(spec["means"][i])


def cov_of(spec, i):
    if spec["family"] == "gauss":
        return np.asarray(ref.full_cov(spec, i), float)
    mu = mean_of(spec, i)
    return sum(spec["weights"][i][j] * (
        np.asarray(ref.full_cov(spec, i, j), float)
        + np.outer(spec["means"][i][j] - mu, spec["means"][i][j] - mu))
        for j in range(spec["nm"]))


def var_of(spec, i):
    return np.diag(cov_of(spec, i))


def emission(ctx, spec, x, i):
    fam, nf = spec["family"], spec["nf"]
    if fam == "cat":
        gof(ctx, "emission", chi2(np.bincount(x[:, 0], minlength=nf),
                                  spec["emissionprob"][i]),
            f"symbols in state {i}")
    elif fam == "multi":
        p, n = spec["emissionprob"][i], spec["n_trials"]
        gof(ctx, "emission", chi2(x.sum(axis=0), p), f"cells in state {i}")
        for j in range(nf):
            h = np.bincount(x[:, j], minlength=n + 1)
            gof(ctx, "emission", chi2(h, st.binom.pmf(np.arange(n + 1), n,
                                                      p[j]) + 1e-300),
                f"cell {j} in state {i}")
    elif fam == "poisson":
        for j in range(nf):
            lam = spec["lambdas"][i, j]
            hi = int(max(x[:, j].max(), lam + 10 * np.sqrt(lam) + 20)) + 1
            h = np.bincount(x[:, j], minlength=hi + 1)
            gof(ctx, "emission", chi2(h, st.poisson.pmf(
                np.arange(hi + 1), lam) + 1e-300), f"count {j} in state {i}")
    else:
        mu, cov = mean_of(spec, i), cov_of(spec, i)
        rare = fam == "gmm" and any(
            0 < w < .05 for w in spec["weights"][i])     # no normal limit
        for j in range(nf):
            gof(ctx, "mean", ztest(x[:, j], mu[j], cov[j, j])
                if fam == "gauss" or (len(x) > 200 and not rare) else 1.,
                f"mean of feature {j} in state {i}")
        if len(x) < 200:
            return
        # second moments along random directions, normalised
        L = np.linalg.cholesky(cov)
        w = np.linalg.solve(L, (x - mu).T).T
        for a in range(0 if rare else nf):
            for b in range(a + 1):
                gof(ctx, "cov", tails(w[:, a] * w[:, b], float(a == b)),
                    f"whitened second moment ({a},{b}) in state {i}")
        if fam == "gauss":
            for a in range(nf):
                gof(ctx, "shape", float(st.kstest(w[:, a], "norm").pvalue),
                    f"normality of direction {a} in state {i}")
        elif spec["nm"] > 1:
            r = np.exp(np.asarray(ref.mix_resp(spec, x), float))[:, i]
            for j in range(spec["nm"]):
                # responsibilities lie in [0, 1], so their variance is at
                # most that of the indicator
                v = spec["weights"][i][j] * (1 - spec["weights"][i][j])
                if v * len(x) > 40:
                    gof(ctx, "weights", ztest(r[:, j], spec["weights"][i][j],
                                              v),
                        f"mixture weight {j} in state {i}")
            for j in range(nf):
                u = sum(spec["weights"][i][q] * st.norm.cdf(
                    (x[:, j] - spec["means"][i][q][j]) / np.sqrt(
                        float(ref.full_cov(spec, i, q)[j, j])))
                    for q in range(spec["nm"]))
                gof(ctx, "shape", float(st.kstest(u, "uniform").pvalue),
                    f"marginal of feature {j} in state {i}")


def case(ctx):
    if ctx.rng.random() < .55:
        structural(ctx)
    else:
        statistical(ctx)
