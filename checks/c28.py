"""C28: training starts from the documented initialisation of the data."""
import numpy as np
from scipy import stats

from lib import gen, vb

CASES = {"quick": 700, "thorough": 9000}
RULE = ("fit with n_iter=0 of every family, covariance type and variational "
        "kind on clustered and unclustered data, integer data, one to many "
        "features, random partitions; what was set judged against the data: "
        "k-means fixpoints (own assignment, own Lloyd restarts), sample "
        "covariance, cluster counts, default priors; equivariance under "
        "scaling and shifting the data; the laws of the random draws by "
        "Kolmogorov-Smirnov over hundreds of seeds per case; the first "
        "recorded log-likelihood against the score of the starting model; "
        "non-trivial = more than one state")
REQUIRED = (["family:" + f for f in ("gauss", "gmm", "cat", "multi",
                                     "poisson", "vcat", "vgauss")]
            + ["ct:" + c for c in ("full", "tied", "diag", "spherical")]
            + ["blobs", "diffuse", "one-feature", "partition", "scaled",
               "shifted", "law:dirichlet", "law:uniform", "law:gamma",
               "small-cluster", "integer-data", "first-history",
               "partial-init", "min_covar", "constant-data",
               "few-distinct", "long", "exact-cluster",
               "underdispersed", "overdispersed"])
ASSUMPTIONS = [
    "k-means itself (scikit-learn) finds separated clusters; on unclustered "
    "data a centre may be off the mean of its samples by its stopping "
    "tolerance",
    "laws are judged at p < 1e-7 per test"]
CTS = ["full", "tied", "diag", "spherical"]
PMIN = 1e-7


def assign(C, X):
    d = ((X[:, None, :] - C[None]) ** 2).sum(-1)
    return d.argmin(1), d.min(1).sum()


def lloyd(rng, X, k, n=12):
    best = np.inf
    for _ in range(n):
        C = X[rng.choice(len(X), k, replace=False)].astype(float)
        for _ in range(60):
            z, _ = assign(C, X)
            D = np.array([X[z == j].mean(0) if (z == j).any() else C[j]
                          for j in range(k)])
            if np.allclose(D, C, rtol=0, atol=1e-12):
                break
            C = D
        best = min(best, assign(C, X)[1])
    return best


def blobs(rng, k, nf, T, sep=60.):
    """k well-separated clusters with at least 12 samples each."""
    while True:
        C = rng.uniform(-sep * k, sep * k, size=(k, nf))
        d = np.sqrt(((C[:, None] - C[None]) ** 2).sum(-1))
        if k == 1 or d[~np.eye(k, dtype=bool)].min() > sep:
            break
    z = np.concatenate([np.repeat(np.arange(k), 12),
                        rng.integers(k, size=max(0, T - 12 * k))])
    z = z[rng.permutation(len(z))]
    return C[z] + rng.normal(size=(len(z), nf)), z


def dataset(ctx, k, T):
    rng = ctx.rng
    long = rng.random() < .06
    if long:                    # the clusters come one after the other
        T = int(rng.choice([3000, 8000, 20000]))
        ctx.count("long")
    nf = int(rng.choice([1, 1, 2, 3, 5]))
    if nf == 1:
        ctx.count("one-feature")
    sep = bool(rng.random() < .6)
    if sep:
        X, z = blobs(rng, k, nf, T)
        if long:
            i = np.argsort(z, kind="stable")
            X, z = X[i], z[i]
        ctx.count("blobs")
    else:
        X = rng.normal(size=(T, nf)) @ rng.normal(size=(nf, nf)) \
            + rng.normal(size=nf) * 5
        z = None
        ctx.count("diffuse")
    if rng.random() < .3:
        X = np.round(X * 4).astype(
            [np.int64, np.int32][int(rng.integers(2))])
        ctx.count("integer-data")
    return X, z, sep


def centres(ctx, C, X, z, sep, what):
    """C is a k-means solution of X."""
    X = np.asarray(X, float)
    k = len(C)
    ctx.check(C.shape == (k, X.shape[1]) and np.isfinite(C).all(),
              "means-shape", f"{what}: {C.shape}")
    sd = np.sqrt(X.var(axis=0).mean())
    a, inertia = assign(C, X)
    ctx.check(len(np.unique(a)) == k or not sep, "means-empty",
              f"{what}: a centre without samples")
    M = np.array([X[a == j].mean(0) if (a == j).any() else C[j]
                  for j in range(k)])
    tol = (1e-8 * (1 + np.abs(X).max()) if sep else .08 * sd + 1e-9)
    ctx.close(C, M, "means-kmeans", tol,
              f"{what}: centres against the means of their samples")
    if sep:
        for j in range(k):
            ctx.check(len(np.unique(z[a == j])) == 1, "means-separated",
                      f"{what}: one centre for several clusters")
    else:
        best = lloyd(ctx.rng, X, k)
        ctx.check(inertia <= best * 1.35 + 1e-9, "means-inertia",
                  f"{what}: within-cluster sum of squares {inertia}, "
                  f"{best} is possible")
    return a


def sample_cov(X, ridge):
    X = np.asarray(X, float)
    d = X - X.mean(0)
    c = d.T @ d / (len(X) - 1)
    return c + ridge * np.eye(X.shape[1])


def by_type(c, ct, nc):
    """(nc, nf, nf) covariances of that type."""
    nf = len(c)
    if ct in ("full", "tied"):
        o = c
    elif ct == "diag":
        o = np.diag(np.diag(c))
    else:
        o = np.eye(nf) * c.mean()
    return np.array([o] * nc)


def lengths_of(ctx, T):
    if ctx.rng.random() < .5:
        return None
    ctx.count("partition")
    return gen.partition(ctx.rng, T)


def dists(ctx, m, nc):
    s, t = np.asarray(m.startprob_), np.asarray(m.transmat_)
    ctx.check(s.shape == (nc,) and t.shape == (nc, nc), "shape",
              "startprob_/transmat_")
    ctx.check((s >= 0).all() and (t >= 0).all(), "negative", "startprob_")
    ctx.close(s.sum(), 1, "sum", 1e-9, "startprob_")
    ctx.close(t.sum(1), np.ones(nc), "sum", 1e-9, "transmat_ rows")


def start(ctx, m, X, L, what="fit(n_iter=0)"):
    X0 = X.copy()
    ctx.api(what, m.fit, X, L)
    ctx.check(np.array_equal(X, X0), "input", "fit changed X")
    return m


def first_history(ctx, make, X, L, m0):
    """The first recorded value is the score of the starting model."""
    m = make(1)
    ctx.api("fit", m.fit, X, L)
    h = list(m.monitor_.history)
    ctx.check(len(h) == 1, "history-length", str(h))
    s = ctx.api("score", m0.score, X, L)
    ctx.close(h[0], s, "first-history", 1e-7 * (1 + abs(s)),
              "first recorded log-likelihood against the starting model")
    ctx.count("first-history")


def gauss(ctx):
    rng, H = ctx.rng, ctx.H
    nc = int(rng.choice([1, 2, 3, 4, 6]))
    T = int(rng.integers(max(14 * nc, 20), 300))
    X, z, sep = dataset(ctx, nc, T)
    T, nf = X.shape
    L = lengths_of(ctx, T)
    ct = str(rng.choice(CTS))
    mc = float(rng.choice([1e-3, 0., .5, 7.]))
    if mc != 1e-3:
        ctx.count("min_covar")
    if np.linalg.cond(sample_cov(X, mc)) > 1e12:
        mc = 1.
    seed = int(rng.integers(1 << 30))
    impl = str(rng.choice(["log", "scaling"]))
    init = "stmc"
    if rng.random() < .25:
        init = str(rng.choice(["stm", "stc", "mc", "m", "c"]))
        ctx.count("partial-init")

    def make(n_iter=0, min_covar=mc):
        m = H.hmm.GaussianHMM(nc, ct, n_iter=n_iter, random_state=seed,
                              min_covar=min_covar, implementation=impl,
                              init_params=init)
        if "s" not in init:
            m.startprob_ = np.full(nc, 1 / nc)
            m.transmat_ = np.full((nc, nc), 1 / nc)
        return m
    m = start(ctx, make(), X, L)
    ctx.cover("gauss", ct, nc, sep, init)
    ctx.count("family:gauss"), ctx.count("ct:" + ct)
    ctx.nontrivial = nc > 1
    ctx.feed(X, L, ct, seed)
    ctx.detail.update(kind="gauss", ct=ct, nc=nc, sep=sep, init=init)
    dists(ctx, m, nc)
    # Whatever was never set is initialised, too.
    centres(ctx, np.asarray(m.means_), X, z, sep, "means_")
    want = by_type(sample_cov(X, mc), ct, nc)
    ctx.close(m.covars_, want, "covars", 1e-9 * (1 + np.abs(want).max()),
              f"covars_ ({ct}) against the sample covariance plus min_covar")
    collinear = np.linalg.cond(want[0]) > 1e6
    if not collinear:
        first_history(ctx, make, X, L, m)
    # Start probabilities and centres do not depend on the partition.
    m2 = start(ctx, make(), X, None if L is not None
               else gen.partition(rng, T))
    for a in ("startprob_", "transmat_", "means_", "covars_"):
        ctx.close(getattr(m2, a), getattr(m, a), "partition", 1e-9 *
                  (1 + np.abs(getattr(m, a)).max()),
                  f"{a} initialised from other lengths")
    k = float(rng.choice([2.**-8, .5, 2., 2.**10]))
    m3 = start(ctx, make(0, mc * k * k), X * k, L)
    ctx.close(m3.means_, m.means_ * k, "scaled", 1e-9 * k *
              (1 + np.abs(m.means_).max()), "means_ of scaled data")
    ctx.close(m3.covars_, m.covars_ * k * k, "scaled", 1e-9 * k * k *
              (1 + np.abs(m.covars_).max()), "covars_ of scaled data")
    ctx.count("scaled")
    b = rng.integers(-1000, 1000, size=nf)
    m4 = start(ctx, make(), X + b, L)
    tol = 1e-8 * (1 + np.abs(want).max() + np.abs(b).max() ** 2)
    ctx.close(m4.covars_, m.covars_, "shifted", tol, "covars_ of shifted data")
    if sep:
        order = lambda C: C[np.lexsort(np.round(C, 3).T)]
        ctx.close(order(m4.means_ - b), order(np.asarray(m.means_)), "shifted",
                  1e-7 * (1 + np.abs(X).max()), "means_ of shifted data")
    ctx.count("shifted")


def gmm(ctx):
    rng, H = ctx.rng, ctx.H
    nc = int(rng.choice([1, 2, 3]))
    nm = int(rng.choice([1, 2, 3]))
    nf = int(rng.choice([1, 2, 3]))
    ct = str(rng.choice(CTS))
    small = bool(nc > 1 and nm > 1 and rng.random() < .4)
    # nc far groups; in each, nm nearer clusters
    G, zg = blobs(rng, nc, nf, 0, sep=4000.)
    G = np.array([np.round(G[zg == j].mean(0)) for j in range(nc)])
    Xs, zs, us = [], [], []
    exact = False
    for j in range(nc):
        if small and j == 0:
            # fewer samples than components, or exactly as many
            n = int(rng.integers(1, nm + 1))
            exact = n == nm
            x, u = rng.normal(size=(n, nf)), np.zeros(n, int)
            if exact:
                small, u = False, np.arange(n)
                ctx.count("exact-cluster")
        else:
            x, u = blobs(rng, nm, nf, int(rng.integers(20, 60)), sep=40.)
            x = x - x.mean(0)
        Xs.append(x + G[j]), us.append(u), zs.append(np.full(len(x), j))
    X, z, u = map(np.concatenate, (Xs, zs, us))
    i = rng.permutation(len(X))
    X, z, u = X[i], z[i], u[i]
    T = len(X)
    L = lengths_of(ctx, T)
    mc = float(rng.choice([1e-3, .5, 7.]))
    seed = int(rng.integers(1 << 30))
    impl = str(rng.choice(["log", "scaling"]))

    def make(n_iter=0):
        return H.hmm.GMMHMM(nc, nm, covariance_type=ct, n_iter=n_iter,
                            random_state=seed, min_covar=mc,
                            implementation=impl)
    m = start(ctx, make(), X, L)
    ctx.cover("gmm", ct, nc, nm, small)
    ctx.count("family:gmm"), ctx.count("ct:" + ct)
    ctx.nontrivial = nc > 1
    ctx.feed(X, L, ct, seed)
    ctx.detail.update(kind="gmm", ct=ct, nc=nc, nm=nm, small=small)
    dists(ctx, m, nc)
    ctx.close(m.weights_, np.full((nc, nm), 1 / nm), "weights", 1e-12,
              "initial weights_")
    cv = sample_cov(X, mc)
    want = by_type(cv, ct, nc)
    if ct == "full":
        want = np.repeat(want[:, None], nm, axis=1)
    elif ct == "diag":
        want = np.repeat(np.array([np.diag(w) for w in want])[:, None], nm, 1)
    elif ct == "spherical":
        want = np.full((nc, nm), cv.mean())
    ctx.close(m.covars_, want, "covars", 1e-8 * (1 + np.abs(want).max()),
              f"covars_ ({ct}) against the sample covariance plus min_covar")
    M = np.asarray(m.means_)
    ctx.check(M.shape == (nc, nm, nf) and np.isfinite(M).all(), "means-shape",
              str(M.shape))
    centroid = G.mean(0)

    def residual(st, g):
        """How far the means of state st are from centring group g."""
        x = X[z == g]
        a, _ = assign(M[st], x)
        return max(np.abs(M[st][j] - x[a == j].mean(0)).max()
                   if (a == j).any() else np.inf for j in range(nm))
    left = set(range(nc))
    for g in range(nc):
        if small and g == 0:
            continue
        st = min(left, key=lambda q: residual(q, g))
        left.discard(st)
        centres(ctx, M[st], X[z == g], u[z == g], True,
                f"means_ of state {st} within its group")
    drawn = len(left)
    for st in left:         # too few samples: draws around the data
        e = M[st] - centroid
        q = np.einsum("ij,jk,ik->i", e, np.linalg.inv(cv), e)
        ctx.check((q < 60).all(), "means-drawn",
                  f"means_ of state {st} are far from the data: {q}")
        ctx.check(nm == 1 or len(np.unique(M[st][:, 0])) == nm,
                  "means-drawn", "identical mixture components")
    ctx.check(drawn == (1 if small else 0), "means-groups",
              f"{drawn} states without a group of samples, "
              f"{int(small)} expected")
    if small:
        ctx.count("small-cluster")
    elif not exact:
        first_history(ctx, make, X, L, m)


def vgauss(ctx):
    rng, H = ctx.rng, ctx.H
    nc = int(rng.choice([1, 2, 3, 4]))
    T = int(rng.integers(14 * nc + 6, 200))
    X, z, sep = dataset(ctx, nc, T)
    if rng.random() < .1:
        sep = False
        X = rng.integers(0, 2, size=X.shape)
        if rng.random() < .3:
            X[:] = X[0]
    T, nf = X.shape
    L = lengths_of(ctx, T)
    ct = str(rng.choice(CTS))
    seed = int(rng.integers(1 << 30))
    m = H.vhmm.VariationalGaussianHMM(nc, ct, n_iter=0, random_state=seed)
    start(ctx, m, X, L)
    ctx.cover("vgauss", ct, nc, sep)
    ctx.count("family:vgauss"), ctx.count("ct:" + ct)
    ctx.nontrivial = nc > 1
    ctx.feed(X, L, ct, seed)
    ctx.detail.update(kind="vgauss", ct=ct, nc=nc, sep=sep)
    vb_chain(ctx, m, nc, T, 1 if L is None else len(L))
    Xf = np.asarray(X, float)
    sc = 1 + np.abs(Xf).max()
    ctx.close(m.means_prior_, np.tile(Xf.mean(0), (nc, 1)), "prior", 1e-9 * sc,
              "means_prior_")
    ctx.close(m.beta_prior_, np.ones(nc), "prior", 0, "beta_prior_")
    a = centres(ctx, np.asarray(m.means_posterior_), X, z, sep,
                "means_posterior_")
    n = np.bincount(a, minlength=nc)
    amb = 0 if sep else max(2, .05 * T)
    if len(np.unique(X, axis=0)) <= nc:     # several equal centres
        amb = T
        ctx.check(np.all(np.asarray(m.beta_posterior_) > 0), "counts",
                  f"beta_posterior_ = {m.beta_posterior_}")
        ctx.count("few-distinct")
    n = np.maximum(n, 1)
    ctx.close(m.beta_posterior_, n, "counts", amb, "beta_posterior_")
    c = sample_cov(X, 1e-3)
    eye = np.eye(nf)
    dof = np.asarray(m.dof_posterior_, float)
    if ct == "tied":
        ctx.close(m.dof_prior_, nf, "prior", 0, "dof_prior_")
        ctx.close(dof, max(T, nf), "counts", 0, "dof_posterior_")
        ctx.close(m.scale_prior_, eye * 1e-3, "prior", 1e-15, "scale_prior_")
        want = c * dof
    else:
        ctx.close(m.dof_prior_, np.full(nc, nf), "prior", 0, "dof_prior_")
        ctx.close(dof, np.maximum(n, nf), "counts", amb, "dof_posterior_")
        if ct == "full":
            pr, want = np.array([eye * 1e-3] * nc), c * dof[:, None, None]
        elif ct == "diag":
            pr, want = np.full((nc, nf), 1e-3), np.diag(c) * dof[:, None]
        else:
            pr, want = np.full(nc, 1e-3), c.mean() * dof
        ctx.close(m.scale_prior_, pr, "prior", 1e-15, "scale_prior_")
    ctx.close(m.scale_posterior_, want, "scale",
              1e-9 * (1 + np.abs(want).max()), f"scale_posterior_ ({ct})")


def vb_chain(ctx, m, nc, T, ns):
    ctx.close(m.startprob_prior_, np.full(nc, 1 / nc), "prior", 1e-15,
              "startprob_prior_")
    ctx.close(m.transmat_prior_, np.full((nc, nc), 1 / nc), "prior", 1e-15,
              "transmat_prior_")
    ctx.check((np.asarray(m.startprob_posterior_) > 0).all()
              and (np.asarray(m.transmat_posterior_) > 0).all(), "positive",
              "posteriors")
    ctx.close(np.sum(m.startprob_posterior_), ns, "counts", nc * 1.1e-6 + 1e-9
              * ns, "sum of startprob_posterior_ against the sequences")
    ctx.close(np.sum(m.transmat_posterior_, axis=1), np.full(nc, T / nc),
              "counts", nc * 1.1e-6 + 1e-9 * T,
              "row sums of transmat_posterior_ against samples per state")


def vcat(ctx):
    rng, H = ctx.rng, ctx.H
    nc, nf = int(rng.integers(1, 6)), int(rng.integers(1, 8))
    T = int(rng.integers(20, 200))
    X = rng.integers(nf, size=(T, 1))
    X[0] = nf - 1
    L = lengths_of(ctx, T)
    m = H.vhmm.VariationalCategoricalHMM(
        nc, n_iter=0, random_state=int(rng.integers(1 << 30)))
    start(ctx, m, X, L)
    ctx.cover("vcat", nc, nf)
    ctx.count("family:vcat")
    ctx.nontrivial = nc > 1
    ctx.feed(X, L)
    ctx.detail.update(kind="vcat", nc=nc, nf=nf)
    vb_chain(ctx, m, nc, T, 1 if L is None else len(L))
    ctx.close(m.emissionprob_prior_, np.full((nc, nf), 1 / nf), "prior", 1e-15,
              "emissionprob_prior_")
    p = np.asarray(m.emissionprob_posterior_)
    ctx.check(p.shape == (nc, nf) and (p > 0).all(), "positive",
              "emissionprob_posterior_")
    ctx.close(p.sum(1), np.full(nc, T / nc), "counts",
              nf * 1.1e-6 + 1e-9 * T, "rows of emissionprob_posterior_")


def ks(ctx, x, law, kind, what):
    x = np.asarray(x, float)
    if callable(law):
        p = stats.kstest(x, law).pvalue
    else:
        p = stats.ks_2samp(x, law).pvalue
    ctx.check(p > PMIN, kind, f"{what}: {len(x)} draws do not follow the "
              f"law (p = {p:.2g}, mean {x.mean():.4g}, sd {x.std():.4g})")


def laws(ctx):
    """Hundreds of initialisations under different seeds."""
    rng, H = ctx.rng, ctx.H
    fam = str(rng.choice(["cat", "multi", "poisson"]))
    nc, nf = int(rng.integers(2, 7)), int(rng.integers(2, 6))
    T = int(rng.integers(10, 60))
    N = 300
    if fam == "cat":
        X = rng.integers(nf, size=(T, 1))
        X[0] = nf - 1
        cls, kw = H.hmm.CategoricalHMM, {}
        if rng.random() < .3:
            nf += 2
            kw["n_features"] = nf
    elif fam == "multi":
        X = rng.multinomial(6, np.full(nf, 1 / nf), size=T)
        cls, kw = H.hmm.MultinomialHMM, dict(n_trials=6)
    else:
        X = rng.poisson(rng.uniform(.5, 20, size=nf), size=(T, nf))
        q = rng.random()
        if q < .3:              # counts that vary less than a Poisson's
            X = int(rng.integers(5, 40)) + rng.integers(-1, 2, size=(T, nf))
            ctx.count("underdispersed")
        elif q < .6:
            X = X * int(rng.integers(2, 9))
            ctx.count("overdispersed")
        elif q < .7:
            X[...] = int(rng.integers(1, 5))
            ctx.count("constant-data")
        cls, kw = H.hmm.PoissonHMM, {}
    L = lengths_of(ctx, T)
    base = int(rng.integers(1 << 30))
    shared = bool(rng.random() < .5)
    rs = np.random.RandomState(base)
    S, A, E = [], [], []
    for i in range(N):
        m = cls(nc, n_iter=0, random_state=rs if shared else base + i, **kw)
        start(ctx, m, X, L)
        dists(ctx, m, nc)
        S.append(m.startprob_), A.append(m.transmat_)
        E.append(m.lambdas_ if fam == "poisson" else m.emissionprob_)
    S, A, E = map(np.array, (S, A, E))
    ctx.cover("laws", fam, nc, nf, shared)
    ctx.count("family:" + fam)
    ctx.nontrivial = True
    ctx.feed(X, L, base)
    ctx.detail.update(kind="laws", family=fam, nc=nc, nf=nf, shared=shared)
    beta = stats.beta(1 / nc, 1 - 1 / nc).cdf
    i, j = rng.integers(nc, size=2)
    ks(ctx, S[:, j], beta, "law-dirichlet", f"startprob_[{j}]")
    ks(ctx, A[:, i, j], beta, "law-dirichlet", f"transmat_[{i}, {j}]")
    se = np.sqrt((1 / nc) * (1 - 1 / nc) / 2 / N)
    ctx.close(S.mean(0), np.full(nc, 1 / nc), "law-mean", 6 * se, "startprob_")
    ctx.close(A.mean(0), np.full((nc, nc), 1 / nc), "law-mean", 6 * se,
              "transmat_")
    # Rows are drawn separately.
    for k in range(1, nc):
        r = np.corrcoef(A[:, 0, 0], A[:, k, 0])[0, 1]
        ctx.check(abs(r) < .4, "law-rows", f"transmat_ rows 0 and {k} are "
                  f"correlated over seeds: {r}")
    ctx.count("law:dirichlet")
    ctx.check(E.shape == (N, nc, nf), "shape", f"emission {E.shape[1:]}")
    i, j = int(rng.integers(nc)), int(rng.integers(nf))
    const = fam == "poisson" and X.var() == 0
    if fam == "poisson":
        mu, v = X.mean(), X.var()
        if const:
            ctx.close(E, np.full(E.shape, mu), "law-gamma", 1e-12, "lambdas_")
        else:
            ks(ctx, E[:, i, j], stats.gamma(mu ** 2 / v, scale=v / mu).cdf,
               "law-gamma", f"lambdas_[{i}, {j}] (mean {mu}, variance {v})")
            ctx.count("law:gamma")
    else:
        ctx.close(E.sum(2), np.ones((N, nc)), "sum", 1e-9, "emissionprob_")
        u = np.random.default_rng(base).random((20000, nf))
        ks(ctx, E[:, i, j], u[:, 0] / u.sum(1), "law-uniform",
           f"emissionprob_[{i}, {j}]")
        ctx.count("law:uniform")
    if not const:
        for k in range(1, nc):
            r = np.corrcoef(E[:, 0, 0], E[:, k, 0])[0, 1]
            ctx.check(abs(r) < .4, "law-rows", f"emission rows 0 and {k} are "
                      f"correlated over seeds: {r}")
    if not const:
        seed = base + 1

        def make(n_iter=0):
            return cls(nc, n_iter=n_iter, random_state=seed, **kw)
        first_history(ctx, make, X, L, start(ctx, make(), X, L))


KINDS = [gauss, gmm, vgauss, vcat, laws]
P = [.35, .2, .2, .1, .15]


def case(ctx):
    KINDS[int(ctx.rng.choice(len(KINDS), p=P))](ctx)
