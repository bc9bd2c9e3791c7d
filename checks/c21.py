"""C21: get_stationary_distribution returns the chain's stationary law."""
import numpy as np

from lib import gen

CASES = {"quick": 4000, "thorough": 80000}
KINDS = ["dense", "sparse", "periodic", "transient", "sticky", "single",
         "cycle", "birth-death", "absorbing", "doubly-stochastic", "big",
         "fitted", "block"]
RULE = ("transition matrices with a single recurrent class: dense, sparse, "
        "periodic, with transient or absorbing states, sticky, nearly "
        "decomposable, up to 80 states, states shuffled; of hand-set and "
        "fitted models; non-trivial = more than one state")
REQUIRED = KINDS + ["law", "fixed-point", "unfitted", "monitor:distribution"]
ASSUMPTIONS = [
    "the reference is a GTH elimination in 80-bit arithmetic",
    "errors up to 1e-13 times the condition number of the chain (the norm of "
    "its fundamental matrix) are rounding; chains of condition above 1e8 are "
    "judged by the fixed-point equation alone"]


def gth(A):
    """Stationary law of the only recurrent class, without subtractions."""
    A = np.asarray(A, dtype=np.longdouble)
    n = len(A)
    reach = (A > 0) | np.eye(n, dtype=bool)
    for k in range(n):
        reach |= reach[:, k:k + 1] & reach[k:k + 1, :]
    rec = [i for i in range(n) if all(reach[j, i] for j in range(n)
                                      if reach[i, j])]
    if not all(reach[i, j] for i in rec for j in rec):
        return None                      # several recurrent classes
    P = A[np.ix_(rec, rec)].copy()
    m = len(rec)
    for k in range(m - 1, 0, -1):
        s = P[k, :k].sum()
        P[:k, k] /= s
        P[:k, :k] += np.outer(P[:k, k], P[k, :k])
    x = np.zeros(m, dtype=np.longdouble)
    x[0] = 1
    for k in range(1, m):
        x[k] = x[:k] @ P[:k, k]
    pi = np.zeros(n, dtype=np.longdouble)
    pi[rec] = x / x.sum()
    return pi


def condition(A, pi):
    n = len(A)
    M = np.eye(n) - A + np.outer(np.ones(n), np.asarray(pi, float))
    try:
        return float(np.abs(np.linalg.inv(M)).sum(axis=1).max())
    except np.linalg.LinAlgError:
        return np.inf


def matrix(rng, kind):
    n = int(rng.integers(2, 9))
    if kind == "single":
        return np.ones((1, 1))
    if kind == "big":
        n = int(rng.integers(20, 81))
        A = rng.dirichlet(np.full(n, float(rng.choice([.05, 1., 10.]))), n)
        return A + 1e-6
    if kind == "dense":
        return rng.dirichlet(np.full(n, float(rng.choice([.3, 1, 5.]))), n)
    if kind == "sparse":
        A = rng.random((n, n)) * (rng.random((n, n)) < .3)
        A[np.arange(n), (np.arange(n) + 1) % n] += rng.random(n) + .05
        return A
    if kind == "cycle":
        A = np.zeros((n, n))
        A[np.arange(n), (np.arange(n) + 1) % n] = 1
        return A
    if kind == "periodic":
        d = int(rng.integers(2, 5))
        size = rng.integers(1, 4, d)
        cls = np.repeat(np.arange(d), size)
        A = rng.random((len(cls), len(cls))) + .05
        A[(cls[:, None] + 1) % d != cls[None, :]] = 0
        return A
    if kind == "transient":
        k = int(rng.integers(1, n))
        A = rng.random((n, n)) + .05
        A[:k, k:] = 0                     # the first k states are closed
        if rng.random() < .5 and k < n - 1:
            A[k:, k:] = np.triu(A[k:, k:])
        return A
    if kind == "absorbing":
        A = rng.random((n, n)) + .05
        A[0] = 0
        A[0, 0] = 1
        return A
    if kind == "sticky":
        e = 10. ** -rng.integers(1, 7)
        A = rng.dirichlet(np.ones(n), n)
        return (1 - e) * np.eye(n) + e * A
    if kind == "block":
        e = 10. ** -rng.integers(1, 8)
        k = int(rng.integers(1, n))
        A = rng.random((n, n)) + .05
        A[:k, k:] *= e
        A[k:, :k] *= e * rng.random()
        return A
    if kind == "birth-death":
        A = np.zeros((n, n))
        p = rng.choice([.5, .1, 1e-3])
        for i in range(n):
            A[i, max(i - 1, 0)] += 1 - p
            A[i, min(i + 1, n - 1)] += p
        return A
    if kind == "doubly-stochastic":
        A = np.zeros((n, n))
        for w in rng.dirichlet(np.ones(4)):
            A[np.arange(n), rng.permutation(n)] += w
        A += .01
        return A
    raise AssertionError(kind)


def judge(ctx, m, A, what):
    pi = gth(A)
    if pi is None:
        ctx.count("several-classes")
        return
    got = ctx.api("get_stationary_distribution",
                  m.get_stationary_distribution)
    g = np.asarray(got)
    n = len(A)
    ctx.check(isinstance(got, np.ndarray) and g.shape == (n,)
              and g.dtype.kind == "f", "distribution",
              f"{what}: got {type(got).__name__} of shape {g.shape} and "
              f"dtype {g.dtype}")
    ctx.check(np.all(np.isfinite(g)), "distribution", f"{what}: {g}")
    cond = condition(A, pi)
    ctx.close(g.sum(), 1, "distribution", 1e-9, f"{what}: sum of {g}: ")
    tol = 1e-11 + 1e-13 * min(cond, 1e8)
    ctx.check(g.min() >= -tol, "distribution",
              f"{what}: negative probability {g.min()!r}")
    ctx.close(g @ A, g, "fixed-point", 1e-9, f"{what}: not invariant: ")
    ctx.count("fixed-point")
    if cond < 1e8:
        ctx.close(g, np.asarray(pi, float), "law", tol, what)
        ctx.count("law")
    ctx.cover(what, "n>8" if n > 8 else n, f"cond 1e{int(np.log10(cond))}"
              if np.isfinite(cond) else "cond inf",
              "transient" if (pi == 0).any() else "recurrent")


def case(ctx):
    rng, H = ctx.rng, ctx.H
    kind = KINDS[ctx.idx % len(KINDS)]
    ctx.count(kind)
    ctx.detail["kind"] = kind
    if kind == "fitted":
        nc = int(rng.integers(2, 6))
        X = rng.integers(0, 3, (60, 1))
        m = H.hmm.CategoricalHMM(nc, n_iter=2, n_features=3,
                                 random_state=int(rng.integers(1 << 20)))
        if rng.random() < .5:
            m.set_params(init_params="se")
            A = gen.transmat(rng, nc)
            m.transmat_ = A
        ctx.api("fit", m.fit, X)
        A = np.array(m.transmat_, float)
        if np.abs(A.sum(axis=1) - 1).max() > 1e-9:
            return
        ctx.feed(kind, A)
        ctx.nontrivial = True
        judge(ctx, m, A, kind)
        return
    A = matrix(rng, kind)
    n = len(A)
    p = rng.permutation(n)
    A = gen.fix_sum(A / A.sum(axis=1, keepdims=True))[np.ix_(p, p)]
    ctx.detail["A"] = A
    ctx.feed(kind, A)
    ctx.nontrivial = n > 1
    cls = [H.hmm.GaussianHMM, H.hmm.CategoricalHMM, H.hmm.PoissonHMM,
           H.hmm.GMMHMM, H.hmm.MultinomialHMM, H.base.BaseHMM][
               int(rng.integers(6))]
    m = cls(n)
    if rng.random() < .1:
        e = ctx.raises("get_stationary_distribution",
                       m.get_stationary_distribution)
        ctx.check(e is not None, "unfitted", "an unfitted model has no "
                  "transition matrix")
        ctx.count("unfitted")
    m.startprob_ = rng.dirichlet(np.ones(n))
    m.transmat_ = gen.container(rng, A)
    judge(ctx, m, A, kind)
    # the current matrix counts, not one seen before
    if rng.random() < .3:
        A = gen.fix_sum(rng.dirichlet(np.ones(n), n) + .01)
        m.transmat_ = A
        judge(ctx, m, A, "re-assigned " + kind)
