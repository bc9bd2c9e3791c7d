"""Generators of models, data, sequence partitions and array containers.

A *spec* is a plain dict describing a model with explicit parameters; ``build``
turns it into a hmmlearn object, ``lib.ref`` evaluates it independently.
"""
import numpy as np

from lib import ref

CTS = ("spherical", "diag", "full", "tied")
FAMS = (["cat", "multi", "poisson", "table"]
        + ["gauss:" + c for c in CTS] + ["gmm:" + c for c in CTS])
REAL_FAMS = [f for f in FAMS if f != "table"]


def fix_sum(p):
    p = np.asarray(p, dtype=float)
    return p / p.sum(axis=-1, keepdims=True)


def simplex(rng, n, alpha=None, zeros=True):
    """A probability vector of one of several shapes."""
    kind = rng.integers(0, 8)
    if n == 1:
        return np.ones(1)
    if kind == 0:
        return np.full(n, 1 / n)
    if kind == 1 and zeros:                      # one-hot
        p = np.zeros(n)
        p[rng.integers(n)] = 1
        return p
    if kind == 2 and zeros:                      # some zeros
        p = rng.dirichlet(np.ones(n))
        k = rng.integers(1, n)
        p[rng.permutation(n)[:k]] = 0
        if p.sum() == 0:
            p[rng.integers(n)] = 1
        return fix_sum(p)
    if kind == 3:                                # very peaked
        p = np.full(n, 10.0 ** -rng.integers(3, 14))
        p[rng.integers(n)] = 1
        return fix_sum(p)
    a = alpha or rng.choice([0.3, 1.0, 5.0])
    p = rng.dirichlet(np.full(n, a)) + 1e-9
    return fix_sum(p)


def multi_row(rng, nf, zeros):
    """Multinomial cell probabilities, exactly 0 or not tiny (scipy recomputes
    the last cell as one minus the others, so tiny last cells are inexact)."""
    p = rng.dirichlet(np.full(nf, 1.5)) + .02
    if zeros and rng.random() < .3:
        p[rng.permutation(nf)[:rng.integers(1, nf)]] = 0
    return fix_sum(p)


def transmat(rng, nc, zeros=True):
    kind = rng.integers(0, 10)
    if not zeros and kind in (1, 2, 3, 4):
        kind = 0
    if kind == 1:                                # left-right
        A = np.triu(rng.dirichlet(np.ones(nc), size=nc) + .05)
        return fix_sum(A)
    if kind == 2:                                # cyclic permutation
        return np.roll(np.eye(nc), 1, axis=1)
    if kind == 3:                                # identity
        return np.eye(nc)
    if kind == 4:                                # sparse
        A = rng.dirichlet(np.ones(nc), size=nc) * (rng.random((nc, nc)) < .5)
        for i in range(nc):
            if A[i].sum() == 0:
                A[i, rng.integers(nc)] = 1
        return fix_sum(A)
    if kind == 5:                                # sticky
        eps = 10.0 ** -rng.integers(1, 12)
        A = np.full((nc, nc), eps) + np.eye(nc)
        return fix_sum(A)
    if kind == 6:                                # all rows equal
        return np.tile(simplex(rng, nc, zeros=zeros), (nc, 1))
    return np.array([simplex(rng, nc, zeros=zeros) for _ in range(nc)])


def spd(rng, n, cond=100.0, scale=1.0):
    q, _ = np.linalg.qr(rng.standard_normal((n, n)))
    ev = np.exp(rng.uniform(0, np.log(cond), n))
    ev /= ev.max()
    a = (q * (ev * scale)) @ q.T
    return (a + a.T) / 2


def make_spec(rng, fam, nc=None, nf=None, nm=None, zeros=True, mild=False,
              sep=None, cond=50.0):
    """A random model of family *fam*."""
    base, _, ct = fam.partition(":")
    nc = int(nc or rng.choice([1, 2, 2, 3, 3, 4, 5]))
    s = dict(family=base, ct=ct or None, nc=nc,
             startprob=simplex(rng, nc, zeros=zeros),
             transmat=transmat(rng, nc, zeros=zeros))
    if mild:
        s["startprob"] = fix_sum(rng.dirichlet(np.full(nc, 2.)) + .02)
        s["transmat"] = fix_sum(rng.dirichlet(np.full(nc, 2.), size=nc) + .02)
    if base == "cat":
        nf = int(nf or rng.integers(1, 7))
        s["nf"] = nf
        s["emissionprob"] = (
            fix_sum(rng.dirichlet(np.full(nf, 1.), size=nc) + .02) if mild
            else np.array([simplex(rng, nf, zeros=zeros) for _ in range(nc)]))
    elif base == "multi":
        nf = int(nf or rng.integers(2, 6))
        s["nf"] = nf
        s["n_trials"] = int(rng.integers(1, 12))
        # scipy renormalises the last cell; keep rows exactly summing to 1
        s["emissionprob"] = (
            fix_sum(rng.dirichlet(np.full(nf, 1.5), size=nc) + .02) if mild
            else np.array([multi_row(rng, nf, zeros) for _ in range(nc)]))
    elif base == "poisson":
        nf = int(nf or rng.integers(1, 4))
        s["nf"] = nf
        s["lambdas"] = rng.gamma(2.0, rng.choice([.5, 2., 8.]),
                                 size=(nc, nf)) + .05
        if zeros and not mild and rng.random() < .1:
            s["lambdas"][rng.integers(nc), rng.integers(nf)] = 0
    elif base == "table":
        ns = int(rng.integers(2, 12))
        s["nf"] = 1
        s["nsym"] = ns
        tab = rng.standard_normal((ns, nc)) * rng.choice([.5, 3., 20.])
        if not mild:
            if rng.random() < .3:
                tab = np.round(tab)                       # ties
            if rng.random() < .3 and zeros:
                tab[rng.random(tab.shape) < .2] = -np.inf
            if rng.random() < .2:
                tab += rng.choice([-200., 200., 1000., -1000.])  # densities
        s["table"] = tab
    else:
        nf = int(nf or rng.choice([1, 2, 2, 3, 4]))
        s["nf"] = nf
        scale = rng.choice([1., 1., .01, 30.]) if not mild else 1.
        sep = sep if sep is not None else rng.choice([.5, 2., 5.])
        off = rng.standard_normal(nf) * (rng.choice([0., 0., 20.])
                                         if not mild else 0.)
        if base == "gauss":
            s["means"] = (rng.standard_normal((nc, nf)) * sep + off) * scale
            sc2 = scale ** 2

            def var(*shape):
                return rng.uniform(.3, 2., size=shape) * sc2
            s["covars"] = {
                "spherical": lambda: var(nc),
                "diag": lambda: var(nc, nf),
                "tied": lambda: spd(rng, nf, cond, 1.5 * sc2),
                "full": lambda: np.array(
                    [spd(rng, nf, cond, 1.5 * sc2) for _ in range(nc)]),
            }[ct]()
        else:
            nm = int(nm or rng.choice([1, 2, 2, 3]))
            s["nm"] = nm
            s["weights"] = (
                fix_sum(rng.dirichlet(np.full(nm, 2.), size=nc) + .05) if mild
                else np.array([simplex(rng, nm, zeros=zeros)
                               for _ in range(nc)]))
            s["means"] = (rng.standard_normal((nc, nm, nf)) * sep + off) * scale
            sc2 = scale ** 2

            def var(*shape):
                return rng.uniform(.3, 2., size=shape) * sc2
            s["covars"] = {
                "spherical": lambda: var(nc, nm),
                "diag": lambda: var(nc, nm, nf),
                "tied": lambda: np.array(
                    [spd(rng, nf, cond, 1.5 * sc2) for _ in range(nc)]),
                "full": lambda: np.array(
                    [[spd(rng, nf, cond, 1.5 * sc2) for _ in range(nm)]
                     for _ in range(nc)]),
            }[ct]()
    return s


def wide_nf(rng, fam):
    """Many symbols, for categorical models."""
    return int(rng.integers(40, 257)) if fam == "cat" else None


def widen(rng, s):
    """Large counts."""
    if s["family"] == "multi":
        s["n_trials"] = int(rng.integers(60, 250))
    elif s["family"] == "poisson":
        s["lambdas"] = s["lambdas"] * float(rng.choice([10., 30., 100.]))


# --------------------------------------------------------------------------
# Containers.

def container(rng, a, lists=True):
    """The same values in a differently laid out array-like."""
    a = np.asarray(a)
    k = rng.integers(0, 6)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1 and a.ndim:                       # strided view into a NaN moat
        big = np.full([2 * n + 3 for n in a.shape],
                      np.nan if a.dtype.kind == "f" else 77, dtype=a.dtype)
        v = big[tuple(slice(1, 1 + 2 * n, 2) for n in a.shape)]
        v[...] = a
        return v
    if k == 2 and a.ndim:                       # reversed view
        return a[::-1].copy()[::-1]
    if k == 3:
        b = a.copy()
        b.flags.writeable = False
        return b
    if k == 4 and lists:
        return a.tolist()
    return a.copy()


def x_container(rng, X):
    X = np.asarray(X)
    k = rng.integers(0, 8)
    if X.size and (k == 6 and X.dtype.kind == "i" or k >= 4
                   and X.dtype.kind == "f" and integral(X)):
        return X.astype(rng.choice(int_dtypes(X)))
    return container(rng, X)


def integral(X):
    return bool(np.all(np.isfinite(X)) and np.all(np.abs(X) < 1 << 40)
                and np.all(X == np.rint(X)))


def int_dtypes(X):
    """Every type that holds these integers exactly."""
    out = ["int64", "int64"]
    for d in ("int8", "uint8", "int16", "uint16", "int32", "uint32"):
        i = np.iinfo(d)
        if X.min() >= i.min and X.max() <= i.max:
            out.append(d)
    if X.dtype.kind == "f" and np.abs(X).max() < 1 << 24:
        out.append("float32")
    return out


def len_container(rng, lengths):
    if lengths is None:
        return None
    k = rng.integers(0, 5)
    if k == 0:
        return np.array(lengths)
    if k == 1:
        return tuple(lengths)
    if k == 2:
        return np.array(lengths, dtype="int32")
    if k == 3:               # the smallest types that hold the lengths
        d = [t for t in ("int8", "uint8", "int16", "uint16")
             if max(lengths) <= np.iinfo(t).max]
        return np.array(lengths, dtype=d[0] if d else "int64")
    return [int(n) for n in lengths]


def partition(rng, n, kind=None):
    """A partition of n samples into sequences (or None)."""
    k = rng.integers(0, 6) if kind is None else kind
    if k == 0:
        return None
    if k == 1:
        return [n]
    if k == 2:
        return [1] * n
    out, left = [], n
    while left:
        m = int(rng.integers(1, left + 1)) if k != 3 else min(
            left, int(rng.integers(1, 4)))
        out.append(m)
        left -= m
    return out


# --------------------------------------------------------------------------
# Model construction.

_TABLE = {}


def table_class(H, mode="log"):
    key = (id(H.base), mode)
    if key in _TABLE:
        return _TABLE[key]

    class Table(H.base.BaseHMM):
        """A documented-style custom model: emissions from a lookup table."""

        def _get_n_fit_scalars_per_param(self):
            return None

        def _generate_sample_from_state(self, state, random_state):
            return [float(state)]

    if mode == "log":
        def f(self, X):
            return self.table_[X[:, 0].astype(int)]
        Table._compute_log_likelihood = f
    elif mode == "logF":
        def f(self, X):
            return np.asfortranarray(self.table_[X[:, 0].astype(int)])
        Table._compute_log_likelihood = f
    else:
        def f(self, X):
            return np.exp(self.table_[X[:, 0].astype(int)])
        Table._compute_likelihood = f
    _TABLE[key] = Table
    return Table


def cls_of(H, spec, table_mode="log"):
    return {"cat": H.hmm.CategoricalHMM, "multi": H.hmm.MultinomialHMM,
            "poisson": H.hmm.PoissonHMM, "gauss": H.hmm.GaussianHMM,
            "gmm": H.hmm.GMMHMM}.get(spec["family"]) or table_class(
                H, table_mode)


def ctor_args(spec):
    a = {"n_components": spec["nc"]}
    if spec["ct"]:
        a["covariance_type"] = spec["ct"]
    if spec["family"] == "gmm":
        a["n_mix"] = spec["nm"]
    if spec["family"] == "multi":
        a["n_trials"] = spec["n_trials"]
    return a


ATTRS = {"cat": ["emissionprob"], "multi": ["emissionprob"],
         "poisson": ["lambdas"], "gauss": ["means", "covars"],
         "gmm": ["weights", "means", "covars"], "table": ["table"]}
CODES = {"startprob": "s", "transmat": "t", "emissionprob": "e",
         "lambdas": "l", "means": "m", "covars": "c", "weights": "w",
         "table": "z"}


def attrs_of(spec):
    return ["startprob", "transmat"] + ATTRS[spec["family"]]


def all_params(spec):
    return "".join(CODES[a] for a in attrs_of(spec) if a != "table")


def assign(model, spec, rng=None, only=None):
    for a in attrs_of(spec):
        if only and a not in only:
            continue
        v = np.array(spec[a], dtype=float)
        if a == "covars" and spec["family"] == "gauss" and not hasattr(
                model, "n_features"):
            model.n_features = spec["nf"]
        setattr(model, a + "_", v if rng is None or a == "table"
                else container(rng, v, lists=spec["family"] != "gmm"))
    return model


def build(H, spec, rng=None, table_mode="log", **kw):
    args = ctor_args(spec)
    args.update(kw)
    m = cls_of(H, spec, table_mode)(**args)
    if spec["family"] == "cat" and rng is not None and rng.random() < .3:
        m.n_features = spec["nf"]
    return assign(m, spec, rng)


def read(model, spec):
    """Read the parameters back from the public attributes."""
    out = dict(spec)
    for a in attrs_of(spec):
        if a == "table":
            continue
        v = np.array(getattr(model, a + "_"), dtype=float)
        if a == "covars" and spec["family"] == "gauss":
            # covars_ reads as (nc, nf, nf) whatever the covariance type.
            if v.shape != (spec["nc"], spec["nf"], spec["nf"]):
                raise ValueError(f"covars_ has shape {v.shape}")
            v = {"full": lambda: v, "tied": lambda: v[0],
                 "diag": lambda: np.einsum("kii->ki", v).copy(),
                 "spherical": lambda: v[:, 0, 0].copy()}[spec["ct"]]()
        out[a] = v
    return out


# --------------------------------------------------------------------------
# Data.

def draw_state_seq(rng, spec, n):
    z = np.empty(n, int)
    c0 = np.cumsum(spec["startprob"])
    cA = np.cumsum(spec["transmat"], axis=1)
    z[0] = min(np.searchsorted(c0, rng.random() * c0[-1], "right"),
               spec["nc"] - 1)
    for t in range(1, n):
        c = cA[z[t - 1]]
        z[t] = min(np.searchsorted(c, rng.random() * c[-1], "right"),
                   spec["nc"] - 1)
    return z


def emit(rng, spec, z):
    fam = spec["family"]
    n = len(z)
    if fam == "cat":
        return np.array([[rng.choice(spec["nf"], p=spec["emissionprob"][k])]
                         for k in z])
    if fam == "multi":
        return np.array([rng.multinomial(spec["n_trials"],
                                         spec["emissionprob"][k]) for k in z])
    if fam == "poisson":
        return np.array([rng.poisson(spec["lambdas"][k]) for k in z])
    if fam == "table":
        return rng.integers(0, spec["nsym"], size=(n, 1)).astype(float)
    out = np.empty((n, spec["nf"]))
    for t, k in enumerate(z):
        if fam == "gauss":
            mu, cov = spec["means"][k], ref.full_cov(spec, k)
        else:
            j = rng.choice(spec["nm"], p=spec["weights"][k])
            mu, cov = spec["means"][k][j], ref.full_cov(spec, k, j)
        out[t] = rng.multivariate_normal(mu, cov, method="eigh")
    return out


def sample(rng, spec, n, lengths=None):
    zs = [draw_state_seq(rng, spec, m) for m in (lengths or [n])]
    return emit(rng, spec, np.concatenate(zs))


def hostile_X(rng, spec, n):
    """Observations not drawn from the model (may be impossible under it)."""
    fam, nf = spec["family"], spec["nf"]
    if fam == "cat":
        return rng.integers(0, nf, size=(n, 1))
    if fam == "multi":
        return np.array([rng.multinomial(spec["n_trials"],
                                         rng.dirichlet(np.ones(nf)))
                         for _ in range(n)])
    if fam == "poisson":
        return rng.integers(0, rng.choice([2, 10, 40]), size=(n, nf))
    if fam == "table":
        return rng.integers(0, spec["nsym"], size=(n, 1)).astype(float)
    m = np.asarray(spec["means"]).reshape(-1, nf)
    return m[rng.integers(len(m), size=n)] + rng.standard_normal(
        (n, nf)) * m.std() * rng.choice([0, .3, 2.])


def data(rng, spec, n, lengths=None):
    X = (sample(rng, spec, n, lengths) if rng.random() < .7
         else hostile_X(rng, spec, n))
    if rng.random() < .1:
        X = np.repeat(X[:1], n, axis=0)          # constant sequence
    return X


def big_data(rng, spec, n):
    """Many samples at little cost: blocks of a sample of the model.  (Every
    order of samples is possible under a model without zeros.)"""
    if n <= 4000:
        return sample(rng, spec, n, [n])
    base = sample(rng, spec, 3000, [3000])
    out, left = [], n
    while left:
        k = min(left, int(rng.integers(20, 600)))
        i = int(rng.integers(0, 3000 - k + 1))
        out.append(base[i:i + k])
        left -= k
    return np.concatenate(out)


# --------------------------------------------------------------------------
# Dynamic range analysis for the scaled recursion.

def dyn_range(lpi, lA, lB):
    """(widest log dynamic range a linear-domain recursion must represent,
    True if some frame is certain to underflow)."""
    a, b = ref.forward(lpi, lA, lB), ref.backward(lA, lB)
    ll = ref.lse(a[-1])
    if not np.isfinite(ll):
        return np.inf, True
    norm = ref.lse(a, axis=1)                    # cumulative log c
    c = np.diff(np.concatenate([[np.longdouble(0)], norm]))
    with np.errstate(invalid="ignore"):
        lg = a + b - ll
        ah = a - norm[:, None]
        bh = b - (ll - norm)[:, None]            # scaled backward
    live = lg > -35
    r = max(float(-np.min(c)), float(np.max(np.abs(c))),
            float(-np.min(ah[live])), float(-np.min(lB[live])),
            float(np.max(lB[np.isfinite(lB)])),
            float(np.max(bh[np.isfinite(bh)])) if np.isfinite(bh).any() else 0)
    return r, bool(np.min(c) < -705)
