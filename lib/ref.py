"""Reference oracles, written from the textbook definitions.

Nothing here imports hmmlearn.  All recursions run in the log domain in
``np.longdouble`` (64 bit mantissa), and for small instances everything is also
available by explicit enumeration of every state path.
"""
import itertools
import math

import numpy as np
from scipy import special

LD = np.longdouble
NEG = LD("-inf")
LOG2PI = np.log(LD(2) * LD(math.pi) if False else LD("6.283185307179586476925286766559"))


def ld(x):
    return np.asarray(x, dtype=LD)


def safelog(x):
    x = ld(x)
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.log(x)


def lse(a, axis=None):
    """logsumexp in longdouble, -inf safe."""
    a = ld(a)
    m = np.max(a, axis=axis, keepdims=True)
    m0 = np.where(np.isfinite(m), m, LD(0))
    with np.errstate(divide="ignore", under="ignore"):
        s = np.log(np.sum(np.exp(a - m0), axis=axis, keepdims=True)) + m0
    if axis is None:
        return s.reshape(())[()]
    return np.squeeze(s, axis=axis)


# --------------------------------------------------------------------------
# Emission log densities.

def chol(a):
    a = ld(a)
    n = a.shape[0]
    L = np.zeros((n, n), dtype=LD)
    for i in range(n):
        for j in range(i + 1):
            s = a[i, j] - np.sum(L[i, :j] * L[j, :j])
            if i == j:
                if not s > 0:
                    raise np.linalg.LinAlgError("not SPD")
                L[i, i] = np.sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L


def solve_lower(L, b):
    """Solve L y = b with b (n, m)."""
    y = np.zeros(b.shape, dtype=LD)
    for i in range(L.shape[0]):
        y[i] = (b[i] - np.tensordot(L[i, :i], y[:i], axes=1)) / L[i, i]
    return y


def mvn_logpdf(X, mu, cov):
    X = ld(X)
    mu = ld(mu)
    L = chol(cov)
    y = solve_lower(L, (X - mu).T)
    nf = mu.shape[0]
    return LD(-0.5) * (nf * LOG2PI + 2 * np.sum(np.log(np.diag(L)))
                       + np.sum(y * y, axis=0))


_LGF = [LD(0)]


def lfact(n):
    n = np.asarray(n)
    mx = int(n.max()) if n.size else 0
    while len(_LGF) <= mx:
        _LGF.append(_LGF[-1] + np.log(LD(len(_LGF))))
    return np.array(_LGF, dtype=LD)[n.astype(int)]


def xlogy(x, y):
    x, y = np.broadcast_arrays(ld(x), ld(y))
    out = np.zeros(x.shape, dtype=LD)
    nz = x != 0
    with np.errstate(divide="ignore"):
        out[nz] = x[nz] * np.log(y[nz])
    return out


def full_cov(spec, k, j=None):
    """Full covariance matrix of state k (mixture component j)."""
    ct, nf = spec["ct"], spec["nf"]
    c = spec["covars"]
    if spec["family"] == "gmm":
        if ct == "tied":
            return c[k]
        c = c[k, j]
    elif ct == "tied":
        return c
    else:
        c = c[k]
    if ct == "spherical":
        return np.eye(nf) * np.ravel(c)[0]
    if ct == "diag":
        return np.diag(c)
    return c


def log_emission(spec, X):
    """(T, nc) longdouble log p(x_t | state)."""
    fam, nc = spec["family"], spec["nc"]
    X = np.asarray(X)
    T = len(X)
    out = np.empty((T, nc), dtype=LD)
    if fam == "cat":
        lb = safelog(spec["emissionprob"])
        return lb[:, X[:, 0]].T
    if fam == "table":
        return ld(spec["table"])[X[:, 0].astype(int)]
    for k in range(nc):
        if fam == "gauss":
            out[:, k] = mvn_logpdf(X, spec["means"][k], full_cov(spec, k))
        elif fam == "gmm":
            parts = [safelog(spec["weights"][k][j])
                     + mvn_logpdf(X, spec["means"][k][j], full_cov(spec, k, j))
                     for j in range(spec["nm"])]
            out[:, k] = lse(np.array(parts, dtype=LD), axis=0)
        elif fam == "multi":
            p = spec["emissionprob"][k]
            out[:, k] = (lfact(X.sum(axis=1)) - lfact(X).sum(axis=1)
                         + xlogy(X, p[None, :]).sum(axis=1))
        elif fam == "poisson":
            lam = spec["lambdas"][k]
            out[:, k] = (xlogy(X, lam[None, :]) - ld(lam)[None, :]
                         - lfact(X)).sum(axis=1)
        else:
            raise AssertionError(fam)
    return out


def mix_resp(spec, X):
    """(T, nc, nm) log responsibilities of mixture components given state."""
    nc, nm = spec["nc"], spec["nm"]
    out = np.empty((len(X), nc, nm), dtype=LD)
    for k in range(nc):
        parts = np.array(
            [safelog(spec["weights"][k][j])
             + mvn_logpdf(X, spec["means"][k][j], full_cov(spec, k, j))
             for j in range(nm)], dtype=LD).T
        out[:, k] = parts - lse(parts, axis=1)[:, None]
    return out


# --------------------------------------------------------------------------
# Dynamic programming oracles (longdouble, log domain).

def _ladd(col, lt):
    with np.errstate(invalid="ignore"):
        return col[:, None] + lt


def forward(lpi, lA, lB):
    T, nc = lB.shape
    a = np.empty((T, nc), dtype=LD)
    a[0] = lpi + lB[0]
    for t in range(1, T):
        a[t] = lse(a[t - 1][:, None] + lA, axis=0) + lB[t]
    return a


def backward(lA, lB):
    T, nc = lB.shape
    b = np.zeros((T, nc), dtype=LD)
    for t in range(T - 2, -1, -1):
        b[t] = lse(lA + (lB[t + 1] + b[t + 1])[None, :], axis=1)
    return b


def estep(lpi, lA, lB):
    """Return loglik, gamma (T, nc), xi_sum (nc, nc) as plain longdouble."""
    a, b = forward(lpi, lA, lB), backward(lA, lB)
    ll = lse(a[-1])
    with np.errstate(under="ignore", invalid="ignore"):
        g = np.exp(a + b - ll)
        T, nc = lB.shape
        xi = np.zeros((nc, nc), dtype=LD)
        for t in range(T - 1):
            xi += np.exp(a[t][:, None] + lA
                         + (lB[t + 1] + b[t + 1])[None, :] - ll)
    return ll, g, xi


def viterbi_value(lpi, lA, lB):
    v = lpi + lB[0]
    for t in range(1, len(lB)):
        v = np.max(v[:, None] + lA, axis=0) + lB[t]
    return np.max(v)


def path_logprob(lpi, lA, lB, path):
    path = np.asarray(path)
    s = lpi[path[0]] + lB[0, path[0]]
    for t in range(1, len(path)):
        s = s + lA[path[t - 1], path[t]] + lB[t, path[t]]
    return s


# --------------------------------------------------------------------------
# Enumeration of all paths.

def all_paths(nc, T):
    return np.array(list(itertools.product(range(nc), repeat=T)), dtype=int)


def enum_logprobs(lpi, lA, lB):
    T, nc = lB.shape
    P = all_paths(nc, T)
    s = lpi[P[:, 0]] + lB[0][P[:, 0]]
    for t in range(1, T):
        s = s + lA[P[:, t - 1], P[:, t]] + lB[t][P[:, t]]
    return P, s


def enum_inference(lpi, lA, lB):
    """Everything by enumeration: loglik, gamma, xi_sum, best path value."""
    P, s = enum_logprobs(lpi, lA, lB)
    T, nc = lB.shape
    ll = lse(s)
    best = np.max(s)
    g = np.zeros((T, nc), dtype=LD)
    xi = np.zeros((nc, nc), dtype=LD)
    if np.isfinite(ll):
        with np.errstate(under="ignore"):
            w = np.exp(s - ll)
        for t in range(T):
            for k in range(nc):
                g[t, k] = w[P[:, t] == k].sum()
        for t in range(T - 1):
            for i in range(nc):
                for j in range(nc):
                    xi[i, j] += w[(P[:, t] == i) & (P[:, t + 1] == j)].sum()
    return ll, g, xi, best


def split(X, lengths):
    if lengths is None:
        return [X]
    out, i = [], 0
    for n in lengths:
        out.append(X[i:i + n])
        i += n
    assert i == len(X)
    return out


def logs(spec):
    return safelog(spec["startprob"]), safelog(spec["transmat"])


def score(spec, X, lengths=None):
    lpi, lA = logs(spec)
    return sum((lse(forward(lpi, lA, log_emission(spec, s))[-1])
                for s in split(np.asarray(X), lengths)), LD(0))


# --------------------------------------------------------------------------
# Reference EM step.

def norm_rows(a):
    s = a.sum(axis=-1, keepdims=True)
    s = np.where(s == 0, 1, s)
    return a / s


def em_step(spec, X, lengths, params, pri):
    """One exact EM iteration; returns (loglik, new spec, aux)."""
    lpi, lA = logs(spec)
    fam, nc = spec["family"], spec["nc"]
    X = np.asarray(X)
    ll = LD(0)
    start = np.zeros(nc, dtype=LD)
    trans = np.zeros((nc, nc), dtype=LD)
    G = []
    for s in split(X, lengths):
        l, g, xi = estep(lpi, lA, log_emission(spec, s))
        ll += l
        start += g[0]
        trans += xi
        G.append(g)
    G = np.concatenate(G)
    new = dict(spec)
    if "s" in params:
        sp = np.maximum(ld(pri.get("startprob_prior", 1.0)) - 1 + start, 0)
        sp = np.where(np.asarray(spec["startprob"]) == 0, 0, sp)
        new["startprob"] = sp / sp.sum()
    if "t" in params:
        tm = np.maximum(ld(pri.get("transmat_prior", 1.0)) - 1 + trans, 0)
        tm = np.where(np.asarray(spec["transmat"]) == 0, 0, tm)
        new["transmat"] = norm_rows(tm)
    post = G.sum(axis=0)
    if fam == "cat" and "e" in params:
        obs = np.zeros(np.shape(spec["emissionprob"]), dtype=LD)
        for t in range(len(X)):
            obs[:, X[t, 0]] += G[t]
        e = np.maximum(ld(pri.get("emissionprob_prior", 1.0)) - 1 + obs, 0)
        new["emissionprob"] = norm_rows(e)
    if fam == "multi" and "e" in params:
        new["emissionprob"] = norm_rows(G.T @ ld(X))
    if fam == "poisson" and "l" in params:
        al = ld(pri.get("lambdas_prior", 0.0))
        be = ld(pri.get("lambdas_weight", 0.0))
        new["lambdas"] = (al + G.T @ ld(X)) / (be + post[:, None])
    if fam == "gauss":
        _gauss_mstep(spec, new, X, G, post, params, pri)
    pm = post
    if fam == "gmm":
        pm = _gmm_mstep(spec, new, X, G, post, params, pri)
    return ll, new, dict(post=post, start=start, trans=trans, min_pm=float(pm.min()))


def _gauss_mstep(spec, new, X, G, post, params, pri):
    ct, nc, nf = spec["ct"], spec["nc"], spec["nf"]
    X = ld(X)
    m0 = np.broadcast_to(ld(pri.get("means_prior", 0)), (nc, nf))
    w0 = np.broadcast_to(ld(pri.get("means_weight", 0)), (nc, nf))
    mu = ld(spec["means"])
    if "m" in params:
        mu = (w0 * m0 + G.T @ X) / (w0 + post[:, None])
        new["means"] = mu
    if "c" not in params:
        return
    cp = ld(pri.get("covars_prior", 1e-2))
    cw = LD(pri.get("covars_weight", 1))
    # Scatter about the (new) means.
    if ct in ("diag", "spherical"):
        S = np.stack([(G[:, k][:, None] * (X - mu[k]) ** 2).sum(axis=0)
                      for k in range(nc)])
        cov = ((cp + w0 * (mu - m0) ** 2 + S)
               / np.maximum(max(cw - 1, 0) + post[:, None], LD(1e-5)))
        if ct == "spherical":
            cov = cov.mean(axis=1)
        new["covars"] = cov
    else:
        S = np.stack([
            np.einsum("t,ti,tj->ij", G[:, k], X - mu[k], X - mu[k])
            + w0[k, 0] * np.outer(mu[k] - m0[k], mu[k] - m0[k])
            for k in range(nc)])
        d = max(cw - nf, 0)
        if ct == "tied":
            new["covars"] = (cp + S.sum(axis=0)) / (d + post.sum())
        else:
            new["covars"] = (cp + S) / (d + post[:, None, None])


def _gmm_mstep(spec, new, X, G, post, params, pri):
    ct, nc, nf, nm = spec["ct"], spec["nc"], spec["nf"], spec["nm"]
    X = ld(X)
    with np.errstate(under="ignore"):
        R = np.exp(mix_resp(spec, X)) * G[:, :, None]      # (T, nc, nm)
    pm = R.sum(axis=0)
    if "w" in params:
        a1 = np.broadcast_to(ld(pri.get("weights_prior", 1.0)), (nc, nm)) - 1
        new["weights"] = norm_rows(pm + a1)
    lam = np.broadcast_to(ld(pri.get("means_weight", 0.0)), (nc, nm))
    m0 = np.broadcast_to(ld(pri.get("means_prior", 0.0)), (nc, nm, nf))
    mu_old = ld(spec["means"])
    mu = mu_old
    if "m" in params:
        mu = ((lam[..., None] * m0 + np.einsum("tkj,ti->kji", R, X))
              / (pm + lam)[..., None])
        new["means"] = mu
    if "c" not in params:
        return pm
    # hmmlearn's scatter is about the means in force during the E-step.
    D = X[:, None, None, :] - mu_old
    dm = mu - m0
    if ct == "full":
        psi = np.broadcast_to(ld(pri.get("covars_prior", 0.0)),
                              (nc, nm, nf, nf))
        nu = np.broadcast_to(ld(pri.get("covars_weight", -(nf + 2.0))),
                             (nc, nm))
        S = np.einsum("tkj,tkja,tkjb->kjab", R, D, D)
        S = S + lam[..., None, None] * dm[..., :, None] * dm[..., None, :]
        new["covars"] = ((np.swapaxes(psi, -1, -2) + S)
                         / (pm + nu + nf + 2)[..., None, None])
    elif ct == "diag":
        al = np.broadcast_to(ld(pri.get("covars_prior", -1.5)), (nc, nm, nf))
        be = np.broadcast_to(ld(pri.get("covars_weight", 0.0)), (nc, nm, nf))
        S = np.einsum("tkj,tkja->kja", R, D ** 2)
        new["covars"] = ((S + lam[..., None] * dm ** 2 + 2 * be)
                         / (pm[..., None] + 1 + 2 * (al + 1)))
    elif ct == "spherical":
        al = np.broadcast_to(ld(pri.get("covars_prior", -(nf + 2.0) / 2)),
                             (nc, nm))
        be = np.broadcast_to(ld(pri.get("covars_weight", 0.0)), (nc, nm))
        S = np.einsum("tkj,tkja->kj", R, D ** 2)
        new["covars"] = ((S + lam * (dm ** 2).sum(-1) + 2 * be)
                         / (nf * (pm + 1) + 2 * (al + 1)))
    elif ct == "tied":
        psi = np.broadcast_to(ld(pri.get("covars_prior", 0.0)), (nc, nf, nf))
        nu = np.broadcast_to(ld(pri.get("covars_weight", -(nm + nf + 1.0))),
                             (nc,))
        S = np.einsum("tkj,tkja,tkjb->kab", R, D, D)
        S = S + np.einsum("kj,kja,kjb->kab", lam, dm, dm)
        new["covars"] = ((np.swapaxes(psi, -1, -2) + S)
                         / (post + nm + nu + nf + 1)[:, None, None])
    return pm


# --------------------------------------------------------------------------
# Variational Bayes reference.

def digamma(x):
    return ld(special.digamma(np.asarray(x, dtype=float)))


def vb_sub_dirichlet(post):
    post = np.asarray(post, dtype=float)
    return (special.digamma(post)
            - special.digamma(post.sum(axis=-1, keepdims=True)))


def kl_dirichlet(q, p):
    q, p = np.asarray(q, float), np.asarray(p, float)
    return (special.gammaln(q.sum()) - special.gammaln(p.sum())
            - (special.gammaln(q) - special.gammaln(p)).sum()
            + ((q - p) * (special.digamma(q) - special.digamma(q.sum()))).sum())


def log_dirmult(counts, alpha):
    """log marginal probability of an ordered sequence with these counts."""
    counts, alpha = np.asarray(counts, float), np.asarray(alpha, float)
    return (special.gammaln(alpha.sum(-1))
            - special.gammaln(alpha.sum(-1) + counts.sum(-1))
            + (special.gammaln(alpha + counts)
               - special.gammaln(alpha)).sum(-1))


def log_multigamma_half(dof, D):
    """log of the normaliser part prod_i Gamma((dof-i)/2) with pi factor."""
    return (D * (D - 1) / 4 * np.log(np.pi)
            + sum(special.gammaln((dof - i) / 2) for i in range(D)))


def log_nw_evidence(n, sx, sxx, m0, b0, dof0, S0):
    """log evidence of n D-dim points under a Normal-Wishart prior.

    Precision ~ Wishart(dof0, inv(S0)), mean ~ N(m0, (b0 * Prec)^-1).
    n (P,), sx (P, D), sxx (P, D, D).
    """
    m0 = np.asarray(m0, float)
    S0 = np.asarray(S0, float)
    D = len(m0)
    n = np.asarray(n, float)
    bn = b0 + n
    mn = (b0 * m0 + sx) / bn[:, None]
    Sn = (S0 + sxx + b0 * np.outer(m0, m0)
          - bn[:, None, None] * mn[:, :, None] * mn[:, None, :])
    dn = dof0 + n
    return (-n * D / 2 * np.log(np.pi)
            + log_multigamma_half(dn, D) - log_multigamma_half(dof0, D)
            + dof0 / 2 * np.linalg.slogdet(S0)[1]
            - dn / 2 * np.linalg.slogdet(Sn)[1]
            + D / 2 * (np.log(b0) - np.log(bn)))


def log_nw_tied_evidence(n, sx, sxx, m0, b0, dof0, S0):
    """log evidence when the states share one Wishart precision.

    n (P, K), sx (P, K, D), sxx (P, D, D) summed over states; m0 (K, D),
    b0 (K,).
    """
    m0, b0, S0 = (np.asarray(a, float) for a in (m0, b0, S0))
    D = m0.shape[1]
    bn = b0 + n
    mn = (b0[:, None] * m0 + sx) / bn[..., None]
    Sn = (S0 + sxx + np.einsum("k,ki,kj->ij", b0, m0, m0)
          - np.einsum("pk,pki,pkj->pij", bn, mn, mn))
    N = n.sum(axis=1)
    dn = dof0 + N
    return (-N * D / 2 * np.log(np.pi)
            + log_multigamma_half(dn, D) - log_multigamma_half(dof0, D)
            + dof0 / 2 * np.linalg.slogdet(S0)[1]
            - dn / 2 * np.linalg.slogdet(Sn)[1]
            + D / 2 * (np.log(b0) - np.log(bn)).sum(axis=1))


def wishart_elogdet(dof, S):
    """E log |Lambda| for Lambda ~ Wishart(dof, inv(S))."""
    D = len(S)
    return (D * np.log(2) - np.linalg.slogdet(S)[1]
            + sum(special.digamma((dof - i) / 2) for i in range(D)))


def kl_wishart(dof_q, S_q, dof_p, S_p):
    """KL(W(dof_q, inv(S_q)) || W(dof_p, inv(S_p)))."""
    D = len(S_q)

    def log_norm(dof, S):
        return (dof * D / 2 * np.log(2) - dof / 2 * np.linalg.slogdet(S)[1]
                + log_multigamma_half(dof, D))
    return ((dof_q - dof_p) / 2 * wishart_elogdet(dof_q, S_q)
            - dof_q * D / 2
            + dof_q / 2 * np.trace(np.linalg.solve(S_q, S_p))
            + log_norm(dof_p, S_p) - log_norm(dof_q, S_q))


def ekl_normal(m_q, b_q, m_p, b_p, prec):
    """Expected KL of N(m_q, inv(b_q Lambda)) from N(m_p, inv(b_p Lambda)),
    prec = E Lambda."""
    d = np.asarray(m_q, float) - m_p
    D = len(d)
    return .5 * (D * (np.log(b_q) - np.log(b_p)) + D * (b_p / b_q - 1)
                 + b_p * d @ prec @ d)
