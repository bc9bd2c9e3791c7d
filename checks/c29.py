"""C29: the warnings of training are truthful."""
import copy
import logging
import re
import warnings

import numpy as np

from checks.c13 import watch
from lib import common, gen, train, vb

CASES = {"quick": 1500, "thorough": 20000}
RULE = ("training of every family on data sets around the size of the "
        "parameter count, with every subset of parameters set before and "
        "requested from initialisation, with structural zeros and sequences "
        "that never leave a state; the library's log records compared with "
        "what really happened: parameters overwritten, data points against "
        "free parameters, transition rows without mass after an iteration; "
        "non-trivial = a warning was due or narrowly not due")
REQUIRED = (["family:" + f for f in gen.FAMS if f != "table"]
            + ["degenerate-warned", "degenerate-silent", "degenerate-exact",
               "overwrite-warned", "overwrite-silent", "zero-row-warned",
               "zero-row-silent", "vb-overwrite", "params-subset",
               "inference-silent", "again", "vb-near"])
ASSUMPTIONS = ["log records are recognised by 'overwritten', 'degenerate "
               "solution' and 'zero sum'; other wording is not judged",
               "no warning about empty transition rows is demanded for the "
               "iteration that ended training"]


def n_free(spec, params):
    nc, nf, nm, ct = (spec["nc"], spec["nf"], spec.get("nm"), spec["ct"])
    fam = spec["family"]
    k = {"s": nc - 1, "t": nc * (nc - 1)}
    tri = nf * (nf + 1) // 2
    if fam in ("cat", "multi"):
        k["e"] = nc * (nf - 1)
    elif fam == "poisson":
        k["l"] = nc * nf
    elif fam == "gauss":
        k["m"] = nc * nf
        k["c"] = {"full": nc * tri, "tied": tri, "diag": nc * nf,
                  "spherical": nc}[ct]
    else:
        k["w"] = nc * (nm - 1)
        k["m"] = nc * nm * nf
        k["c"] = {"full": nc * nm * tri, "tied": nc * tri,
                  "diag": nc * nm * nf, "spherical": nc * nm}[ct]
    return sum(k[p] for p in params)


def of(rows, word):
    return [m for _, m in rows if word in m]


def judge(ctx, m, X, L, k, params, again, names):
    """Fit and compare the log with what was due."""
    with watch() as (log, err):
        ctx.api("fit(n_iter=0)", m.fit, X, L)
    want = sorted(names[c] + "_" for c in again)
    got = of(log.rows, "overwritten")
    ctx.check(len(got) == len(want), "overwrite", f"{got} warned, overwritten "
              f"were {want}")
    for a in want:
        ctx.check(sum(bool(re.search(rf"\b{a}", g)) for g in got) == 1,
                  "overwrite", f"no warning about {a}: {got}")
    ctx.count("overwrite-warned" if want else "overwrite-silent")
    got = of(log.rows, "degenerate solution")
    due = X.size < k
    ctx.check(len(got) == due, "degenerate", f"{X.size} data points, {k} free "
              f"parameters ({params}): {got}")
    if due:
        nums = [int(x) for x in re.findall(r"\d+", got[0])]
        ctx.check(nums == [k, X.size], "degenerate", f"{got} ({k}, {X.size})")
    ctx.count("degenerate-warned" if due else "degenerate-silent")
    if X.size == k:
        ctx.count("degenerate-exact")
    rest = [r for r in log.rows if not any(
        w in r[1] for w in ("overwritten", "degenerate solution"))]
    ctx.check(not rest, "unfounded", f"{rest}")


def em(ctx):
    rng, H = ctx.rng, ctx.H
    t = train.make(ctx, kind="default", zeros=rng.random() < .5)
    s = t.spec
    fam, nf, nc = s["family"], s["nf"], s["nc"]
    params = t.params if rng.random() < .5 else gen.all_params(s)
    if set(params) != set(gen.all_params(s)):
        ctx.count("params-subset")
    cols = 1 if fam == "cat" else nf
    k = n_free(s, params)
    # cut the data to about as many numbers as free parameters
    near = rng.random() < .5
    if near:
        n = int(np.clip(-(-k // cols) + rng.integers(-1, 2), 1, 400))
        reps = -(-n // len(t.X))
        X = np.concatenate([t.X] * reps)[:n]
        if X.dtype.kind == "f" and reps > 1:
            X = X + rng.normal(size=X.shape) * 1e-2 * (1 + np.abs(X))
        L = gen.partition(rng, n)
    else:
        X, L = t.X, t.lengths
    names = {gen.CODES[a]: a for a in gen.attrs_of(s)}
    codes = gen.all_params(s)
    setup = [c for c in codes if rng.random() < .5]
    init = "".join(c for c in codes if c not in setup or rng.random() < .4)
    small = len(X) < max(3 * nc, 2 * nf + 2) or fam == "gmm"
    if fam in ("gauss", "gmm") and small:
        # k-means and the sample covariance need data: nothing drawn from it
        setup, init = list(codes), "st" if rng.random() < .5 else ""
        if fam == "gmm" and len(X) < max(nc, 2):
            return
    kw = dict(common.fit_kw(s))
    m = gen.build(H, s, None, n_iter=0, params=params, init_params=init,
                  implementation=t.impl, random_state=3, **kw)
    for c in codes:
        if c not in setup:
            a = names[c] + "_"
            a = "_covars_" if a == "covars_" and "_covars_" in vars(m) else a
            delattr(m, a)
    ctx.count("family:" + t.fam)
    ctx.cover(t.fam, "".join(sorted(setup)), "".join(sorted(init)), near)
    ctx.detail.update(n_free=k, size=X.size, set=setup, init=init,
                      params=params)
    ctx.feed(X, L, init, str(setup))
    judge(ctx, m, X, L, k, params, [c for c in setup if c in init], names)
    ctx.nontrivial = near or bool(set(setup) & set(init))
    # The same model again, and a copy of it: now everything is set.
    for _ in range(int(rng.integers(0, 3))):
        if rng.random() < .5:
            init = "".join(c for c in codes if c in init or (
                not small and rng.random() < .5))
            m.init_params = init
        if rng.random() < .3:
            m = copy.deepcopy(m)
        judge(ctx, m, X, L, k, params, list(init), names)
        ctx.count("again")
    X0 = t.X
    with warnings.catch_warnings(record=True) as py, watch() as (log, err):
        warnings.simplefilter("always")
        for f in ("score", "predict", "predict_proba"):
            try:
                ctx.counts["api_calls"] += 1
                getattr(m, f)(X0, t.lengths)
            except ValueError:
                pass
        ctx.api("sample", m.sample, 5, random_state=1)
        copy.deepcopy(m)
    ctx.check(not log.rows, "unfounded", f"inference warned: {log.rows}")
    py = [str(w.message)[:100] for w in py if issubclass(
        w.category, (DeprecationWarning, FutureWarning, UserWarning))]
    ctx.check(not py, "unfounded", f"inference warned: {py}")
    ctx.count("inference-silent")


def zero_rows(ctx):
    rng, H = ctx.rng, ctx.H
    fam = str(rng.choice(["cat", "multi", "poisson", "gauss:diag"]))
    t = train.make(ctx, fam=fam, kind="default", zeros=True)
    s = t.spec
    nc = s["nc"]
    if nc < 2:
        return
    X, L = t.X, t.lengths
    if rng.random() < .6:
        # a state that can only be the last one of a sequence, or never
        s = copy.deepcopy(s)
        A = np.asarray(s["transmat"], float)
        sp = np.asarray(s["startprob"], float)
        z = int(rng.integers(nc))
        if rng.random() < .5:
            A[:, z] = 0
            A[z] = 0
            A[z, (z + 1) % nc] = 1
            for i in range(nc):
                if A[i].sum() <= 0:
                    A[i, [j for j in range(nc) if j != z][0]] = 1
            A /= A.sum(axis=1, keepdims=True)
            sp[z] = 0
            if sp.sum() <= 0:
                sp[(z + 1) % nc] = 1
            sp /= sp.sum()
            s["transmat"], s["startprob"] = A, sp
        else:
            L = [1] * len(X)
    if rng.random() < .2:
        L = [1] * len(X)
    n = int(rng.integers(1, 5))
    kw = dict(common.fit_kw(s))
    m = gen.build(H, s, None, n_iter=n, params="st", init_params="",
                  tol=-np.inf, implementation=t.impl, **kw)
    snaps = []
    mon = m.monitor_

    class Spy(type(mon)):
        def report(self, lp):
            snaps.append(np.array(m.transmat_))
            return super().report(lp)
    mon.__class__ = Spy
    if not np.isfinite(gen_score(s, X, L)):
        return
    with watch() as (log, err):
        try:
            ctx.counts["api_calls"] += 1
            m.fit(X, L)
        except ValueError as e:
            if t.impl == "scaling" and "underflow" in str(e):
                ctx.count("scaling-refused")
                return
            # an empty start or emission row is refused
            return
    empty = [bool((a.sum(axis=1) == 0).any()) for a in snaps]
    got = of(log.rows, "zero sum")
    ended = sum(empty[:-1])         # the last one may or may not be judged
    ctx.check(ended <= len(got) <= sum(empty), "zero-row",
              f"{len(got)} warnings, iterations with empty rows: {empty}")
    ctx.count("zero-row-warned" if got else "zero-row-silent")
    ctx.cover("zero", fam, n, bool(got))
    ctx.detail.update(kind="zero-rows", empty=empty)
    ctx.feed(X, str(L), n)
    ctx.nontrivial = bool(got) or nc > 1


def gen_score(s, X, L):
    from lib import ref
    return float(ref.score(s, X, L))


def variational(ctx):
    rng, H = ctx.rng, ctx.H
    t = vb.make(ctx)
    # Data points against parameters: the count for variational Gaussians
    # includes the scalars of the posterior (beta and degrees of freedom).
    nc, nf = t.nc, t.nf
    lo = {"s": nc - 1, "t": nc * (nc - 1)}
    extra = 0
    if t.fam == "vcat":
        lo["e"] = nc * (nf - 1)
    else:
        tri = nf * (nf + 1) // 2
        lo["m"] = nc * nf
        lo["c"] = {"full": nc * tri, "tied": tri, "diag": nc * nf,
                   "spherical": nc}[t.ct]
        extra = (nc * ("m" in t.params)
                 + (1 if t.ct == "tied" else nc) * ("c" in t.params))
    k = sum(lo[p] for p in t.params)
    if rng.random() < .5:
        # about as many numbers as parameters
        cols = t.X.shape[1]
        n = int(np.clip(-(-(k + (extra if rng.random() < .5 else 0)) // cols)
                        + rng.integers(-1, 2), 1, len(t.X)))
        if t.fam == "vcat" or n >= 2 * nf + 2:
            t.X, t.lengths = t.X[:n], gen.partition(rng, n)
            ctx.count("vb-near")
    if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < t.nc:
        return
    m = vb.model(ctx, t, n_iter=1)
    with watch() as (log, err):
        vb.fit(ctx, m, t)
    ctx.check(not of(log.rows, "overwritten"), "overwrite",
              f"first fit: {log.rows}")
    # Now everything is set: fitting again overwrites what is requested.
    init = "".join(c for c in t.codes if rng.random() < .6)
    m.init_params = init
    with watch() as (log, err):
        vb.fit(ctx, m, t)
    got = of(log.rows, "overwritten")
    word = {"s": "startprob", "t": "transmat", "e": "emissionprob",
            "m": "(means|beta)", "c": "(dof|scale)"}
    for c in t.codes:
        hit = [g for g in got if re.search(word[c], g)]
        ctx.check(bool(hit) == (c in init), "overwrite",
                  f"init_params {init!r}, {c!r}: {hit}")
    ctx.count("vb-overwrite")
    ctx.cover("vb", t.fam, "".join(sorted(init)))
    ctx.detail.update(kind="vb", init=init)
    got = of(log.rows, "degenerate solution")
    if t.X.size < k:
        ctx.check(len(got) == 1, "degenerate", f"{t.X.size} data points, at "
                  f"least {k} parameters: {got}")
        ctx.count("degenerate-warned")
    elif t.X.size >= k + extra:
        ctx.check(not got, "degenerate", f"{t.X.size} data points, at most "
                  f"{k + extra} parameters: {got}")
        ctx.count("degenerate-silent")


def case(ctx):
    k = ctx.rng.random()
    (em if k < .6 else zero_rows if k < .8 else variational)(ctx)
