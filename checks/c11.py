"""C11: fit touches only the requested parameters, zeros stay zero."""
import numpy as np

from lib import common, gen, ref, train, vb

CASES = {"quick": 1600, "thorough": 20000}
RULE = ("random starting models (many with forbidden start states and "
        "transitions) x params / init_params subsets x priors x 1-3 repeated "
        "fits; every unlisted parameter compared bit for bit with its value "
        "before, every structural zero looked up afterwards; initialised "
        "parameters must not depend on what was set before; variational "
        "posteriors treated alike; non-trivial = more than one state")
REQUIRED = ["untouched:s", "untouched:t", "untouched:m", "untouched:c",
            "untouched:e", "untouched:l", "untouched:w", "zeros-start",
            "zeros-trans", "zeros-with-prior", "init-requested", "init-unset",
            "init-kept", "vb-untouched", "repeated-fit", "changed",
            "hyperparameters"]
ASSUMPTIONS = ["a parameter is 'set' when its public attribute was assigned"]


def raw(m, a):
    return np.array(getattr(m, a + "_"))


def same(x, y):
    return x.shape == y.shape and np.array_equal(x, y, equal_nan=True)


HYPER = ["n_components", "algorithm", "n_iter", "tol", "verbose", "params",
         "init_params", "implementation", "random_state", "covariance_type",
         "startprob_prior", "transmat_prior", "min_covar"]
NON_GMM = ["means_prior", "means_weight", "covars_prior", "covars_weight",
           "lambdas_prior", "lambdas_weight", "emissionprob_prior"]


def hyper(m, fam):
    p = m.get_params()
    return {k: p[k] for k in HYPER + ([] if fam.startswith("gmm") else NON_GMM)
            if k in p}


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def untouched(ctx):
    rng = ctx.rng
    t = train.make(ctx, zeros=rng.random() < .6)
    codes = gen.all_params(t.spec)
    if rng.random() < .15:
        t.params = ""
    ctx.cover("untouched", t.fam, "".join(sorted(t.params)), t.impl)
    m = train.model(ctx, t, n_iter=int(rng.choice([1, 2, 5])))
    names = {gen.CODES[a]: a for a in gen.attrs_of(t.spec)}
    before = {c: raw(m, names[c]) for c in codes}
    h0 = {k: (np.array(v) if isinstance(v, np.ndarray) else v)
          for k, v in hyper(m, t.fam).items()}
    zs = np.asarray(t.spec["startprob"]) == 0
    zt = np.asarray(t.spec["transmat"]) == 0
    for rep in range(int(rng.integers(1, 4))):
        try:
            ctx.counts["api_calls"] += 1
            m.fit(t.X, t.lengths)
            ok = True
        except ValueError:
            # a state without data; what it left behind is still judged
            occ = train.min_occupancy(t.spec, t.X, t.lengths)
            ctx.check(occ < 2 or t.T < 20 or rep > 0
                      or train.may_collapse(t.spec, t.X, t.lengths)
                      or bool(zs.any() or zt.any()),
                      "fit-refused", f"fit refused ordinary data "
                      f"(occupancy {occ})")
            ctx.count("fit-refused")
            ok = False
        for c in codes:
            now = raw(m, names[c])
            if c not in t.params:
                ctx.check(same(now, before[c]), "untouched",
                          f"{names[c]}_ changed although params="
                          f"{t.params!r} ({t.fam})", before=before[c],
                          after=now)
                ctx.count("untouched:" + c)
            elif ok and not same(now, before[c]):
                ctx.count("changed")
        s, A = raw(m, "startprob"), raw(m, "transmat")
        if np.isnan(s).any() or np.isnan(A).any():
            # only a state that lost all of its data can do this
            ctx.check(rep > 0 or m.n_iter > 1
                      or train.min_occupancy(t.spec, t.X, t.lengths) < .1,
                      "nan", "training produced NaN", startprob=s)
            ctx.count("collapsed")
            break
        ctx.check(np.all(s[zs] == 0), "zero-start",
                  "a forbidden start state became possible", startprob=s)
        ctx.check(np.all(A[zt] == 0), "zero-transition",
                  "a forbidden transition became possible", transmat=A)
        if zs.any() and "s" in t.params:
            ctx.count("zeros-start")
        if zt.any() and "t" in t.params:
            ctx.count("zeros-trans")
            if np.max(t.pri.get("transmat_prior", 0)) > 1:
                ctx.count("zeros-with-prior")
        h1 = hyper(m, t.fam)
        for k in h0:
            ctx.check(eq(h0[k], h1[k]), "hyperparameter",
                      f"fit changed the constructor parameter {k}: "
                      f"{h0[k]!r} -> {h1[k]!r}")
        ctx.count("hyperparameters")
        if rep:
            ctx.count("repeated-fit")
        if not ok:
            break


def initialising(ctx):
    """init_params decides what is initialised; the rest keeps its value."""
    rng = ctx.rng
    t = train.make(ctx, kind="default")
    t.impl = "log"            # the start need not suit the data
    codes = gen.all_params(t.spec)
    names = {gen.CODES[a]: a for a in gen.attrs_of(t.spec)}
    init = "".join(c for c in codes if rng.random() < .5)
    seed = int(rng.integers(1 << 20))
    ctx.detail.update(init_params=init, seed=seed)
    ctx.cover("init", t.fam, init)
    k = dict(nc=t.spec["nc"], nf=t.spec["nf"], mild=True)
    if t.spec["family"] == "gmm":
        k["nm"] = t.spec["nm"]
    other = gen.make_spec(rng, t.fam, **k)
    if "n_trials" in t.spec:
        other["n_trials"] = t.spec["n_trials"]
    # the two models agree on what is not initialised
    for c in codes:
        if c not in init:
            other[names[c]] = t.spec[names[c]]
    got = []
    for spec in (t.spec, other):
        m = train.model(ctx, t, spec=spec, containers=False, params="",
                        init_params=init, random_state=seed)
        before = {c: raw(m, names[c]) for c in codes}
        ctx.api("fit", m.fit, t.X, t.lengths)
        for c in codes:
            now = raw(m, names[c])
            if c not in init:
                ctx.check(same(now, before[c]), "init-kept",
                          f"{names[c]}_ changed although init_params="
                          f"{init!r} and params=''", before=before[c],
                          after=now)
                ctx.count("init-kept")
        got.append({c: raw(m, names[c]) for c in codes})
    for c in init:
        ctx.check(same(got[0][c], got[1][c]), "init-requested",
                  f"{names[c]}_ was in init_params={init!r} but the result "
                  f"depends on the value it had before", first=got[0][c],
                  second=got[1][c])
        ctx.count("init-requested")
    # parameters that were never set are initialised even when not requested
    unset = [c for c in codes if rng.random() < .5]
    m = gen.cls_of(ctx.H, t.spec)(**gen.ctor_args(t.spec),
                                  **common.fit_kw(t.spec), params="",
                                  init_params="", n_iter=1,
                                  random_state=seed)
    keep = [c for c in codes if c not in unset]
    gen.assign(m, t.spec, only=[names[c] for c in keep])
    if keep:
        before = {c: raw(m, names[c]) for c in keep}
    ctx.api("fit", m.fit, t.X, t.lengths)
    for c in keep:
        ctx.check(same(raw(m, names[c]), before[c]), "init-kept",
                  f"{names[c]}_ was set, not in init_params, yet changed")
    for c in unset:
        ctx.check(np.all(np.isfinite(raw(m, names[c]))), "init-unset",
                  f"{names[c]}_ was not initialised")
        ctx.count("init-unset")


def variational(ctx):
    rng = ctx.rng
    t = vb.make(ctx)
    if rng.random() < .2:
        t.params = ""
    ctx.cover("vb", t.fam, "".join(sorted(t.params)), t.impl)
    if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < t.nc:
        return
    base = vb.model(ctx, t, params="", init_params=t.codes)
    vb.fit(ctx, base, t)
    start = vb.read(base, t.fam)
    m = vb.model(ctx, t, n_iter=int(rng.choice([1, 3])))
    for rep in range(int(rng.integers(1, 3))):
        vb.fit(ctx, m, t)
        now = vb.read(m, t.fam)
        for c in t.codes:
            for a in vb.PRIOR[c]:
                ctx.check(same(now[a], start[a]), "vb-prior",
                          f"{a} changed during training")
            for a in vb.POST[c]:
                if c not in t.params:
                    ctx.check(same(now[a], start[a]), "vb-untouched",
                              f"{a} changed although params={t.params!r} "
                              f"({t.fam})", before=start[a], after=now[a])
                    ctx.count("vb-untouched")
                elif not same(now[a], start[a]):
                    ctx.count("changed")
        m.init_params = ""
        if rep:
            ctx.count("repeated-fit")


def case(ctx):
    k = ctx.rng.random()
    if k < .55:
        untouched(ctx)
    elif k < .8:
        initialising(ctx)
    else:
        variational(ctx)
