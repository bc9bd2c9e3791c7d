"""C10: one EM iteration computes the exact documented re-estimates."""
import numpy as np

from lib import common, gen, ref, train

CASES = {"quick": 1600, "thorough": 24000}
RULE = ("random starting models x data x partitions (length-1 sequences "
        "included) x params subsets x priors (scalars and arrays, below and "
        "above one) x implementations x layouts; one to three successive "
        "single-iteration fits of one object, each compared parameter by "
        "parameter with the closed-form re-estimate from extended-precision "
        "expected counts and moments under the parameters read back before "
        "it; non-trivial = more than one state")
REQUIRED = ["kind:flat", "kind:default", "kind:random", "param:startprob",
            "param:transmat", "param:emissionprob", "param:lambdas",
            "param:means", "param:covars", "param:weights", "zeros",
            "impl:log", "impl:scaling", "subset", "second-iteration",
            "count-floor", "long"]
ASSUMPTIONS = ["a Dirichlet count driven below zero by a prior below one is "
               "taken as zero (the constrained maximum)",
               "mixture covariances use the scatter about the means in force "
               "during the E-step, as the shipped algorithm documents",
               "GaussianHMM: scalar means_weight"]


def scale_of(t, spec):
    s = float(np.abs(t.X).max())
    for a in ("means", "lambdas"):
        if a in spec:
            s = max(s, float(np.abs(spec[a]).max()))
    p = t.pri.get("means_prior")
    if p is not None:
        s = max(s, float(np.abs(p).max()))
    return s


def tolerance(a, t, spec, want, mag):
    rel = 1e-9 + 1e-12 * mag
    w = np.abs(np.asarray(want, float))
    sc = scale_of(t, spec)
    if a == "covars":
        # sums of squares are formed before the means are subtracted
        return rel * (w + 1e-2 * sc ** 2) + 1e-12 * sc ** 2
    if a in ("means", "lambdas"):
        return rel * (w + sc)
    return rel * (w + 1e-3) + 1e-14


def storage_types(ctx):
    """The type the data is stored in does not matter, up to its limits."""
    r = np.random.RandomState(0)
    H = ctx.H
    px = np.r_[r.randint(0, 70, (50, 2)), r.randint(180, 256, (50, 2))]
    px[0] = 0
    px[1] = 255
    sy = r.randint(0, 256, (600, 1))
    sy[0] = 255
    jobs = [(lambda: H.hmm.PoissonHMM(2, random_state=0), px),
            (lambda: H.hmm.CategoricalHMM(2, random_state=0), sy),
            (lambda: H.hmm.MultinomialHMM(2, n_trials=255, random_state=0),
             r.multinomial(255, [.02, .96, .02], 60)),
            (lambda: H.vhmm.VariationalCategoricalHMM(2, random_state=0), sy)]
    for ct in gen.CTS:
        jobs += [(lambda ct=ct: H.hmm.GaussianHMM(2, ct, random_state=0), px),
                 (lambda ct=ct: H.hmm.GMMHMM(
                     2, 2, covariance_type=ct, random_state=0), px),
                 (lambda ct=ct: H.vhmm.VariationalGaussianHMM(
                     2, ct, random_state=0), px)]
    for mk, X in jobs:
        want = None
        for off, dts in ((0, ["int64", "int32", "int16", "uint8", "uint16"]),
                         (-128, ["int64", "int8"])):
            name = type(mk()).__name__
            if off:
                if "Gauss" in name or "GMM" in name:
                    X = X - 128
                elif "Cat" in name:
                    X = X // 2
                else:
                    continue
            want = None
            for dt in dts:
                m = mk()
                ctx.api(f"fit of {dt} data", m.fit, X.astype(dt))
                got = np.array([ctx.api("score", m.score, X.astype(dt)),
                                *np.ravel(m.transmat_)])
                if want is None:
                    want = got
                ctx.close(got, want, "storage-type",
                          1e-6 * (1 + abs(want[0])),
                          f"{name}: fit of the same data stored as {dt}")
    ctx.count("storage-type")
    ctx.nontrivial = True


def long(ctx):
    """Thousands of samples."""
    case(ctx, int(ctx.rng.choice([5000, 20000, 40000])))
    ctx.count("long")


DIRECTED = [storage_types] + [long] * 8


def case(ctx, T=None):
    rng = ctx.rng
    zeros = rng.random() < .25
    t = train.make(ctx, zeros=zeros, T=T, wide=rng.random() < .1)
    if rng.random() < .1:
        t.lengths = [1] * t.T if rng.random() < .5 else None
    ctx.count("kind:" + t.kind)
    ctx.count("impl:" + t.impl)
    if zeros:
        ctx.count("zeros")
    if set(t.params) != set(gen.all_params(t.spec)):
        ctx.count("subset")
    ctx.cover(t.fam, t.kind, "".join(sorted(t.params)), t.impl)
    if train.collapsed_cov(t.spec, t.X):
        ctx.nontrivial = False
        return
    m = train.model(ctx, t)
    cur = t.spec
    Xc = gen.x_container(rng, t.X)
    Lc = gen.len_container(rng, t.lengths)
    for it in range(int(rng.choice([1, 1, 2, 3]))):
        o = common.oracle(cur, t.X, t.lengths)
        with np.errstate(all="ignore"):
            ll, new, aux = ref.em_step(cur, t.X, t.lengths, t.params, t.pri)
        if not aux["min_pm"] > 1e-4:
            ctx.count("state-without-data")       # nothing to estimate from
            break
        if not np.isfinite(float(ll)) or not all(
                np.all(np.isfinite(np.asarray(new[a], float)))
                for a in gen.attrs_of(new)):
            ctx.count("undefined-update")
            break
        ctx.api("fit", m.fit, Xc, Lc)
        mag = o[3]
        h = list(m.monitor_.history)
        ctx.check(len(h) == 1, "one-iteration", f"history {h}")
        ctx.close(h[0], ll, "objective", 1e-9 + 1e-12 * mag + 1e-12 * t.T,
                  "recorded objective of the iteration")
        got = gen.read(m, cur)
        for a in gen.attrs_of(cur):
            if gen.CODES[a] not in t.params:
                continue
            ctx.close(got[a], np.asarray(new[a]), "update:" + a,
                      tolerance(a, t, cur, new[a], mag),
                      f"{a}_ after iteration {it + 1} ({t.fam}, params "
                      f"{t.params!r}, {t.kind} priors, {t.impl})")
            ctx.count("param:" + a)
            if a in ("startprob", "transmat", "emissionprob") and np.any(
                    (np.asarray(new[a]) == 0) & (np.asarray(cur[a]) > 0)):
                ctx.count("count-floor")
        if it:
            ctx.count("second-iteration")
        cur = got
        if not np.allclose(cur["transmat"].sum(axis=1), 1) \
                or train.degenerate(cur, t.X, t.lengths):
            break
