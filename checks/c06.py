"""C06: sequences are independent; lengths partitions the data."""
import numpy as np

from lib import common, gen, ref

CASES = {"quick": 2400, "thorough": 36000}
RULE = ("random models x possible data x partitions; results of a batch "
        "compared with the results of the same object on each sequence alone "
        "and on permuted batches, on fits of permuted batches, and on invalid "
        "lengths; non-trivial = at least two sequences and more than one state")
REQUIRED = ["batch-vs-single", "permuted", "fit-permuted", "omitted-lengths",
            "bad-lengths-rejected", "vb-fit-permuted",
            "narrow-lengths"]
ASSUMPTIONS = ["fits are compared for one and three iterations without "
               "initialisation from data (k-means depends on sample order)"]


def starts(lengths):
    return np.concatenate([[0], np.cumsum(lengths)])


def same(ctx, a, b, kind, tol, what):
    ctx.close(np.asarray(a, float), np.asarray(b, float), kind, tol, what)


def permute(X, lengths, order):
    s = starts(lengths)
    return (np.concatenate([X[s[i]:s[i + 1]] for i in order]),
            [lengths[i] for i in order])


def equiv(c, seqs, za, zb, alg, tol):
    """Same states, up to exact ties of the criterion being maximised."""
    za, zb = np.asarray(za), np.asarray(zb)
    if za.shape != zb.shape:
        return False
    if np.array_equal(za, zb):
        return True
    i = 0
    for q in seqs:
        a, b = za[i:i + len(q)], zb[i:i + len(q)]
        i += len(q)
        if np.array_equal(a, b):
            continue
        if alg == "map":
            G = ref.estep(c.lpi, c.lA, q)[1]
            t = np.arange(len(q))
            if np.abs(G[t, a] - G[t, b]).max() > tol:
                return False
        elif not abs(ref.path_logprob(c.lpi, c.lA, q, a)
                     - ref.path_logprob(c.lpi, c.lA, q, b)) <= tol:
            return False
    return True


def bad_lengths(rng, lengths, n):
    L = [int(x) for x in (lengths or [n])]
    k = rng.integers(9)
    if k == 0:
        L[-1] += int(rng.integers(1, 4))
    elif k == 1:
        L[int(rng.integers(len(L)))] += 1
    elif k == 2:
        L = L + [1]
    elif k == 3:
        L = L[:-1]
    elif k == 4:
        L.insert(int(rng.integers(len(L) + 1)), 0)
    elif k == 5:
        L = [L[0] + 2, -2] + L[1:]
    elif k == 6:
        L = L[:-1] + [L[-1] + 1, -1]
    elif k == 7:
        L = [n - 1] if n > 1 else [2]
    else:
        L = [2 * n]
    return L


def case(ctx):
    rng = ctx.rng
    if rng.random() < .12:
        return vb_case(ctx)
    c = common.inference_case(ctx, possible=True)
    if c.lengths is None or len(c.lengths) < 2:
        if c.T > 1 and rng.random() < .85:
            k = int(rng.integers(1, c.T))
            c.lengths = [k, c.T - k]
            X = gen.sample(rng, c.spec, c.T, c.lengths)
            c.X = X
            c.Xc = gen.x_container(rng, X)
            c.Lc = gen.len_container(rng, c.lengths)
            c.lpi, c.lA, c.seqs, c.mag = common.oracle(c.spec, X, c.lengths)
            lls = [ref.lse(ref.forward(c.lpi, c.lA, s)[-1]) for s in c.seqs]
            if not np.all(np.isfinite(np.array(lls, float))):
                from lib.runner import Skip
                raise Skip("data impossible under the model")
            c.tol = 1e-9 + 1e-12 * c.mag + 1e-12 * c.T
            ctx.detail.update(lengths=c.lengths, X=X)
    impl = "log"
    if rng.random() < .5 and common.dyn(c)[0] < common.SAFE:
        impl = "scaling"
    m = common.models(ctx, c, impl)
    L = c.lengths or [c.T]
    s = starts(L)
    ctx.nontrivial = len(L) > 1 and c.spec["nc"] > 1
    ctx.cover("nseq", min(len(L), 6), "ones" if max(L) == 1 else "mixed")
    tol = c.tol + 1e-10
    alg = str(rng.choice(["viterbi", "map"]))
    sc = ctx.api("score", m.score, c.Xc, c.Lc)
    sc2, P = ctx.api("score_samples", m.score_samples, c.Xc, c.Lc)
    Z = np.asarray(ctx.api("predict", m.predict, c.Xc, c.Lc))
    dl, Zd = ctx.api("decode", m.decode, c.Xc, c.Lc, alg)
    P, Zd = np.asarray(P), np.asarray(Zd)
    same(ctx, sc2, sc, "score_samples-score", tol, "two scores of one batch")
    tot, dtot, Ps, Zs, Zds = 0., 0., [], [], []
    for i in range(len(L)):
        Xi = c.X[s[i]:s[i + 1]]
        if rng.random() < .5:
            Xi = gen.container(rng, Xi)
        one = None if rng.random() < .5 else [L[i]]
        tot += ctx.api("score", m.score, Xi, one)
        Ps.append(ctx.api("predict_proba", m.predict_proba, Xi, one))
        Zs.append(ctx.api("predict", m.predict, Xi, one))
        v, z = ctx.api("decode", m.decode, Xi, one, alg)
        dtot += v
        Zds.append(z)
    ctx.count("batch-vs-single")
    same(ctx, sc, tot, "score-additive", tol, "score of batch vs sum")
    same(ctx, P, np.concatenate(Ps), "posteriors-concatenate", tol,
         "posteriors of batch vs concatenation")
    ctx.check(equiv(c, c.seqs, Z, np.concatenate(Zs), "viterbi", tol),
              "states-concatenate",
              "predict of batch differs from concatenation",
              batch=Z, single=np.concatenate(Zs))
    ctx.check(equiv(c, c.seqs, Zd, np.concatenate(Zds), alg, tol),
              "states-concatenate",
              f"decode({alg}) of batch differs from concatenation")
    same(ctx, dl, dtot, "decode-additive", tol, f"decode({alg}) log prob")

    if len(L) == 1:
        other = [c.T] if c.Lc is None else None
        same(ctx, ctx.api("score", m.score, c.Xc, other), sc,
             "omitted-lengths", tol, "score with and without lengths")
        same(ctx, ctx.api("predict_proba", m.predict_proba, c.Xc, other), P,
             "omitted-lengths", tol, "posteriors with and without lengths")
        ctx.count("omitted-lengths")
    if len(L) > 1:
        order = [int(i) for i in rng.permutation(len(L))]
        Xp, Lp = permute(c.X, L, order)
        same(ctx, ctx.api("score", m.score, Xp, Lp), sc, "score-permuted", tol,
             "score of permuted batch")
        idx = np.concatenate([np.arange(s[i], s[i + 1]) for i in order])
        same(ctx, ctx.api("predict_proba", m.predict_proba, Xp, Lp), P[idx],
             "posteriors-permuted", tol, "posteriors of permuted batch")
        ctx.check(equiv(c, [c.seqs[i] for i in order],
                        ctx.api("predict", m.predict, Xp, Lp), Z[idx],
                        "viterbi", tol), "states-permuted",
                  "states of permuted batch")
        ctx.count("permuted")
        if rng.random() < .6:
            fit_case(ctx, c, L, order, impl)
    if rng.random() < .3:
        bad = bad_lengths(rng, c.lengths, c.T)
        if rng.random() < .5:
            bad = np.array(bad, dtype=int)
        ctx.detail["bad_lengths"] = bad
        for name in ("score", "score_samples", "predict", "predict_proba",
                     "decode", "fit"):
            mm = m
            if name == "fit":
                if c.fam == "table":
                    continue
                mm = gen.build(ctx.H, c.spec, None, implementation=impl,
                               n_iter=1, init_params="",
                               **common.fit_kw(c.spec))
            e = ctx.raises(name, getattr(mm, name), c.X, bad)
            ctx.check(e is not None, "bad-lengths-accepted",
                      f"{name} accepted lengths {bad} for {c.T} samples")
        ctx.count("bad-lengths-rejected")


def fit_case(ctx, c, L, order, impl):
    """EM from explicit parameters does not depend on the sequence order."""
    rng = ctx.rng
    spec = c.spec
    if c.fam.startswith("g"):
        # Gaussian M-steps divide by state occupancies; keep them comfortable.
        G = np.concatenate([np.asarray(ref.estep(c.lpi, c.lA, q)[1], float)
                            for q in c.seqs])
        if G.sum(axis=0).min() < 1e-3 or spec["family"] == "gmm":
            return
    if c.fam == "poisson" or c.fam == "multi":
        G = np.concatenate([np.asarray(ref.estep(c.lpi, c.lA, q)[1], float)
                            for q in c.seqs])
        if G.sum(axis=0).min() < 1e-3:
            return
    Xp, Lp = permute(c.X, L, order)
    kw = dict(implementation=impl, n_iter=1, tol=-np.inf, init_params="",
              **common.fit_kw(spec))
    a = gen.build(ctx.H, spec, None, table_mode=c.mode, **kw)
    b = gen.build(ctx.H, spec, None, table_mode=c.mode, **kw)
    ctx.api("fit", a.fit, c.X, gen.len_container(rng, L))
    ctx.api("fit (permuted)", b.fit, Xp, gen.len_container(rng, Lp))
    ctx.count("fit-permuted")
    tol = 1e-6
    for at in gen.attrs_of(spec):
        if at == "table":
            continue
        va, vb = np.asarray(getattr(a, at + "_")), np.asarray(
            getattr(b, at + "_"))
        if at == "transmat":
            cnt = np.zeros(spec["nc"])
            for q in c.seqs:
                if len(q) > 1:
                    cnt += np.asarray(ref.estep(c.lpi, c.lA, q)[2].sum(axis=1),
                                      float)
            r = cnt > 1e-3
            va, vb = va[r], vb[r]
        sc = np.abs(vb).max() if vb.size else 1
        if at == "covars":
            sc = max(sc, float((np.asarray(c.X, float) ** 2).max()))
        same(ctx, va, vb, "fit-order", tol * max(sc, 1e-12),
             f"{at}_ after one iteration on permuted sequences")
    same(ctx, a.monitor_.history[0], b.monitor_.history[0], "fit-order-ll",
         c.tol + 1e-9, "recorded objective")


def vb_case(ctx):
    """Variational fit: order of sequences is irrelevant."""
    rng, H = ctx.rng, ctx.H
    nc, nf = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    lengths = [int(v) for v in rng.integers(1, 9, size=rng.integers(2, 7))]
    X = rng.integers(0, nf, size=(sum(lengths), 1))
    order = [int(i) for i in rng.permutation(len(lengths))]
    Xp, Lp = permute(X, lengths, order)
    pri = [rng.gamma(2., .5, size=s) + .05 for s in
           [(nc,), (nc, nc), (nc, nf)]]
    post = [p + rng.gamma(2., 2., size=p.shape) for p in pri]
    impl = str(rng.choice(["log", "scaling"]))
    out = []
    for XX, LL in ((X, lengths), (Xp, Lp)):
        m = H.vhmm.VariationalCategoricalHMM(
            nc, n_features=nf, init_params="", n_iter=3, tol=-np.inf,
            implementation=impl)
        for nm, p, q in zip(["startprob", "transmat", "emissionprob"], pri,
                            post):
            setattr(m, nm + "_prior_", p.copy())
            setattr(m, nm + "_posterior_", q.copy())
        ctx.api("fit", m.fit, XX, LL)
        out.append(m)
    a, b = out
    ctx.detail.update(family="vb-cat", lengths=lengths, order=order, X=X)
    ctx.feed("vb", X, str(lengths), str(order))
    ctx.nontrivial = nc > 1
    for nm in ["startprob", "transmat", "emissionprob"]:
        same(ctx, getattr(a, nm + "_posterior_"),
             getattr(b, nm + "_posterior_"), "vb-fit-order",
             1e-8 * (1 + sum(lengths)), nm + "_posterior_")
    same(ctx, list(a.monitor_.history), list(b.monitor_.history),
         "vb-fit-order", 1e-8 * (1 + sum(lengths)), "lower bounds")
    ctx.count("vb-fit-permuted")
    same(ctx, a.score(X, lengths), a.score(Xp, Lp), "score-permuted", 1e-8,
         "score of permuted batch")


def narrow(dtype):
    """Valid lengths in a type too narrow for their sum."""
    def run(ctx):
        rng = ctx.rng
        fam = str(rng.choice(["cat", "poisson", "gauss:diag"]))
        spec = gen.make_spec(rng, fam, nc=3, mild=True)
        mx = np.iinfo(dtype).max
        L = [int(n) for n in rng.integers(
            mx // 2, mx, size=5 if mx < 999 else 3, endpoint=True)]
        T = sum(L)
        X = gen.hostile_X(rng, spec, T)
        typed = np.array(L, dtype=dtype)
        impl = str(rng.choice(["log", "scaling"]))
        m = gen.build(ctx.H, spec, None, implementation="log")
        ctx.feed(fam, str(L), X)
        ctx.nontrivial = True
        ctx.detail.update(family=fam, dtype=dtype, lengths=L)
        s = starts(L)
        tot, Ps, Zs = 0., [], []
        for i in range(len(L)):
            Xi = X[s[i]:s[i + 1]]
            tot += ctx.api("score", m.score, Xi)
            Ps.append(ctx.api("predict_proba", m.predict_proba, Xi))
            Zs.append(ctx.api("predict", m.predict, Xi))
        for what, q in (("list", L), (dtype, typed)):
            tol = 1e-9 * abs(tot)
            same(ctx, ctx.api("score", m.score, X, q), tot, "score-additive",
                 tol, f"{what} lengths: score of batch vs sum")
            same(ctx, ctx.api("predict_proba", m.predict_proba, X, q),
                 np.concatenate(Ps), "posteriors-concatenate", 1e-9,
                 f"{what} lengths: posteriors of batch vs concatenation")
            same(ctx, ctx.api("predict", m.predict, X, q),
                 np.concatenate(Zs), "states-concatenate", 0,
                 f"{what} lengths: states of batch vs concatenation")
        a, b = (gen.build(ctx.H, spec, None, implementation=impl, n_iter=1,
                          tol=-np.inf, init_params="", **common.fit_kw(spec))
                for _ in range(2))
        try:
            a.fit(X, L)
        except ValueError as e:
            if "underflow" not in str(e):
                raise
        else:
            ctx.api("fit", b.fit, X, typed)
            for at in gen.attrs_of(spec):
                same(ctx, getattr(a, at + "_"), getattr(b, at + "_"),
                     "fit-narrow", 0, f"{at}_ with {dtype} lengths")
        ctx.count("narrow-lengths")
    run.__name__ = "narrow_" + dtype
    return run


DIRECTED = [narrow(d) for d in ("int8", "uint8", "int16", "uint16", "int8",
                                "uint8")]
