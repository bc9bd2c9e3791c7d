"""C09: EM training never decreases its objective."""
import numpy as np

from lib import common, gen, ref, train

CASES = {"quick": 1800, "thorough": 24000}
RULE = ("random starting points (hand-set or initialised from data) x data "
        "from other models x partitions x params subsets x priors x "
        "implementations; the objective (log-likelihood, plus log prior where "
        "there is one) recorded after every iteration must not decrease; runs "
        "stop where a component collapses; non-trivial = more than one state "
        "and at least two recorded iterations")
REQUIRED = ["iteration-pairs", "kind:flat", "kind:default", "kind:random",
            "subset-of-params", "init:data", "init:set", "gained",
            "long-history"]
ASSUMPTIONS = ["rounding slack 1e-7 (1 + |objective|)",
               "mixture models: flat means and covariance priors only (their "
               "update with mean priors is not an exact maximiser)",
               "iterations after a component lost its data are not judged"]


def slack(J):
    return 1e-7 * (1 + abs(J))


def steps(ctx):
    """Repeated single iterations, objective evaluated outside the model."""
    rng = ctx.rng
    t = train.make(ctx, convex=True, zeros=rng.random() < .25)
    ctx.count("kind:" + t.kind)
    if set(t.params) != set(gen.all_params(t.spec)):
        ctx.count("subset-of-params")
    ctx.cover(t.fam, t.kind, "".join(sorted(t.params)), t.impl)
    data_init = rng.random() < .3
    ctx.count("init:" + ("data" if data_init else "set"))
    m = train.model(ctx, t)
    if data_init:
        m.init_params = gen.all_params(t.spec)
        m.random_state = int(rng.integers(1 << 20))
    prev = last = None
    if not data_init:
        if train.degenerate(t.spec, t.X, t.lengths):
            ctx.count("collapsed-start")
            ctx.nontrivial = False
            return
        prev = train.objective(t.spec, ref.score(t.spec, t.X, t.lengths),
                               t.pri, t.kind)
        last = t.spec
    n = int(rng.choice([2, 4, 8]))
    pairs = 0
    for it in range(n):
        ctx.api("fit", m.fit, t.X, t.lengths)
        m.init_params = ""
        cur = gen.read(m, t.spec)
        if not np.allclose(cur["transmat"].sum(axis=1), 1) or (
                train.collapsed_cov(cur, t.X)
                and (last is None or train.may_collapse(last, t.X,
                                                        t.lengths))):
            ctx.count("collapsed")
            break
        last = cur
        with np.errstate(all="ignore"):
            ll = float(ref.score(cur, t.X, t.lengths))
        J = train.objective(cur, ll, t.pri, t.kind)
        if prev is not None:
            ctx.check(J is not None and J >= prev - slack(prev), "monotone",
                      f"iteration {it + 1}: objective went from {prev!r} to "
                      f"{J!r} ({t.fam}, params {t.params!r}, {t.kind} priors)",
                      iteration=it + 1, params_now={
                          a: cur[a] for a in gen.attrs_of(cur)})
            ctx.count("iteration-pairs")
            pairs += 1
            if J > prev + slack(prev):
                ctx.count("gained")
        prev = J
        if train.degenerate(cur, t.X, t.lengths):
            ctx.count("collapsed")
            break
    ctx.nontrivial = ctx.nontrivial and pairs >= 1


def history(ctx):
    """One long fit: the recorded history itself."""
    rng = ctx.rng
    t = train.make(ctx, kind="flat", convex=True, T=int(
        rng.choice([60, 200, 500])))
    if t.fam.startswith("gauss"):
        t.pri = {"covars_prior": 0., "covars_weight": 0.}
    ctx.count("kind:flat")
    n = int(rng.choice([10, 30]))
    data_init = rng.random() < .5
    ctx.count("init:" + ("data" if data_init else "set"))
    m = train.model(ctx, t, n_iter=n)
    if data_init:
        m.init_params = gen.all_params(t.spec)
        m.random_state = int(rng.integers(1 << 20))
    ctx.cover("history", t.fam, t.impl, "".join(sorted(t.params)))
    ctx.counts["api_calls"] += 1
    try:
        m.fit(t.X, t.lengths)
    except ValueError as e:
        # a collapsed component may make the next density undefined
        ctx.count("fit-refused")
        h = list(m.monitor_.history)
        last = None
    else:
        h = list(m.monitor_.history)
        last = gen.read(m, t.spec)
    if not data_init and train.degenerate(t.spec, t.X, t.lengths):
        ctx.count("collapsed-start")
        ctx.nontrivial = False
        return
    ok = last is not None and all(np.all(np.isfinite(last[a]))
                                  for a in gen.attrs_of(last))
    if ok and np.allclose(last["transmat"].sum(axis=1), 1) \
            and not train.degenerate(last, t.X, t.lengths):
        h = np.array(h, float)
        d = np.diff(h)
        ctx.check(np.all(np.isfinite(h)), "history-finite", f"{h}")
        ctx.check(np.all(d >= -1e-7 * (1 + np.abs(h[1:]))), "monotone",
                  f"history decreased by {-d.min()!r} at iteration "
                  f"{int(np.argmin(d)) + 1} of {len(h)} ({t.fam}, params "
                  f"{t.params!r})", history=h)
        fin = float(ctx.api("score", m.score, t.X, t.lengths))
        ctx.check(fin >= h[-1] - slack(h[-1]), "monotone",
                  f"final score {fin!r} below last recorded {h[-1]!r}")
        ctx.count("iteration-pairs", len(h))
        ctx.count("long-history")
    else:
        ctx.count("collapsed")
        ctx.nontrivial = False


def case(ctx):
    if ctx.rng.random() < .6:
        steps(ctx)
    else:
        history(ctx)
