"""C02: posteriors are the exact smoothing marginals."""
import numpy as np

from lib import common, gen, ref

CASES = {"quick": 2400, "thorough": 40000}
RULE = ("random models of all families x possible data x partitions x layouts "
        "x object histories x both implementations; posteriors compared "
        "entrywise with enumeration or 80-bit smoothing; non-trivial = more "
        "than one state")
REQUIRED = ["enumerated", "dp", "impl:log", "impl:scaling", "state-changes", "size:huge",
            "size:crowd"]
ASSUMPTIONS = ["posteriors are undefined for impossible data (not judged)",
               "'scaling' judged inside its dynamic range; C05 covers the rest"]


def gammas(c, ctx):
    out = []
    for s in c.seqs:
        if c.spec["nc"] ** len(s) <= 1100:
            ctx.count("enumerated")
            out.append(ref.enum_inference(c.lpi, c.lA, s)[1])
        else:
            ctx.count("dp")
            a, b = ref.forward(c.lpi, c.lA, s), ref.backward(c.lA, s)
            with np.errstate(under="ignore"):
                out.append(np.exp(a + b - ref.lse(a[-1])))
    return np.concatenate(out)


def judge_impl(ctx, c, G, impl):
    tag = f"posteriors-{impl}"
    m = common.models(ctx, c, impl)
    ctx.count("impl:" + impl)
    order = ctx.rng.integers(3)
    if order:
        P = ctx.api("predict_proba", m.predict_proba, c.Xc, c.Lc)
        ctx.close(P, G, tag, c.tol + 1e-9, f"predict_proba ({impl})")
        ctx.check(np.all(np.abs(P.sum(axis=1) - 1) < 1e-9), "rows-sum-to-one",
                  "posterior rows do not sum to one")
        ctx.check(np.all(P >= 0), "non-negative", "negative posterior")
    if order != 1:
        ll, P = ctx.api("score_samples", m.score_samples, c.Xc, c.Lc)
        ctx.close(P, G, tag, c.tol + 1e-9, f"score_samples()[1] ({impl})")
        ctx.close(ll, c.lls.sum(), "score-with-posteriors", c.tol,
                  f"score_samples()[0] ({impl})")


def grand(size):
    """Long sequences or many states."""
    def run(ctx):
        case(ctx, [size])
    run.__name__ = size
    return run


DIRECTED = [grand(s) for s in ("huge", "crowd") for _ in range(8)]


def case(ctx, sizes=None):
    c = common.inference_case(ctx, possible=True, sizes=sizes)
    G = gammas(c, ctx)
    if len(set(np.argmax(G, axis=1))) > 1:
        ctx.count("state-changes")
    judge_impl(ctx, c, G, "log")
    if common.dyn(c)[0] < common.SAFE:
        judge_impl(ctx, c, G, "scaling")
