"""C01: score = log of the sum over all state paths."""
import numpy as np

from lib import common, gen, ref

CASES = {"quick": 2600, "thorough": 40000}
LEVEL = "exploration"
RULE = ("random models of all 11 emission families (incl. a custom table "
        "model reaching arbitrary lattices) x data x sequence partitions x "
        "array layouts x object histories x both implementations; non-trivial "
        "= more than one hidden state")
REQUIRED = ["enumerated", "dp", "impl:log", "impl:scaling", "impossible",
            "size:huge", "size:crowd", "monitor:score-log", "monitor:score-scaling"]
ASSUMPTIONS = [
    "the oracle sums over enumerated paths when nc**T <= 4096 and otherwise "
    "runs a log-domain forward recursion in 80-bit arithmetic (cross-checked "
    "against enumeration in the same run)",
    "'scaling' is judged where the recursion's dynamic range is well inside "
    "double precision; outside it C05 decides"]


def case(ctx):
    c = common.inference_case(ctx)
    judge(ctx, c)


def grand(size):
    """Long sequences or many states."""
    def run(ctx):
        judge(ctx, common.inference_case(ctx, sizes=[size]))
    run.__name__ = size
    return run


DIRECTED = [grand(s) for s in ("huge", "crowd") for _ in range(8)]


def judge(ctx, c):
    lls = c.lls
    if c.spec["nc"] ** max(len(s) for s in c.seqs) <= 4096:
        ctx.count("enumerated")
        en = np.array([ref.lse(ref.enum_logprobs(c.lpi, c.lA, s)[1])
                       for s in c.seqs], dtype=np.longdouble)
        with np.errstate(invalid="ignore"):
            assert np.all((np.abs(en - lls) < 1e-10 * (1 + c.mag))
                          | (en == lls)), "oracles disagree"
        lls = en
    else:
        ctx.count("dp")
    want = lls.sum()
    ctx.detail["want"] = float(want)
    m = common.models(ctx, c)
    got = ctx.api("score", m.score, c.Xc, c.Lc)
    ctx.count("impl:log")
    ctx.close(got, want, "score-log", c.tol, "score() with implementation=log")
    got2 = ctx.api("score_samples", m.score_samples, c.Xc, c.Lc)[0]
    ctx.close(got2, want, "score_samples-log", c.tol, "score_samples()[0]")
    if not c.possible:
        ctx.count("impossible")
        return
    r, _ = common.dyn(c)
    if r < common.SAFE:
        ctx.count("impl:scaling")
        m = common.models(ctx, c, "scaling")
        got = ctx.api("score(scaling)", m.score, c.Xc, c.Lc)
        ctx.close(got, want, "score-scaling", c.tol,
                  "score() with implementation=scaling")
        got = ctx.api("score_samples(scaling)", m.score_samples,
                      c.Xc, c.Lc)[0]
        ctx.close(got, want, "score_samples-scaling", c.tol,
                  "score_samples()[0] with implementation=scaling")
