"""C03: Viterbi path is optimal and its value exact."""
import numpy as np

from lib import common, gen, ref

CASES = {"quick": 2600, "thorough": 40000}
RULE = ("random models of all families incl. exact ties, zero probabilities "
        "and impossible data x partitions x layouts x object histories; the "
        "returned path is re-scored with 80-bit arithmetic and compared with "
        "the optimum over all paths; non-trivial = more than one state")
REQUIRED = ["enumerated", "possible", "impossible", "not-pointwise",
            "multi-sequence", "size:huge", "size:crowd"]
ASSUMPTIONS = ["any path within rounding of the optimum is accepted (ties)"]


def grand(size):
    """Long sequences or many states."""
    def run(ctx):
        case(ctx, [size])
    run.__name__ = size
    return run


DIRECTED = [grand(s) for s in ("huge", "crowd") for _ in range(8)]


def case(ctx, sizes=None):
    c = common.inference_case(ctx, sizes=sizes)
    impl = str(ctx.rng.choice(["log", "scaling"]))
    m = common.models(ctx, c, impl)
    how = ctx.rng.integers(3)
    if how == 0:
        val, path = ctx.api("decode", m.decode, c.Xc, c.Lc)
    elif how == 1:
        m.algorithm = str(ctx.rng.choice(["map", "viterbi"]))
        val, path = ctx.api("decode", m.decode, c.Xc, c.Lc,
                            algorithm="viterbi")
        m.algorithm = "viterbi"
    else:
        path = ctx.api("predict", m.predict, c.Xc, c.Lc)
        val, path2 = ctx.api("decode", m.decode, c.Xc, c.Lc)
        ctx.check(np.array_equal(path, path2), "predict-is-decode",
                  "predict differs from decode", predict=path, decode=path2)
    path = np.asarray(path)
    ctx.check(path.shape == (c.T,), "path-shape", f"shape {path.shape}")
    ctx.check(path.dtype.kind in "iu", "path-dtype", f"dtype {path.dtype}")
    ctx.check(((path >= 0) & (path < c.spec["nc"])).all(), "path-range",
              f"states out of range: {path}")
    if len(c.seqs) > 1:
        ctx.count("multi-sequence")
    best = np.longdouble(0)
    i = 0
    for s in c.seqs:
        if c.spec["nc"] ** len(s) <= 1100:
            ctx.count("enumerated")
            b = np.max(ref.enum_logprobs(c.lpi, c.lA, s)[1])
        else:
            ctx.count("dp")
            b = ref.viterbi_value(c.lpi, c.lA, s)
        p = path[i:i + len(s)]
        i += len(s)
        with np.errstate(invalid="ignore"):
            v = ref.path_logprob(c.lpi, c.lA, s, p)
        best = best + b
        if np.isfinite(b):
            ctx.count("possible")
            ctx.close(v, b, "path-optimal", c.tol,
                      "joint log probability of the returned path vs optimum",
                      path=p)
            if not np.array_equal(p, np.argmax(s, axis=1)):
                ctx.count("not-pointwise")
        else:
            ctx.count("impossible")
    ctx.close(val, best, "value-exact", c.tol, "decode()[0]")
