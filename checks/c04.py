"""C04: MAP decoding and decoder dispatch."""
import numpy as np

from lib import common, gen, ref
from checks.c02 import gammas

CASES = {"quick": 2600, "thorough": 40000}
RULE = ("random models x possible data x partitions x every way of choosing "
        "the decoder (constructor, attribute, set_params, call argument); "
        "labels judged against oracle posteriors (map) or the exact optimum "
        "(viterbi); non-trivial = the two decoders must differ on this input")
REQUIRED = ["expect:map", "expect:viterbi", "distinguishing", "arg-overrides",
            "unknown-rejected", "size:huge", "size:crowd"]
ASSUMPTIONS = ["ties are accepted within 1e-9",
               "the score that MAP decoding returns is not judged (its "
               "documentation and its code disagree, see DESIGN.md)"]


def is_map(G, path, tol):
    top = G.max(axis=1)
    return bool(np.all(G[np.arange(len(path)), path] >= top - tol))


def is_viterbi(c, path):
    i = 0
    for s in c.seqs:
        v = ref.path_logprob(c.lpi, c.lA, s, path[i:i + len(s)])
        if not v >= ref.viterbi_value(c.lpi, c.lA, s) - c.tol:
            return False
        i += len(s)
    return True


def grand(size):
    """Long sequences or many states."""
    def run(ctx):
        case(ctx, [size])
    run.__name__ = size
    return run


DIRECTED = [grand(s) for s in ("huge", "crowd") for _ in range(8)]


def case(ctx, sizes=("tiny", "mid", "mid", "wide")):
    rng = ctx.rng
    c = common.inference_case(ctx, possible=True, sizes=sizes)
    G = gammas(c, ctx)
    tol = 1e-9 + c.tol
    impl = "log"
    if rng.random() < .5 and common.dyn(c)[0] < common.SAFE:
        impl = "scaling"
    ctor = str(rng.choice(["viterbi", "map"]))
    m = common.models(ctx, c, impl, algorithm=ctor)
    eff = ctor
    k = rng.integers(4)
    if k == 1:
        eff = str(rng.choice(["viterbi", "map"]))
        m.algorithm = eff
    elif k == 2:
        eff = str(rng.choice(["viterbi", "map"]))
        m.set_params(algorithm=eff)
    plan = []
    for _ in range(3):
        kind = rng.integers(3)
        if kind == 0:
            plan.append(("predict", None))
        elif kind == 1:
            plan.append(("decode", None))
        else:
            plan.append(("decode", str(rng.choice(["viterbi", "map"]))))
    ctx.detail["plan"] = [ctor, eff, plan]
    vit_path = None
    for meth, arg in plan:
        expect = arg or eff
        if meth == "predict":
            path = ctx.api("predict", m.predict, c.Xc, c.Lc)
        elif arg is None:
            path = ctx.api("decode", m.decode, c.Xc, c.Lc)[1]
        else:
            path = ctx.api("decode", m.decode, c.Xc, c.Lc, algorithm=arg)[1]
            if arg != eff:
                ctx.count("arg-overrides")
        path = np.asarray(path)
        ctx.check(path.shape == (c.T,) and path.dtype.kind in "iu", "path-form",
                  f"{path.shape} {path.dtype}")
        ctx.count("expect:" + expect)
        other_ok = (is_viterbi(c, path) if expect == "map"
                    else is_map(G, path, tol))
        if not other_ok:
            ctx.count("distinguishing")
            ctx.nontrivial = True
        if expect == "map":
            ctx.check(is_map(G, path, tol), "map-argmax",
                      f"{meth}({arg}) with algorithm {eff!r}: labels are not "
                      "posterior maxima", path=path, posteriors=G)
        else:
            ctx.check(is_viterbi(c, path), "viterbi-optimal",
                      f"{meth}({arg}) with algorithm {eff!r}: path is not "
                      "optimal", path=path)
    ctx.nontrivial = ctx.nontrivial or c.spec["nc"] > 1
    if rng.random() < .3:
        bad = str(rng.choice(["Viterbi", "MAP", "smooth", "v", "viterbi ",
                              "posterior"]))
        e = ctx.raises("decode", m.decode, c.X, c.lengths, algorithm=bad)
        ctx.check(e is not None, "unknown-algorithm",
                  f"decode accepted algorithm {bad!r}")
        m.algorithm = bad
        e = ctx.raises("decode", m.predict, c.X, c.lengths)
        ctx.check(e is not None, "unknown-algorithm",
                  f"predict accepted algorithm {bad!r}")
        ctx.count("unknown-rejected")
