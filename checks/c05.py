"""C05: 'log' and 'scaling' agree, or 'scaling' refuses."""
import numpy as np

from lib import common, gen, ref
from checks.c02 import gammas

CASES = {"quick": 2600, "thorough": 40000}
RULE = ("random models x possible data driven towards numeric extremes (long "
        "sequences, densities far from one, peaked emissions, near-zero "
        "transitions); both implementations compared on score, posteriors, "
        "decoding and one EM iteration; non-trivial = more than one state; "
        "regimes are classified by the exact dynamic range of the recursion")
REQUIRED = ["regime:safe", "regime:underflow", "scaling-raised",
            "agreed", "fit-compared", "decode-compared", "size:huge",
            "size:crowd"]
ASSUMPTIONS = ["agreement is demanded when the recursion's dynamic range is "
               "below exp(280); beyond it 'scaling' may also raise"]
FINDING = "C05-underflow"


def stress(ctx):
    """A table model whose emissions leave the comfortable range."""
    rng = ctx.rng
    nc = int(rng.integers(1, 5))
    spec = gen.make_spec(rng, "table", nc=nc)
    tab = spec["table"] = rng.standard_normal(spec["table"].shape)
    k = rng.integers(5)
    if k == 0:
        tab += rng.choice([-300., -600., 300., 500.])
    elif k == 1:
        tab -= rng.choice([690., 700., 708., 720., 745., 800., 2000.])
    elif k == 2:
        tab *= rng.choice([20., 60., 120.])
    elif k == 3:
        tab[rng.random(tab.shape) < .3] -= rng.choice([200., 400., 800.])
    else:
        spec["transmat"] = gen.fix_sum(
            np.eye(nc) + 10.0 ** -rng.uniform(5, 300))
    return spec


def grand(size):
    """Long sequences or many states."""
    def run(ctx):
        judge(ctx, common.inference_case(ctx, possible=True, sizes=[size]))
    run.__name__ = size
    return run


def case(ctx):
    rng = ctx.rng
    if rng.random() < .45:
        spec = stress(ctx)
        T = int(rng.choice([1, 2, 5, 20, 100, 600]))
        X = gen.hostile_X(rng, spec, T)
        lengths = gen.partition(rng, T)
        c = common.Case()
        c.spec, c.X, c.lengths, c.T, c.fam = spec, X, lengths, T, "table"
        c.lpi, c.lA, c.seqs, c.mag = common.oracle(spec, X, lengths)
        c.lls = np.array([ref.lse(ref.forward(c.lpi, c.lA, s)[-1])
                          for s in c.seqs], dtype=np.longdouble)
        if not np.all(np.isfinite(c.lls)):
            ctx.count("impossible")
            from lib.runner import Skip
            raise Skip("data impossible under the model")
        c.tol = 1e-9 + 1e-12 * c.mag + 1e-12 * T
        c.Xc, c.Lc = gen.x_container(rng, X), gen.len_container(rng, lengths)
        c.mode = str(rng.choice(["log", "logF"]))
        ctx.detail.update(family="table", T=T, lengths=lengths, X=X,
                          params={a: spec[a] for a in gen.attrs_of(spec)},
                          table_mode=c.mode)
        ctx.feed("stress", T, X, str(lengths), spec["table"], spec["transmat"],
                 spec["startprob"])
        ctx.nontrivial = spec["nc"] > 1
        ctx.cover("table", "stress")
    else:
        c = common.inference_case(ctx, possible=True)
    judge(ctx, c)


def judge(ctx, c):
    rng = ctx.rng
    dyn, must = common.dyn(c)
    safe = dyn < common.SAFE
    ctx.detail["dynamic_range"] = dyn
    ctx.count("regime:" + ("safe" if safe else
                           "certain-underflow" if must else "underflow"))
    mlog = common.models(ctx, c, "log")
    msc = common.models(ctx, c, "scaling")
    G = gammas(c, ctx)
    total = c.lls.sum()

    def relaxed(kind, got, want, tol, what):
        """Outside the safe range a mismatch is the listed finding."""
        g, w = np.asarray(got, float), np.asarray(want, float)
        with np.errstate(all="ignore"):
            same = (g.shape == w.shape
                    and np.all((np.abs(g - w) <= tol) | (g == w)))
        ctx.counts["monitor_evaluations"] += 1
        if same:
            ctx.count("agreed")
            return
        if dyn < 340 or must:
            ctx.close(got, want, kind, tol, what)
        ctx.known.append(FINDING)
        ctx.count("silent-underflow (known finding)")

    def call(what, fn, *a):
        ctx.counts["api_calls"] += 1
        try:
            return fn(*a)
        except (ValueError, ArithmeticError, IndexError, RuntimeError) as e:
            # pybind11 maps std::range_error to ValueError.
            ctx.check("underflow" in str(e).lower(), "wrong-error",
                      f"{what} under 'scaling' raised {type(e).__name__}: {e}")
            ctx.check(not safe, "needless-refusal",
                      f"{what}: 'scaling' refused data of dynamic range "
                      f"exp({dyn:.0f})")
            ctx.count("scaling-raised")
            return None

    ctx.close(ctx.api("score", mlog.score, c.Xc, c.Lc), total, "log-score",
              c.tol, "'log' score")
    r = call("score", msc.score, c.Xc, c.Lc)
    if r is not None:
        ctx.check(not must, "must-refuse",
                  f"a frame of probability below exp(-705) was scored {r!r} "
                  "without an error")
        relaxed("scaling-score", r, total, c.tol, "'scaling' score")
    P = ctx.api("predict_proba", mlog.predict_proba, c.Xc, c.Lc)
    ctx.close(P, G, "log-posteriors", c.tol + 1e-9, "'log' posteriors")
    r = call("predict_proba", msc.predict_proba, c.Xc, c.Lc)
    if r is not None:
        ctx.check(not must, "must-refuse", "posteriors without an error")
        relaxed("scaling-posteriors", r, G, c.tol + 1e-9,
                "'scaling' posteriors")

    # decoding
    alg = str(rng.choice(["viterbi", "map"]))
    pl = ctx.api("decode", mlog.decode, c.Xc, c.Lc, alg)[1]
    r = call("decode", msc.decode, c.Xc, c.Lc, alg)
    if r is not None:
        ctx.count("decode-compared")
        ps = np.asarray(r[1])
        ctx.check(ps.shape == (c.T,), "path-form", f"shape {ps.shape}")
        if alg == "map":
            top = np.asarray(G.max(axis=1), float)
            got = np.asarray(G[np.arange(c.T), ps], float)
            relaxed("scaling-decode", got, top, c.tol + 1e-8,
                    "posterior of the labels decoded under 'scaling'")
        else:
            i = 0
            for s in c.seqs:
                v = ref.path_logprob(c.lpi, c.lA, s, ps[i:i + len(s)])
                ctx.close(v, ref.viterbi_value(c.lpi, c.lA, s),
                          "scaling-decode", c.tol, "decoded path value")
                i += len(s)

    # one EM iteration of the chain parameters
    if c.fam in ("table", "cat", "poisson", "multi") and rng.random() < .7:
        res = {}
        for impl in ("log", "scaling"):
            extra = common.fit_kw(c.spec)
            m = gen.build(ctx.H, c.spec, None, table_mode=c.mode,
                          implementation=impl, n_iter=1, params="st",
                          init_params="", **extra)
            if impl == "log":
                ctx.api("fit", m.fit, c.X, c.lengths)
            elif call("fit", m.fit, c.X, c.lengths) is None:
                res = None
                break
            res[impl] = m
        if res:
            ctx.check(not must, "must-refuse", "fit without an error")
            ctx.count("fit-compared")
            a, b = res["log"], res["scaling"]
            relaxed("scaling-fit", b.startprob_, a.startprob_,
                    1e-7 + c.tol, "startprob_ after one iteration")
            cnt = np.zeros((c.spec["nc"],))
            for s in c.seqs:
                cnt += np.asarray(ref.estep(c.lpi, c.lA, s)[2].sum(axis=1),
                                  float)
            rows = cnt > 1e-6
            if rows.any():
                relaxed("scaling-fit", b.transmat_[rows], a.transmat_[rows],
                        (1e-8 + 1e-10 * c.T + c.tol) / min(
                            1., float(cnt[rows].min())),
                        "transmat_ after one iteration")
            relaxed("scaling-history", list(b.monitor_.history),
                    list(a.monitor_.history), c.tol, "recorded objective")


def directed_known(ctx):
    """The listed finding: paths whose scaled forward variable underflows."""
    spec = dict(family="table", ct=None, nc=2, nf=1, nsym=2,
                startprob=np.array([.5, .5]), transmat=np.eye(2),
                table=np.array([[0., -230.], [-230., 0.]]))
    X = np.array([[0.]] * 4 + [[1.]] * 5)
    c = common.Case()
    c.spec, c.X, c.lengths, c.T, c.fam = spec, X, None, 9, "table"
    c.lpi, c.lA, c.seqs, c.mag = common.oracle(spec, X, None)
    c.lls = np.array([ref.lse(ref.forward(c.lpi, c.lA, c.seqs[0])[-1])])
    c.tol, c.Xc, c.Lc, c.mode = 1e-8, X, None, "log"
    ctx.nontrivial = True
    judge(ctx, c)


DIRECTED = [directed_known] + [
    grand(s) for s in ("huge", "crowd") for _ in range(8)]
