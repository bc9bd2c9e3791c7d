"""C25: custom emission models work by overriding one likelihood method."""
import copy

import numpy as np

from lib import common, gen, ref
from lib.runner import Skip

CASES = {"quick": 900, "thorough": 14000}
RULE = ("generated subclasses of BaseHMM and VariationalBaseHMM (which "
        "likelihood method, what array layout it returns, a further class in "
        "between, additional statistics, own initialisation and M-step) with "
        "fixed or trained emissions; every hook call is recorded and the "
        "trace is checked against the exact posteriors of an extended-"
        "precision oracle; scores, posteriors, decoding, samples and trained "
        "parameters are checked as well; non-trivial = more than one state")
REQUIRED = ["override:log", "override:lin", "override:both", "base:EM",
            "base:VB", "impl:log", "impl:scaling", "emission:table",
            "emission:expo", "hook:init-stats", "hook:accumulate",
            "hook:mstep", "hook:sample", "trained", "neither", "score",
            "decode", "intermediate class", "several sequences",
            "several iterations", "stopped by monitor"]
ASSUMPTIONS = ["overridden methods return arrays of floats of shape "
               "(n_samples, n_components)",
               "hooks call their base method, as documented"]


def layout(a, kind):
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "strided":
        b = np.full((2 * a.shape[0] + 1, 3 * a.shape[1] + 1), np.nan)
        b[:-1:2, :-1:3] = a
        return b[:-1:2, :-1:3]
    if kind == "readonly":
        a = a.copy()
        a.flags.writeable = False
    return a


def log_em(kind, p, X):
    """(T, nc) log densities, plain double."""
    X = np.asarray(X)
    if kind == "table":
        return p[X[:, 0].astype(int)]
    # product of exponential densities with rates p (nc, nf)
    return np.log(p).sum(axis=1) - X @ p.T


class Trace(list):
    pass


def make_class(H, kind, override, lay, base, between, trace):
    """A subclass as the extension documentation describes it."""
    B = H.base.BaseHMM if base == "EM" else H.base.VariationalBaseHMM

    def log_method(self, X):
        trace.append(("lik", "log", np.array(X)))
        return layout(log_em(kind, self.em_, X), lay)

    def lin_method(self, X):
        trace.append(("lik", "lin", np.array(X)))
        return layout(np.exp(log_em(kind, self.em_, X)), lay)

    def sub_log(self, X):
        trace.append(("sub", "log", np.array(X)))
        return layout(log_em(kind, self.em_, X), lay)

    def sub_lin(self, X):
        trace.append(("sub", "lin", np.array(X)))
        return layout(np.exp(log_em(kind, self.em_, X)), lay)

    lik = {}
    if override in ("log", "both"):
        lik["_compute_log_likelihood"] = log_method
    if override in ("lin", "both"):
        lik["_compute_likelihood"] = lin_method
    if base == "VB":
        if override in ("log", "both"):
            lik["_compute_subnorm_log_likelihood"] = sub_log
        if override in ("lin", "both"):
            lik["_compute_subnorm_likelihood"] = sub_lin
    if between:
        B = type("Between", (B,), lik)
        lik = {}

    class Custom(B):
        def _get_n_fit_scalars_per_param(self):
            return None

        def _initialize_sufficient_statistics(self):
            stats = super()._initialize_sufficient_statistics()
            trace.append(("init-stats", id(stats)))
            stats["n"] = np.zeros(self.n_components)
            stats["x"] = np.zeros((self.n_components, self.n_features))
            return stats

        def _accumulate_sufficient_statistics(
                self, stats, X, lattice, posteriors, fwdlattice, bwdlattice):
            trace.append(("accumulate", id(stats), np.array(X),
                          np.array(lattice), np.array(posteriors),
                          np.array(fwdlattice), np.array(bwdlattice)))
            super()._accumulate_sufficient_statistics(
                stats, X, lattice, posteriors, fwdlattice, bwdlattice)
            stats["n"] += posteriors.sum(axis=0)
            stats["x"] += posteriors.T @ X

        def _do_mstep(self, stats):
            trace.append(("mstep", id(stats), copy.deepcopy(stats)))
            super()._do_mstep(stats)
            if kind == "expo" and "r" in self.params:
                self.em_ = stats["n"][:, None] / stats["x"]

        def _generate_sample_from_state(self, state, random_state):
            v = (random_state.rand() if kind == "table"
                 else random_state.exponential(1 / self.em_[state]))
            out = [float(state), float(np.ravel(v)[0])]
            trace.append(("sample", int(state), out))
            return out

    for k, v in lik.items():
        setattr(Custom, k, v)
    return Custom


def neither(ctx):
    """A subclass that overrides neither fails instead of recursing."""
    rng, H = ctx.rng, ctx.H
    base = "EM" if rng.random() < .6 else "VB"
    cls = make_class(H, "table", "none", "C", base, rng.random() < .5,
                     Trace())
    impl = str(rng.choice(["log", "scaling"]))
    nc = int(rng.integers(1, 4))
    m = cls(nc, implementation=impl, params="st", init_params="")
    m.em_ = rng.standard_normal((4, nc))
    m.startprob_ = np.full(nc, 1 / nc)
    m.transmat_ = np.full((nc, nc), 1 / nc)
    if base == "VB":
        for x in ("startprob_prior_", "startprob_posterior_"):
            setattr(m, x, np.ones(nc))
        for x in ("transmat_prior_", "transmat_posterior_"):
            setattr(m, x, np.ones((nc, nc)))
    X = rng.integers(0, 4, size=(int(rng.integers(1, 6)), 1)).astype(float)
    for name in ("score", "score_samples", "decode", "predict",
                 "predict_proba", "fit"):
        e = ctx.raises(name, getattr(m, name), X)
        ctx.check(isinstance(e, NotImplementedError), "not-implemented",
                  f"{name} of a {base} model that defines no likelihood: "
                  f"{type(e).__name__}: {e}"[:200])
    ctx.feed("neither", base, impl, nc, X)
    ctx.count("neither")


def check_trace(ctx, what, trace, t, oracle, n_iter_done, impl):
    """The training trace is [init-stats, accumulate per sequence, mstep]* ."""
    ev = [e for e in trace if e[0] in ("init-stats", "accumulate", "mstep")]
    nseq = len(t.seqs)
    ctx.check(len(ev) == n_iter_done * (nseq + 2), "trace-length",
              f"{what}: {len(ev)} hook calls in {n_iter_done} iterations over "
              f"{nseq} sequences: {[e[0] for e in ev][:30]}")
    for it in range(n_iter_done):
        block = ev[it * (nseq + 2):(it + 1) * (nseq + 2)]
        ctx.check([e[0] for e in block] == ["init-stats"]
                  + ["accumulate"] * nseq + ["mstep"], "trace-order",
                  f"{what}: iteration {it + 1}: {[e[0] for e in block]}")
        ctx.check(len({e[1] for e in block}) == 1, "trace-stats",
                  f"{what}: iteration {it + 1} uses several statistics")
        o = oracle[it]
        start = np.zeros(t.nc)
        trans = np.zeros((t.nc, t.nc))
        tol = 1e-9 + 1e-12 * o["mag"]
        used = set()
        for e in block[1:-1]:
            # every sequence once, in whatever order
            cand = [i for i, s in enumerate(t.seqs) if i not in used
                    and np.array_equal(s, e[2])]
            ctx.check(cand, "trace-sequences",
                      f"{what}: accumulated a sequence that is not pending")
            i = cand[0]
            used.add(i)
            ctx.close(e[4], o["G"][i], "trace-posteriors", tol,
                      f"{what}: posteriors handed to the statistics hook, "
                      f"iteration {it + 1}, sequence {i}")
            lB = o["lB"][i]
            if impl == "log":
                ctx.close(e[3], lB, "trace-lattice", 1e-9 + 1e-12 * o["mag"],
                          f"{what}: lattice handed to the statistics hook")
                with np.errstate(invalid="ignore"):
                    ctx.close(e[5], o["a"][i], "trace-forward", tol * 10,
                              f"{what}: forward lattice")
                    ctx.close(e[6], o["b"][i], "trace-backward", tol * 10,
                              f"{what}: backward lattice")
            else:
                w = np.exp(np.asarray(lB, float))
                ctx.close(e[3], w, "trace-lattice", 1e-9 * (1 + w),
                          f"{what}: lattice handed to the statistics hook")
            start += np.asarray(o["G"][i][0], float)
            trans += np.asarray(o["xi"][i], float)
            ctx.count("hook:accumulate")
        stats = block[-1][2]
        ctx.check(stats["nobs"] == nseq, "trace-nobs",
                  f"{what}: nobs {stats['nobs']} for {nseq} sequences")
        if "s" in t.params:
            ctx.close(stats["start"], start, "trace-start", tol * 10,
                      f"{what}: start statistics")
        if "t" in t.params:
            ctx.close(stats["trans"], trans, "trace-trans", tol * 10 * t.T,
                      f"{what}: transition statistics")
        ctx.count("hook:init-stats")
        ctx.count("hook:mstep")


def estep_all(lpi, lA, t, em):
    o = dict(G=[], xi=[], lB=[], a=[], b=[], ll=0., mag=0.)
    for s in t.seqs:
        lB = ref.ld(log_em(t.kind, em, s))
        ll, g, xi = ref.estep(lpi, lA, lB)
        o["ll"] += ll
        o["G"].append(g)
        o["xi"].append(xi)
        o["lB"].append(lB)
        o["a"].append(ref.forward(lpi, lA, lB))
        o["b"].append(ref.backward(lA, lB))
        f = np.where(np.isfinite(lB), np.abs(lB), 0)
        o["mag"] += float(f.max(axis=1).sum())
    return o


class T:
    pass


def setup(ctx):
    rng = ctx.rng
    t = T()
    t.nc = int(rng.choice([1, 2, 3, 4]))
    t.T = int(rng.choice([1, 3, 12, 60]))
    t.kind = str(rng.choice(["table", "expo"]))
    t.lengths = gen.partition(rng, t.T)
    if t.kind == "table":
        ns = int(rng.integers(2, 8))
        t.em = rng.standard_normal((ns, t.nc)) * float(rng.choice([.5, 3.]))
        t.X = rng.integers(0, ns, size=(t.T, 1)).astype(float)
    else:
        nf = int(rng.integers(1, 4))
        t.em = rng.uniform(.2, 4., size=(t.nc, nf))
        t.X = rng.exponential(1 / t.em[rng.integers(t.nc, size=t.T)]) + .01
    t.seqs = ref.split(t.X, t.lengths)
    z = rng.random() < .3
    t.pi = gen.simplex(rng, t.nc, zeros=z)
    t.A = gen.transmat(rng, t.nc, zeros=z)
    t.override = str(rng.choice(["log", "lin", "both"]))
    t.lay = str(rng.choice(["C", "F", "strided", "readonly"]))
    t.base = "EM" if rng.random() < .7 else "VB"
    t.between = bool(rng.random() < .3)
    t.impl = str(rng.choice(["log", "scaling"]))
    t.params = "".join(c for c in ("str" if t.kind == "expo"
                                   and t.base == "EM" else "st")
                       if rng.random() < .75)
    ctx.detail.update({k: v for k, v in vars(t).items() if k != "seqs"})
    ctx.feed(*[vars(t)[k] if isinstance(vars(t)[k], np.ndarray)
               else repr(vars(t)[k]) for k in sorted(vars(t)) if k != "seqs"])
    ctx.nontrivial = t.nc > 1
    ctx.cover(t.base, t.kind, t.override, t.lay, t.impl, t.between)
    for f in ("base:" + t.base, "emission:" + t.kind, "impl:" + t.impl,
              "override:" + t.override):
        ctx.count(f)
    if t.between:
        ctx.count("intermediate class")
    if len(t.seqs) > 1:
        ctx.count("several sequences")
    return t


def inference(ctx, m, t, pi, A, em, trace, what):
    rng = ctx.rng
    lpi, lA = ref.safelog(pi), ref.safelog(A)
    o = estep_all(lpi, lA, t, em)
    if not np.isfinite(float(o["ll"])):
        return
    if t.impl == "scaling" and max(
            gen.dyn_range(lpi, lA, s)[0] for s in o["lB"]) > common.SAFE:
        return
    tol = 1e-9 + 1e-12 * o["mag"]
    Xc = gen.container(rng, t.X)
    sc, P = ctx.api("score_samples", m.score_samples, Xc, t.lengths)
    ctx.close(sc, o["ll"], "score", tol, f"{what}: score")
    ctx.close(ctx.api("score", m.score, Xc, t.lengths), o["ll"], "score", tol,
              f"{what}: score")
    G = np.concatenate(o["G"])
    ctx.close(P, G, "posteriors", tol, f"{what}: posteriors")
    ctx.close(ctx.api("predict_proba", m.predict_proba, Xc, t.lengths), G,
              "posteriors", tol, f"{what}: posteriors")
    v, z = ctx.api("decode", m.decode, Xc, t.lengths, "viterbi")
    best = sum(ref.viterbi_value(lpi, lA, s) for s in o["lB"])
    ctx.close(v, best, "decode", tol, f"{what}: Viterbi score")
    z, i, pv = np.asarray(z), 0, 0.
    for s in o["lB"]:
        pv += ref.path_logprob(lpi, lA, s, z[i:i + len(s)])
        i += len(s)
    ctx.close(pv, best, "decode", tol, f"{what}: Viterbi path")
    _, z = ctx.api("decode", m.decode, Xc, t.lengths, "map")
    g = np.asarray(G, float)
    ctx.check(np.all(g[np.arange(t.T), np.asarray(z)]
                     >= g.max(axis=1) - 2 * tol), "decode-map",
              f"{what}: MAP labels")
    ctx.count("score")
    ctx.count("decode")
    del trace[:]
    n = int(rng.integers(1, 15))
    X, Z = ctx.api("sample", m.sample, n, random_state=int(
        rng.integers(1 << 20)))
    ev = [e for e in trace if e[0] == "sample"]
    ctx.check(len(ev) == n, "sample-hook",
              f"{what}: {len(ev)} emissions drawn for {n} samples")
    ctx.close(np.asarray(Z), [e[1] for e in ev], "sample-states", 0,
              f"{what}: states handed to the emission hook")
    ctx.close(np.asarray(X), [e[2] for e in ev], "sample-values", 0,
              f"{what}: sampled values")
    ctx.count("hook:sample")


def case(ctx):
    rng, H = ctx.rng, ctx.H
    if rng.random() < .1:
        return neither(ctx)
    t = setup(ctx)
    trace = Trace()
    cls = make_class(H, t.kind, t.override, t.lay, t.base, t.between, trace)
    n_iter = int(rng.integers(1, 5))
    kw = dict(params=t.params, init_params="", n_iter=n_iter,
              tol=-np.inf, implementation=t.impl)
    what = (f"{t.base} model with {t.kind} emissions overriding "
            f"{t.override} ({t.impl}, layout {t.lay})")
    m = cls(t.nc, **kw)
    m.em_ = t.em
    m.startprob_, m.transmat_ = t.pi, t.A
    if t.base == "VB":
        for x in ("startprob_prior_", "startprob_posterior_"):
            setattr(m, x, np.ones(t.nc))
        for x in ("transmat_prior_", "transmat_posterior_"):
            setattr(m, x, np.ones((t.nc, t.nc)))
    inference(ctx, m, t, t.pi, t.A, t.em, trace, what)
    if t.base == "VB":
        fit_vb(ctx, m, t, n_iter, trace, what)
        return
    # EM training: the oracle iterates alongside.
    pi, A, em = t.pi, t.A, t.em
    orc, lls = [], []
    for it in range(n_iter):
        lpi, lA = ref.safelog(pi), ref.safelog(A)
        o = estep_all(lpi, lA, t, em)
        if not np.isfinite(float(o["ll"])):
            raise Skip("data impossible under the model")
        if t.impl == "scaling" and max(
                gen.dyn_range(lpi, lA, s)[0] for s in o["lB"]) > common.SAFE:
            raise Skip("outside the range of the scaling implementation")
        orc.append(o)
        lls.append(o["ll"])
        G = np.concatenate(o["G"])
        if "s" in t.params:
            p = sum(g[0] for g in o["G"])
            pi = np.where(pi == 0, 0, p / p.sum())
        if "t" in t.params:
            x = np.where(A == 0, 0, sum(o["xi"]))
            if np.any(x.sum(axis=1) < 1e-3):
                n_iter = it + 1          # a row without data ends the oracle
                A = x / np.where(x.sum(axis=1) == 0, 1,
                                 x.sum(axis=1))[:, None]
                if "r" in t.params:
                    if G.sum(axis=0).min() < 1e-3:
                        raise Skip("a state without data")
                    em = np.asarray(G.sum(axis=0)[:, None] / (G.T @ t.X),
                                    float)
                break
            A = x / x.sum(axis=1, keepdims=True)
        if "r" in t.params:
            if G.sum(axis=0).min() < 1e-3:
                raise Skip("a state without data")
            em = np.asarray(G.sum(axis=0)[:, None] / (G.T @ t.X), float)
        pi, A = np.asarray(pi, float), np.asarray(A, float)
    m = cls(t.nc, **dict(kw, n_iter=n_iter))
    stop = None
    if n_iter > 1 and rng.random() < .3:
        # a monitor that stops earlier
        stop = int(rng.integers(1, n_iter))

        class Stop(H.base.ConvergenceMonitor):
            @property
            def converged(self):
                return self.iter >= stop
        m.monitor_ = Stop(-np.inf, n_iter, False)
    m.em_ = t.em
    m.startprob_, m.transmat_ = np.array(t.pi), np.array(t.A)
    del trace[:]
    ctx.api("fit", m.fit, gen.container(rng, t.X), t.lengths)
    done = stop or n_iter
    check_trace(ctx, what, trace, t, orc, done, t.impl)
    h = list(m.monitor_.history)
    mag = max(o["mag"] for o in orc)
    tol = (1e-9 + 1e-12 * mag) * 100
    ctx.close(h, np.asarray(lls[:done], float), "history", tol,
              f"{what}: recorded log-likelihoods")
    if done > 1:
        ctx.count("several iterations")
    if stop:
        ctx.count("stopped by monitor")
        return
    ctx.close(m.startprob_, pi, "trained-startprob", tol,
              f"{what}: trained startprob_ (params {t.params!r})")
    r = np.asarray(sum(orc[-1]["xi"]).sum(axis=1), float) > 1e-3
    if "t" not in t.params:
        r[:] = True
    ctx.close(np.asarray(m.transmat_)[r], np.asarray(A, float)[r],
              "trained-transmat", tol * 100, f"{what}: trained transmat_")
    ctx.close(m.em_, em, "trained-emission", tol * 1e3 * np.abs(em).max(),
              f"{what}: trained emissions")
    ctx.count("trained")


def fit_vb(ctx, m, t, n_iter, trace, what):
    rng = ctx.rng
    nc = t.nc
    pri = {"s": rng.uniform(.1, 3, nc), "t": rng.uniform(.1, 3, (nc, nc))}
    post = {"s": rng.uniform(.1, 3, nc), "t": rng.uniform(.1, 3, (nc, nc))}
    m.startprob_prior_, m.transmat_prior_ = pri["s"], pri["t"]
    m.startprob_posterior_ = post["s"].copy()
    m.transmat_posterior_ = post["t"].copy()
    orc, hist = [], []
    q = dict(post)
    for _ in range(n_iter):
        lpi = ref.ld(ref.vb_sub_dirichlet(q["s"]))
        lA = ref.ld(ref.vb_sub_dirichlet(q["t"]))
        o = estep_all(lpi, lA, t, t.em)
        if t.impl == "scaling" and max(
                gen.dyn_range(lpi, lA, s)[0] for s in o["lB"]) > common.SAFE:
            raise Skip("outside the range of the scaling implementation")
        orc.append(o)
        hist.append(float(o["ll"]) - ref.kl_dirichlet(q["s"], pri["s"])
                    - sum(ref.kl_dirichlet(a, b)
                          for a, b in zip(q["t"], pri["t"])))
        if "s" in t.params:
            q["s"] = np.asarray(pri["s"] + sum(g[0] for g in o["G"]), float)
        if "t" in t.params:
            q["t"] = np.asarray(pri["t"] + sum(o["xi"]), float)
    del trace[:]
    ctx.api("fit", m.fit, gen.container(rng, t.X), t.lengths)
    check_trace(ctx, what, trace, t, orc, n_iter, t.impl)
    tol = (1e-9 + 1e-12 * max(o["mag"] for o in orc)) * 1000 * t.T
    ctx.close(list(m.monitor_.history), hist, "history", tol,
              f"{what}: recorded bounds")
    ctx.close(m.startprob_posterior_, q["s"], "trained-startprob", tol,
              f"{what}: startprob_posterior_")
    ctx.close(m.transmat_posterior_, q["t"], "trained-transmat", tol,
              f"{what}: transmat_posterior_")
    ctx.close(m.startprob_, q["s"] / q["s"].sum(), "trained-startprob", tol,
              f"{what}: startprob_")
    ctx.close(m.transmat_, q["t"] / q["t"].sum(axis=1, keepdims=True),
              "trained-transmat", tol, f"{what}: transmat_")
    ctx.close(m.em_, t.em, "trained-emission", 0, f"{what}: emissions")
    ctx.count("trained")
    if n_iter > 1:
        ctx.count("several iterations")
