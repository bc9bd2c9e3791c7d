"""C13: the convergence monitor reports the training run truthfully."""
import contextlib
import io
import logging

import numpy as np

from lib import common, gen, ref, train, vb

CASES = {"quick": 900, "thorough": 12000}
RULE = ("training runs of every EM and variational model replayed one "
        "iteration at a time on a second object: history, iter, stop "
        "iteration, converged flag, final parameters, warnings and verbose "
        "lines compared with the replay for n_iter / tol settings placed "
        "before, between and after the observed gains; repeated fits; custom "
        "monitors; scripted objectives that decrease; non-trivial = at least "
        "two iterations")
REQUIRED = ["history", "stop:tol", "stop:n_iter", "refit", "verbose",
            "silent", "custom-monitor", "warned", "not-warned",
            "scripted", "params-at-stop", "score-chain", "vb",
            "set-params", "zero-iterations"]
ASSUMPTIONS = ["tol is never placed within 1e-9 of an observed gain",
               "assigning model.n_iter/tol/verbose after construction is the "
               "listed known finding"]
WIGGLE = np.finfo(float).eps ** .5


class Records(logging.Handler):
    def __init__(self):
        super().__init__()
        self.rows = []

    def emit(self, record):
        self.rows.append((record.levelno, record.getMessage()))


@contextlib.contextmanager
def watch():
    """Record warnings of the library's loggers and standard error."""
    log = logging.getLogger("hmmlearn")
    h = Records()
    old, prop = log.level, log.propagate
    log.setLevel(logging.WARNING)
    log.propagate = False
    log.addHandler(h)
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            yield h, err
    finally:
        log.removeHandler(h)
        log.setLevel(old)
        log.propagate = prop


def monotone_warnings(rows):
    return [m for _, m in rows if "not converging" in m]


def setup(ctx):
    """(make(**kw) -> fresh model ready to fit, X, lengths, read)."""
    rng = ctx.rng
    if rng.random() < .7:
        t = train.make(ctx, T=int(rng.choice([20, 60, 150])))
        if train.may_collapse(t.spec, t.X, t.lengths):
            return None

        def make(**kw):
            return train.model(ctx, t, containers=False, **kw)

        def read(m):
            return gen.read(m, t.spec)
        ctx.cover("em", t.fam, t.kind, t.impl)
        return make, t.X, t.lengths, read, t
    t = vb.make(ctx, T=int(rng.choice([20, 60, 150])))
    if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < t.nc:
        return None
    ctx.count("vb")

    def make(**kw):
        return vb.model(ctx, t, **kw)

    def read(m):
        return vb.read(m, t.fam)
    ctx.cover("vb", t.fam, t.impl)
    return make, t.X, t.lengths, read, t


def fit(ctx, m, X, lengths):
    from lib.runner import Skip
    ctx.counts["api_calls"] += 1
    try:
        return m.fit(X, lengths)
    except ValueError:
        raise Skip("training collapsed")


def near(a, b):
    return abs(a - b) <= 1e-7 * (1 + abs(b))


def expected_stop(h, tol, n_iter):
    for i in range(1, n_iter + 1):
        if i == n_iter or (i >= 2 and h[i - 1] - h[i - 2] < tol):
            return i
    return 0


def real(ctx):
    rng = ctx.rng
    s = setup(ctx)
    if s is None:
        return
    make, X, lengths, read, t = s
    N = int(rng.choice([3, 6, 12]))
    # Replay: one iteration per fit; after[i] = parameters after i iterations.
    r = make(n_iter=1, tol=-np.inf)
    hist, after = [], []
    for i in range(N):
        fit(ctx, r, X, lengths)
        ctx.check(len(r.monitor_.history) == 1 and r.monitor_.iter == 1,
                  "one-iteration", f"{list(r.monitor_.history)} after a "
                  "single-iteration fit")
        hist.append(float(r.monitor_.history[0]))
        p = read(r)
        if not all(np.all(np.isfinite(v)) for v in p.values()
                   if isinstance(v, np.ndarray)):
            ctx.count("collapsed")
            return
        after.append(p)
        r.init_params = ""
        if t.fam[0] != "v" and i < N - 1 and (
                train.degenerate(p, X, lengths)
                or p["transmat"].sum(axis=1).min() < .5):
            N = i + 1
            break
        if t.fam[0] != "v" and i < N - 1:
            # what the next iteration must record
            sc = float(ref.score(p, X, lengths))
            after[-1]["_score"] = sc
    for i in range(1, len(hist)):
        if "_score" in after[i - 1]:
            ctx.check(near(hist[i], after[i - 1]["_score"]), "score-chain",
                      f"iteration {i + 1} recorded {hist[i]!r}, the model "
                      f"before it scores {after[i - 1]['_score']!r}")
            ctx.count("score-chain")
    gains = np.diff(hist)
    ctx.feed(np.array(hist))
    if N < 2:
        return
    ctx.nontrivial = True
    for trial in range(3):
        n_iter = int(rng.integers(1, N + 1))
        k = rng.integers(5)
        if k == 0:
            tol = -np.inf
        elif k == 1:
            tol = np.inf
        elif k == 2:
            tol = 0.
        else:
            g = float(rng.choice(gains))
            tol = g + float(rng.choice([-1, 1])) * max(abs(g) * .01, 1e-6)
        if np.any(np.abs(gains - tol) < 1e-7 * (1 + np.abs(hist).max())):
            ctx.count("ambiguous-tol")
            continue
        verbose = bool(rng.random() < .5)
        how = int(rng.integers(3))
        if how == 0:
            m = make(n_iter=n_iter, tol=tol, verbose=verbose)
        else:
            m = make(n_iter=int(rng.integers(1, 20)), tol=float(rng.random()),
                     verbose=not verbose)
            m.set_params(n_iter=n_iter, tol=tol, verbose=verbose)
            ctx.count("set-params")
        run(ctx, m, X, lengths, read, hist, after, tol, n_iter, verbose)
        if rng.random() < .5:
            # Again from the same start: earlier fits leave no trace.
            m2 = make(n_iter=n_iter, tol=tol, verbose=verbose)
            m2.monitor_ = m.monitor_
            run(ctx, m2, X, lengths, read, hist, after, tol, n_iter, verbose)
            ctx.count("refit")
    # an object that is fitted again goes on from where it stopped
    m = make(n_iter=1, tol=-np.inf)
    fit(ctx, m, X, lengths)
    m.set_params(init_params="", n_iter=N - 1)
    fit(ctx, m, X, lengths)
    h = list(m.monitor_.history)
    ctx.check(len(h) == N - 1 and all(map(near, h, hist[1:])), "refit",
              f"history {h} of the second fit, expected {hist[1:]}")
    ctx.check(m.monitor_.iter == N - 1, "refit", f"iter {m.monitor_.iter}")


def run(ctx, m, X, lengths, read, hist, after, tol, n_iter, verbose):
    mon = m.monitor_
    with watch() as (log, err):
        fit(ctx, m, X, lengths)
    ctx.check(m.monitor_ is mon, "monitor-identity",
              "fit replaced the monitor")
    h = [float(x) for x in mon.history]
    stop = expected_stop(hist, tol, n_iter)
    ctx.check(len(h) == stop, "stop",
              f"{len(h)} iterations were recorded, expected {stop} with tol="
              f"{tol!r}, n_iter={n_iter}", history=h, replay=hist)
    ctx.check(mon.iter == len(h), "iter", f"iter={mon.iter}, {len(h)} values")
    ctx.check(all(map(near, h, hist)), "history",
              f"history {h}, replay {hist[:stop]}")
    ctx.count("history", len(h))
    ctx.check(bool(mon.converged) is True, "converged",
              f"training ended but converged is {mon.converged!r}")
    ctx.count("stop:n_iter" if stop == n_iter else "stop:tol")
    got = read(m)
    for a, v in after[stop - 1].items():
        if a == "_score" or not isinstance(v, np.ndarray):
            continue
        ctx.close(got[a], v, "params-at-stop",
                  1e-6 * (1 + np.abs(v).max()),
                  f"{a} after {stop} iterations")
    ctx.count("params-at-stop")
    drops = [i for i in range(1, stop)
             if h[i] - h[i - 1] < -WIGGLE]
    border = [i for i in range(1, stop)
              if abs(h[i] - h[i - 1] + WIGGLE) < 1e-12]
    if not border:
        w = monotone_warnings(log.rows)
        ctx.check(len(w) == len(drops), "warning",
                  f"{len(w)} warnings for {len(drops)} decreases", history=h)
        ctx.count("warned" if drops else "not-warned")
    lines(ctx, err.getvalue(), h, verbose)


def lines(ctx, text, h, verbose):
    rows = [x for x in text.splitlines() if x.strip()]
    if not verbose:
        ctx.check(not rows, "silent", f"printed {rows[:3]}")
        ctx.count("silent")
        return
    ctx.check(len(rows) == len(h), "verbose",
              f"{len(rows)} lines for {len(h)} iterations", lines=rows)
    for i, row in enumerate(rows):
        c = row.split()
        ctx.check(len(c) == 3, "verbose", f"line {row!r}")
        ctx.check(int(c[0]) == i + 1, "verbose", f"line {i + 1}: {row!r}")
        ctx.check(abs(float(c[1]) - h[i]) <= 1e-7 + 1e-12 * abs(h[i]),
                  "verbose", f"line {row!r}, recorded {h[i]!r}")
        d = float(c[2])
        if i == 0:
            ctx.check(np.isnan(d), "verbose", f"first delta {row!r}")
        else:
            ctx.check(abs(d - (h[i] - h[i - 1])) <= 1e-7
                      + 1e-12 * abs(h[i]), "verbose",
                      f"line {row!r}, gain {h[i] - h[i - 1]!r}")
    ctx.count("verbose", len(rows))


def scripted(ctx):
    """A model whose objective follows a script, so that it also falls."""
    rng = ctx.rng
    n = int(rng.integers(1, 12))
    steps = rng.choice([1., .5, 1e-3, -1., -1e-3, -1e-6, 1e-12, -1e-10, 0.],
                       size=n)
    script = np.cumsum(steps) + float(rng.choice([0., -100.]))
    tol = float(rng.choice([-np.inf, -.2, 0.2, 1e-4, 5.]))
    n_iter = int(rng.integers(0, n + 1))
    verbose = bool(rng.random() < .5)
    ctx.detail.update(script=script, tol=tol, n_iter=n_iter, verbose=verbose)
    ctx.feed("scripted", script, tol, n_iter)
    ctx.cover("scripted", n, n_iter)
    H = ctx.H
    calls = []

    class Scripted(H.base.BaseHMM):
        def _get_n_fit_scalars_per_param(self):
            return None

        def _compute_log_likelihood(self, X):
            return np.zeros((len(X), self.n_components))

        def _compute_lower_bound(self, log_prob):
            calls.append(log_prob)
            return float(script[len(calls) - 1])
    X = rng.standard_normal((6, 2))
    m = Scripted(2, n_iter=n_iter, tol=tol, verbose=verbose, random_state=1)
    for rep in range(2):
        del calls[:]
        with watch() as (log, err):
            ctx.api("fit", m.fit, X, [4, 2])
        h = [float(x) for x in m.monitor_.history]
        stop = expected_stop(script, tol, n_iter)
        ctx.check(h == [float(x) for x in script[:stop]], "scripted",
                  f"history {h}, script {script}, tol {tol}, n_iter {n_iter}")
        ctx.check(m.monitor_.iter == stop and len(calls) == stop, "scripted",
                  f"iter {m.monitor_.iter}, {len(calls)} evaluations, "
                  f"expected {stop}")
        ctx.check(bool(m.monitor_.converged) is True, "converged",
                  f"converged is False after the loop ended (history {h})")
        drops = [i for i in range(1, stop) if h[i] - h[i - 1] < -1e-7]
        tiny = [i for i in range(1, stop) if -1e-7 <= h[i] - h[i - 1] < -1e-9]
        w = monotone_warnings(log.rows)
        ctx.check(len(drops) <= len(w) <= len(drops) + len(tiny), "warning",
                  f"{len(w)} warnings for {len(drops)} decreases")
        if drops:
            ctx.count("warned")
        if not w:
            ctx.count("not-warned")
        lines(ctx, err.getvalue(), h, verbose)
        if n_iter == 0:
            ctx.count("zero-iterations")
    ctx.count("scripted")
    ctx.nontrivial = n_iter > 1


def custom(ctx):
    """A custom monitor decides the stop."""
    rng = ctx.rng
    s = setup(ctx)
    if s is None:
        return
    make, X, lengths, read, t = s
    H = ctx.H
    k = int(rng.integers(1, 6))
    n_iter = int(rng.integers(1, 9))
    seen = []
    style = int(rng.integers(3))

    class Mine(H.base.ConvergenceMonitor):
        @property
        def converged(self):
            seen.append((self.iter, len(self.history)))
            return self.iter >= k

    class Recorder(H.base.ConvergenceMonitor):
        def report(self, log_prob):
            seen.append(log_prob)
            super().report(log_prob)

        @property
        def converged(self):
            return self.iter >= k
    cls = Recorder if style == 1 else Mine
    m = make(n_iter=n_iter, tol=np.inf if style == 2 else 0.)
    m.monitor_ = mon = cls(m.tol, m.n_iter, m.verbose)
    m.monitor_.extra = "kept"
    for rep in range(2):
        fit(ctx, m, X, lengths)
        ctx.check(m.monitor_ is mon and mon.extra == "kept",
                  "custom-monitor", "fit replaced the custom monitor")
        want = min(k, n_iter)
        ctx.check(mon.iter == want and len(mon.history) == want,
                  "custom-monitor", f"{mon.iter} iterations, the monitor "
                  f"asked for {k}, n_iter={n_iter}")
        if style == 1:
            ctx.check(len(seen) == want, "custom-monitor",
                      f"report was called {len(seen)} times")
        else:
            ctx.check(seen == [(i, i) for i in range(1, want + 1)],
                      "custom-monitor", f"converged was asked at {seen}")
        del seen[:]
        if rep == 0 and t.fam[0] != "v":
            p = read(m)
            if not all(np.all(np.isfinite(v)) for v in p.values()
                       if isinstance(v, np.ndarray)) \
                    or train.may_collapse(p, X, lengths):
                break
    ctx.count("custom-monitor")
    ctx.cover("custom", style)
    ctx.nontrivial = n_iter > 1 and k > 1


def assigned(ctx):
    """Known finding: n_iter assigned as an attribute after construction."""
    X = np.random.RandomState(3).standard_normal((80, 1))
    m = ctx.H.hmm.GaussianHMM(2, n_iter=3, tol=-np.inf, random_state=1)
    m.n_iter = 7
    ctx.api("fit", m.fit, X)
    ctx.count("assigned")
    if m.monitor_.iter == 7:
        return
    ctx.check(m.monitor_.iter == 3, "assigned",
              f"{m.monitor_.iter} iterations with n_iter 3, then 7")
    ctx.known.append("C13-assigned")


DIRECTED = [assigned]


def case(ctx):
    k = ctx.rng.random()
    if k < .6:
        real(ctx)
    elif k < .8:
        scripted(ctx)
    else:
        custom(ctx)
