"""C19: concurrent use from several threads gives the serial results."""
import copy
import os
import sys
import threading
import time

import numpy as np

from checks.c18 import KERNELS, direct_args, outputs

KIND = 1_000_000
TSAN, SERIAL, INJECT = range(3)
PLAN = {"quick": {TSAN: 160, SERIAL: 240, INJECT: 120},
        "thorough": {TSAN: 3000, SERIAL: 5000, INJECT: 2500}}
VARIANT = {TSAN: "tsan", SERIAL: "plain", INJECT: "plain"}
WORKERS = {TSAN: 3, SERIAL: 3, INJECT: 2}
RULE = ("2-8 threads, released by a barrier, each with its own list of calls "
        "(inference on one shared model, fits and inference on separate "
        "models, raw kernels on shared arrays); results compared with the "
        "same calls made serially; a ThreadSanitizer build, an ordinary build "
        "with a 1 us switch interval, and one that yields the interpreter "
        "lock at random lines of hmmlearn; non-trivial = kernel calls of "
        "different threads overlapped")
REQUIRED = ["overlap", "shared-model", "separate-fits", "kernels", "yields",
            "tsan:overlap", "rejected-call"]
ASSUMPTIONS = [
    "numpy, scipy and scikit-learn are trusted to be thread-safe for calls "
    "on distinct objects; single-threaded BLAS and OpenMP",
    "ThreadSanitizer reports are judged if they pass through the extension"]

LOCK = threading.Lock()
STATE = {"active": {}, "overlaps": 0, "calls": 0, "kinds": set()}


def child_init(H):
    mod = H.kernels
    H.raw = {}
    for name in dir(mod):
        f = getattr(mod, name)
        if name.startswith("_") or not callable(f):
            continue
        H.raw[name] = f

        def wrapped(*a, _f=f, _n=name, **k):
            me = threading.get_ident()
            with LOCK:
                STATE["calls"] += 1
                for other in STATE["active"].values():
                    STATE["overlaps"] += 1
                    STATE["kinds"].add(tuple(sorted((other, _n))))
                STATE["active"][me] = _n
            try:
                return _f(*a, **k)
            finally:
                with LOCK:
                    STATE["active"].pop(me, None)
        setattr(mod, name, wrapped)


def attempt(fn):
    try:
        r = fn()
    except Exception as e:
        return ("raised", type(e).__name__)
    return ("ok", r)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raised":
        return a[1] == b[1]
    a, b = a[1], b[1]
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(
            same(("ok", a[k]), ("ok", b[k])) for k in a)
    a, b = outputs(a), outputs(b)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if x.dtype.kind == "f":
            if not np.allclose(x, y, rtol=1e-7, atol=1e-9, equal_nan=True):
                return False
        elif not np.array_equal(x, y):
            return False
    return True


def inference_ops(rng, m, data, nc):
    X, L = data
    seed = int(rng.integers(1 << 20))
    n = int(rng.integers(1, 60))
    ops = {
        "score": lambda: m.score(X, L),
        "score_samples": lambda: m.score_samples(X, L),
        "predict": lambda: m.predict(X, L),
        "predict_proba": lambda: m.predict_proba(X, L),
        "viterbi": lambda: m.decode(X, L, algorithm="viterbi"),
        "map": lambda: m.decode(X, L, algorithm="map"),
        "sample": lambda: m.sample(n, random_state=seed),
        "sample-from": lambda: m.sample(n, random_state=seed,
                                        currstate=seed % nc),
        "stationary": lambda: m.get_stationary_distribution(),
        "rejected": lambda: m.score(X, [1] + [len(X)]),
    }
    if hasattr(m, "aic"):
        ops["aic"] = lambda: m.aic(X, L)
        ops["bic"] = lambda: m.bic(X, L)
    name = sorted(ops)[int(rng.integers(len(ops)))]
    return name, ops[name]


def any_model(ctx, H, T):
    """(make, data, nc): a hand-set, EM-fitted or variational model."""
    from lib import common, gen, train, vb
    rng = ctx.rng
    if rng.random() < .2:
        t = vb.make(ctx, T=T)
        a = dict(n_iter=2, random_state=int(rng.integers(1 << 20)),
                 implementation=str(rng.choice(["log", "scaling"])),
                 params=t.params, **vb.copies(t.pri))
        if t.fam == "vcat":
            a["n_features"] = t.nf

        def make(fit=False):
            return vb.build(H, t.fam, t.nc, **copy.deepcopy(a))
        return make, (t.X, t.lengths), t.nc, True
    t = train.make(ctx, T=T)
    warm = bool(rng.random() < .5)
    a = dict(n_iter=3, random_state=int(rng.integers(1 << 20)),
             implementation=str(rng.choice(["log", "scaling"])),
             **common.fit_kw(t.spec), **vb.copies(t.pri))

    def make(fit=False):
        b = copy.deepcopy(a)
        if fit and not warm:
            return gen.cls_of(H, t.spec)(**{**gen.ctor_args(t.spec), **b})
        return gen.build(H, t.spec, None, **{**b, "init_params": ""})
    return make, (t.X, t.lengths), t.spec["nc"], False


def fit_op(make, data):
    def run():
        m = make(fit=True)
        m.fit(*data)
        out = {k: np.array(v, dtype=float) for k, v in sorted(
            vars(m).items()) if k.endswith("_") and k != "monitor_"
            and not callable(v)}
        out["history"] = np.array(list(m.monitor_.history), float)
        out["score"] = m.score(*data)
        return out
    return run


class Yielder:
    """Gives the interpreter lock away at random lines of hmmlearn."""

    def __init__(self, seed, p):
        from lib import boot
        self.src = os.path.join(boot.REPO, "src", "hmmlearn")
        self.rng = np.random.default_rng(seed)
        self.p = p
        self.n = 0
        self.order = []

    def __call__(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.src):
            return None
        return self.line

    def line(self, frame, event, arg):
        if self.rng.random() < self.p:
            self.n += 1
            if len(self.order) < 4000:
                self.order.append(threading.get_ident())
            time.sleep(0 if self.rng.random() < .8 else 2e-5)
        return self.line


def case(ctx):
    rng, H = ctx.rng, ctx.H
    kind = ctx.idx // KIND
    nt = int(rng.integers(2, 9))
    mode = str(rng.choice(["shared", "separate", "kernels", "mixed"]))
    big = kind != INJECT
    T = int(rng.choice([30, 200, 1500] if big else [10, 40]))
    plans = [[] for _ in range(nt)]           # per thread: (name, thunk)
    serial = []
    per = int(rng.integers(2, 6))
    if mode in ("shared", "mixed"):
        make, data, nc, var = any_model(ctx, H, T)
        m = make()
        if var or rng.random() < .3:
            e = attempt(lambda: m.fit(*data))
            if e[0] == "raised":
                m = make()
        ref = copy.deepcopy(m)
        sets = [data]
        for _ in range(2):
            n = int(rng.integers(1, len(data[0]) + 1))
            sets.append((data[0][:n].copy(), None))
        # Different data of equal shape: a buffer that calls share by size
        # would mix them up.
        for x in [sets[0][0], sets[1][0]]:
            for _ in range(2):
                sets.append((x[rng.permutation(len(x))].copy(), None))
        for t in range(nt):
            for _ in range(per):
                s = sets[int(rng.integers(len(sets)))]
                st = rng.bit_generator.state
                name, op = inference_ops(rng, m, s, nc)
                rng.bit_generator.state = st
                _, op0 = inference_ops(rng, ref, s, nc)
                plans[t].append((name, op, op0))
                if name == "rejected":
                    ctx.count("rejected-call")
        ctx.count("shared-model")
    if mode in ("separate", "mixed"):
        for t in range(nt if mode == "separate" else 2):
            make, data, nc, var = any_model(ctx, H, min(T, 200))
            k = 2 if rng.random() < .3 else 1
            for _ in range(k):
                op = fit_op(make, data)
                plans[t].append(("fit", op, op))
        ctx.count("separate-fits")
    if mode == "kernels":
        for _ in range(2 * per):
            name = KERNELS[int(rng.integers(len(KERNELS)))]
            f = getattr(H.kernels, name, None)
            if f is None:
                continue
            args, _, _ = direct_args(rng, name, valid=bool(rng.random() < .7))
            for t in range(nt):
                if rng.random() < .6:
                    plans[t].append((name, lambda f=f, a=args: f(*a),
                                     lambda f=f, a=args: f(*a)))
        ctx.count("kernels")
    plans = [p for p in plans if p]
    if len(plans) < 2:
        return
    for p in plans:
        i = rng.permutation(len(p))
        p[:] = [p[j] for j in i]
    want = [[attempt(op0) for _, _, op0 in p] for p in plans]
    got = [[None] * len(p) for p in plans]
    barrier = threading.Barrier(len(plans))
    STATE.update(active={}, overlaps=0, calls=0, kinds=set())
    died = []

    def work(t):
        try:
            barrier.wait()
            for i, (name, op, _) in enumerate(plans[t]):
                got[t][i] = attempt(op)
        except BaseException as e:
            died.append(repr(e))
    y = Yielder([ctx.seed, ctx.idx], float(rng.choice([.01, .05, .2])))
    old = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 5e-4])))
    if kind == INJECT:
        threading.settrace(y)
    try:
        threads = [threading.Thread(target=work, args=(t,))
                   for t in range(len(plans))]
        for t in threads:
            t.start()
        end = time.time() + 300
        for t in threads:
            t.join(max(.1, end - time.time()))
        stuck = any(t.is_alive() for t in threads)
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
    ctx.check(not stuck, "progress", "threads did not finish within 300 s "
              "(deadlock?)")
    ctx.check(not died, "thread-death", str(died))
    ctx.count("yields", y.n)
    switches = sum(a != b for a, b in zip(y.order, y.order[1:]))
    ctx.count("context-switches-inside-hmmlearn", switches)
    ctx.count("overlap", STATE["overlaps"])
    if kind == TSAN:
        ctx.count("tsan:overlap", STATE["overlaps"])
    for k in STATE["kinds"]:
        ctx.cover("overlap", *k)
    ctx.counts["api_calls"] += 2 * sum(map(len, plans))
    ids = {}
    ctx.feed(mode, nt, T, [[n for n, _, _ in p] for p in plans],
             [ids.setdefault(i, len(ids)) for i in y.order])
    ctx.detail.update(mode=mode, threads=len(plans), T=T, kind=kind,
                      calls=[[n for n, _, _ in p] for p in plans])
    ctx.nontrivial = STATE["overlaps"] > 0 or switches > 0
    ctx.cover(mode, f"{len(plans)} threads")
    for t, p in enumerate(plans):
        for i, (name, _, _) in enumerate(p):
            g, w = got[t][i], want[t][i]
            ctx.check(same(g, w), "serial-result",
                      f"{name} run by thread {t} of {len(plans)} ({mode}): "
                      f"got {str(g)[:200]}, serially {str(w)[:200]}")


def main(args, prop, seed, tier, t0):
    from lib import san
    return san.run_plan(sys.modules[__name__], args, prop, seed, tier, t0)
