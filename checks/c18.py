"""C18: the compiled kernels have no memory error or undefined behaviour."""
import ctypes
import gc
import os
import sys

import numpy as np

KIND = 1_000_000            # case index = kind * KIND + i
ASAN, MEMCHECK, POISON, LEAK = range(4)
PLAN = {"quick": {ASAN: 1500, MEMCHECK: 500, POISON: 500, LEAK: 40},
        "thorough": {ASAN: 20000, MEMCHECK: 6000, POISON: 6000, LEAK: 500}}
VARIANT = {ASAN: "asan", MEMCHECK: "memcheck", POISON: "plain",
           LEAK: "plain"}
WORKERS = {ASAN: 5, MEMCHECK: 2, POISON: 1, LEAK: 2}
RULE = ("kernels and all public methods driven by random, hostile, rejected "
        "and mismatched inputs (workloads of the other checks included) in "
        "processes instrumented with AddressSanitizer + UBSan + per-index "
        "bounds checks + GIL assertions; kernels under valgrind memcheck with "
        "definedness of every returned byte; every call repeated on a heap "
        "poisoned with different patterns and compared bitwise; allocated "
        "bytes per call; non-trivial = a kernel ran on more than one state or "
        "an error path was taken")
KERNELS = ["forward_scaling", "forward_log", "backward_scaling",
           "backward_log", "compute_scaling_xi_sum", "compute_log_xi_sum",
           "viterbi"]
REQUIRED = (["asan:" + k for k in KERNELS] + ["memcheck:" + k for k in KERNELS]
            + ["poison:" + k for k in KERNELS] + ["leak:" + k for k in KERNELS]
            + ["asan:rejected", "asan:api", "memcheck:rejected",
               "memcheck:defined", "poison:api", "leak:api",
               "leak:rejected"])
ASSUMPTIONS = [
    "arrays handed over are aligned for their dtype (x86-64 tolerates "
    "misaligned loads)",
    "an index one past an extent is accepted as an end pointer by the bounds "
    "monitor; its dereference is left to AddressSanitizer's redzones",
    "compiled code of numpy, scipy and scikit-learn is trusted"]

COUNTS = {}


def child_init(H):
    """Count kernel calls made through the Python layer."""
    mod = H.kernels
    H.raw = {}
    for name in dir(mod):
        f = getattr(mod, name)
        if name.startswith("_") or not callable(f):
            continue

        def wrapped(*a, _f=f, _n=name, **k):
            COUNTS[_n] = COUNTS.get(_n, 0) + 1
            try:
                return _f(*a, **k)
            except RuntimeError as e:
                if "PyGILState" in str(e):
                    sys.stderr.write("Assertion 'the GIL is held' failed in "
                                     f"{_n}: {e}\n")
                    sys.stderr.flush()
                    os._exit(67)
                raise
        H.raw[name] = wrapped
        setattr(mod, name, wrapped)


# -- direct workload ---------------------------------------------------------
def layout(rng, a, keep):
    """The same values in another memory layout or dtype."""
    k = int(rng.integers(0, 9))
    if k == 1:
        a = np.asfortranarray(a)
    elif k == 2 and a.ndim == 2:
        big = np.full((2 * a.shape[0] + 1, 2 * a.shape[1] + 1), 7.)
        big[1::2, 1::2] = a
        a = big[1::2, 1::2]
    elif k == 3 and a.ndim:
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif k == 4 and keep:
        a = a.astype(np.float32)
    elif k == 5 and keep:
        a = a.tolist()
    elif k == 6:
        a = a.copy()
        a.flags.writeable = False
    elif k == 7 and a.ndim == 2 and a.shape[0] > 1:
        a = np.broadcast_to(a[:1].copy(), a.shape)
    elif k == 8 and keep:
        a = a.astype(">f8")
    return a


def values(rng, *shape, log):
    a = rng.random(shape)
    if log:
        a = np.log(a) * float(rng.choice([1, 10, 1e3]))
    k = rng.random()
    if k < .35 and a.size:
        n = int(rng.integers(1, a.size + 1)) if rng.random() < .3 else 1
        i = rng.integers(0, a.size, n)
        a.ravel()[i] = rng.choice(
            [np.nan, np.inf, -np.inf, 0, -0., -1, 1e308, -1e308, 5e-324,
             1e-300, 1e-310, 1e19, -1e19])
    elif k < .45:
        a[...] = rng.choice([0., -np.inf, np.nan, np.inf, 1.])
    return a


def sizes(rng, small=False):
    k = rng.random()
    if k < .25:
        return int(rng.integers(1, 3)), int(rng.integers(1, 3))
    if k < .8 or small:
        return int(rng.integers(1, 40)), int(rng.integers(1, 9))
    if k < .9:
        return int(rng.integers(1, 6)), int(rng.choice(
            [rng.integers(10, 60), 64, 65, 128, 129, 256, 300]))
    return int(rng.integers(300, 3000)), int(rng.integers(1, 6))


def direct_args(rng, name, small=False, valid=False):
    ns, nc = sizes(rng, small)
    log = "log" in name or name == "viterbi"
    start = values(rng, nc, log=False)
    trans = values(rng, nc, nc, log=False)
    frame = values(rng, ns, nc, log=log)
    fwd = values(rng, ns, nc, log=log)
    bwd = values(rng, ns, nc, log=log)
    if "xi_sum" in name:
        args = [fwd, trans, bwd, frame]
    else:
        args = [start, trans, frame]
        if name == "backward_scaling":
            args.append(values(rng, ns, log=False))
    if "forward_scaling" == name and rng.random() < .5:
        args = [np.abs(np.nan_to_num(a, posinf=1., neginf=1.)) + .01
                for a in args]
    mismatch = not valid and rng.random() < .35
    if mismatch:
        i = int(rng.integers(len(args)))
        a = args[i]
        k = int(rng.integers(8))
        ax = int(rng.integers(a.ndim))
        n = a.shape[ax]
        if k < 3:
            m = {0: n + 1, 1: max(n - 1, 0), 2: int(rng.integers(0, 2 * n + 3))
                 }[k]
            shp = list(a.shape)
            shp[ax] = m
            a = np.resize(a, shp)
        elif k == 3:
            a = a[None]
        elif k == 4:
            a = a.ravel() if a.ndim == 2 else np.array(1.)
        elif k == 5:
            a = a.T.copy()
        elif k == 6:
            shp = list(a.shape)
            shp[ax] = 0
            a = np.zeros(shp)
        else:
            # all of them inconsistent or empty at once
            m = int(rng.integers(0, 3))
            args = [np.resize(x, (m,) * x.ndim if rng.random() < .5 else
                              (m,) + x.shape[1:]) for x in args]
            a = args[i]
        args[i] = a
    args = [layout(rng, np.asarray(a), not small) for a in args]
    return args, mismatch, (ns, nc)


def outputs(r):
    return [np.asarray(x) for x in (r if isinstance(r, tuple) else (r,))]


def direct(ctx, tag, name=None, **kw):
    """One kernel call; returns (args, result or exception)."""
    rng = ctx.rng
    name = name or KERNELS[int(rng.integers(len(KERNELS)))]
    f = ctx.H.raw.get(name)
    if f is None:
        ctx.count(f"{tag}:{name}")      # renamed or merged: reached by the API
        return name, None, None, None
    args, mismatch, (ns, nc) = direct_args(rng, name, **kw)
    ctx.counts["api_calls"] += 1
    try:
        r = f(*args)
    except (ValueError, RuntimeError, TypeError, IndexError,
            ArithmeticError) as e:
        r = e
        ctx.count(f"{tag}:rejected")
        ctx.cover(name, "rejected", type(e).__name__, str(e)[:40])
    else:
        ctx.count(f"{tag}:{name}")
        ctx.cover(name, "ran", "nc1" if nc == 1 else "nc>1",
                  "ns1" if ns == 1 else "ns>1")
    ctx.feed(name, ns, nc, mismatch, *[np.asarray(a, float) for a in args])
    ctx.detail.update(kernel=name, ns=ns, nc=nc, mismatch=mismatch,
                      shapes=[np.shape(a) for a in args])
    ctx.nontrivial |= nc > 1 or isinstance(r, Exception)
    return name, f, args, r


# -- workloads through the public API ---------------------------------------
BORROWED = ["c01", "c02", "c03", "c05", "c06", "c10", "c12", "c13", "c14",
            "c16", "c17", "c22", "c24", "c25"]


def borrowed(ctx, tag):
    """A case of another check; its verdict is that check's business."""
    import importlib

    from lib import runner
    name = BORROWED[int(ctx.rng.integers(len(BORROWED)))]
    mod = importlib.import_module("checks." + name)
    sub = runner.Ctx(ctx.H, "C18", ctx.seed, ctx.idx, ctx.tier)
    sub.rng = np.random.default_rng([ctx.seed, 1801, ctx.idx])
    ctx.detail["workload"] = name
    try:
        mod.case(sub)
    except Exception as e:
        ctx.cover("workload", name, type(e).__name__)
    else:
        ctx.cover("workload", name)
    ctx.counts["api_calls"] += sub.counts["api_calls"]
    ctx.digest = sub.digest
    ctx.feed(name)
    ctx.nontrivial = sub.nontrivial
    ctx.count(f"{tag}:api")


def custom(ctx, tag):
    """A user-written emission model that returns arrays of the wrong shape,
    dtype or layout."""
    from lib import gen
    rng, H = ctx.rng, ctx.H
    nc = int(rng.integers(1, 6))
    n = int(rng.integers(1, 30))
    d = [int(rng.integers(-1, 2)) for _ in range(2)]
    if rng.random() < .4:
        d = [0, 0]
    kind = int(rng.integers(5))

    class Custom(H.base.BaseHMM):
        def _compute_log_likelihood(self, X):
            shp = (max(len(X) + d[0], 0), max(nc + d[1], 0))
            if kind == 4:
                shp = (0, nc)
            a = values(rng, *shp, log=True)
            if kind == 1:
                return a.astype(np.float32)
            if kind == 2:
                return layout(rng, a, False)
            if kind == 3:
                return a[..., None] if rng.random() < .5 else a.ravel()
            return a

        def _compute_likelihood(self, X):
            return np.exp(self._compute_log_likelihood(X))

    m = Custom(nc, implementation=str(rng.choice(["log", "scaling"])),
               n_iter=2, params="st", init_params="",
               algorithm=str(rng.choice(["map", "viterbi"])))
    m.startprob_ = layout(rng, gen.fix_sum(rng.random(nc)), False)
    m.transmat_ = layout(rng, gen.fix_sum(rng.random((nc, nc))), False)
    if m.transmat_.ndim == 2:
        m.transmat_ = gen.fix_sum(np.array(m.transmat_, float))
    X = rng.random((n, 1))
    L = gen.partition(rng, n)
    ctx.feed("custom", nc, n, str(d), kind)
    ctx.detail.update(workload="custom", nc=nc, n=n, off=d, kind=kind)
    for name in ("score", "predict_proba", "decode", "fit"):
        e = ctx.raises(name, getattr(m, name), X, L)
        ctx.cover("custom", name, type(e).__name__)
    ctx.nontrivial = True
    ctx.count(f"{tag}:api")


def case_asan(ctx):
    k = ctx.rng.random()
    COUNTS.clear()
    if k < .35:
        for _ in range(8):
            direct(ctx, "asan")
    elif k < .45:
        custom(ctx, "asan")
    else:
        borrowed(ctx, "asan")
    for n, v in COUNTS.items():
        ctx.count("asan:" + n, v)
    ctx.check(True, "sanitizer-silent")


# -- valgrind ---------------------------------------------------------------
_helper = []


def helper():
    if not _helper:
        h = ctypes.CDLL(os.environ["VERIF_HELPER"])
        for f in (h.undefined_at, h.make_undefined):
            f.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        h.undefined_at.restype = ctypes.c_long
        _helper.append(h)
    return _helper[0]


def dirty_cache(nbytes):
    """Leave undefined blocks of this size in numpy's allocation cache."""
    hs = [np.empty(max(nbytes // 8, 1)) for _ in range(8)]
    for a in hs:
        helper().make_undefined(a.ctypes.data, a.nbytes)


def case_memcheck(ctx):
    h = helper()
    rng = ctx.rng
    for _ in range(2):
        state = rng.bit_generator.state
        probe = np.random.default_rng()
        probe.bit_generator.state = state
        name = KERNELS[int(probe.integers(len(KERNELS)))]
        ns, nc = sizes(probe, True)
        for nb in {ns * nc * 8, nc * nc * 8, ns * 8, nc * 8}:
            dirty_cache(nb)
        name, f, args, r = direct(ctx, "memcheck", small=True)
        if f is None or isinstance(r, Exception):
            continue
        for o in outputs(r):
            o = np.ascontiguousarray(o) if o.ndim else o
            bad = h.undefined_at(o.ctypes.data, o.nbytes)
            ctx.check(not bad, "defined", f"{name} returned uninitialised "
                      f"memory (args {[np.shape(a) for a in args]})")
            ctx.count("memcheck:defined")


# -- poisoned heap ----------------------------------------------------------
PATTERNS = [1.2345e103, np.nan, -7.5, 0.0]


def poison(value, nbytes):
    for nb in nbytes:
        hs = [np.full(max(nb // 8, 1), value) for _ in range(9)]
        del hs


def case_poison(ctx):
    rng = ctx.rng
    if rng.random() < .7:
        name, f, args, r = direct(ctx, "poison")
        if f is None or isinstance(r, Exception):
            return
        first = [o.tobytes() for o in outputs(r)]
        nb = {o.nbytes for o in outputs(r)} | {
            np.asarray(a, float).nbytes for a in args} | {
                8 * np.shape(args[1])[-1]}
        for p in PATTERNS:
            poison(p, nb)
            got = outputs(f(*args))
            ctx.check([o.tobytes() for o in got] == first, "poison",
                      f"{name}: the result depends on what the heap held "
                      f"before (pattern {p})")
        return
    from lib import common
    from lib.runner import Skip
    try:
        c = common.inference_case(ctx, families=None, possible=True)
    except Skip:
        return
    impl = str(rng.choice(["log", "scaling"]))
    m = common.models(ctx, c, implementation=impl, n_dirty=0)
    calls = {"score": lambda: m.score(c.X, c.lengths),
             "predict_proba": lambda: m.predict_proba(c.X, c.lengths),
             "viterbi": lambda: m.decode(c.X, c.lengths, algorithm="viterbi"),
             "map": lambda: m.decode(c.X, c.lengths, algorithm="map")}
    n, nc = c.T, c.spec["nc"]
    nb = {8 * n, 8 * n * nc, 8 * nc, 8 * nc * nc, c.X.nbytes, c.X.nbytes * nc}
    for what, call in calls.items():
        res = []
        for p in PATTERNS:
            poison(p, nb)
            try:
                res.append([o.tobytes() for o in outputs(call())])
            except Exception as e:
                res.append(type(e).__name__)
            ctx.counts["api_calls"] += 1
        ctx.check(all(r == res[0] for r in res), "poison",
                  f"{what}: the result depends on what the heap held before")
    ctx.count("poison:api")


# -- leaks ------------------------------------------------------------------
class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks",
        "fsmblks", "uordblks", "fordblks", "keepcost")]


def allocated():
    libc = ctypes.CDLL(None)
    libc.mallinfo2.restype = Mallinfo2
    gc.collect()
    m = libc.mallinfo2()
    return m.uordblks + m.hblkhd


def growth(fn, n):
    for _ in range(20):
        fn()
    best = None
    for _ in range(3):
        a = allocated()
        for _ in range(n):
            fn()
        g = (allocated() - a) / n
        best = g if best is None else min(best, g)
    return best


def case_leak(ctx):
    rng = ctx.rng
    if rng.random() < .7:
        name, f, args, r = direct(
            ctx, "leak", KERNELS[ctx.idx % len(KERNELS)], small=True)
        if f is None:
            return
        args = [np.array(a, float) for a in args]
        before = [sys.getrefcount(a) for a in args]

        def call():
            try:
                f(*args)
            except Exception:
                pass
        g = growth(call, 150)
        ctx.check(g < 24, "leak", f"{name}: {g:.1f} bytes stay allocated "
                  "after each call", shapes=[np.shape(a) for a in args])
        ctx.check([sys.getrefcount(a) for a in args] == before, "refcount",
                  f"{name} keeps references to its arguments")
        return
    from lib import common
    from lib.runner import Skip
    try:
        c = common.inference_case(ctx, sizes=["long"], possible=True)
    except Skip:
        return
    impl = str(rng.choice(["log", "scaling"]))
    m = common.models(ctx, c, implementation=impl, n_dirty=0)

    def run():
        for call in (m.score, m.predict_proba, m.decode):
            try:
                call(c.X, c.lengths)
            except Exception:
                pass
    g = growth(run, 40)
    # a leaked lattice or state sequence has at least 8 bytes per sample
    ctx.check(g < 8 * c.T * .9, "leak", f"score, predict_proba and decode: {g:.1f} "
              "bytes stay allocated after each round")
    ctx.count("leak:api")


def case(ctx):
    k = ctx.idx // KIND
    (case_asan, case_memcheck, case_poison, case_leak)[k](ctx)


def main(args, prop, seed, tier, t0):
    from lib import san
    return san.run_plan(sys.modules[__name__], args, prop, seed, tier, t0)
