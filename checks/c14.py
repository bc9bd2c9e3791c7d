"""C14: an integer seed makes fit and sample reproducible."""
import hashlib
import os
import pickle
import random
import subprocess
import sys

import numpy as np

from lib import boot, common, gen, ref, train, vb

CASES = {"quick": 700, "thorough": 9000}
RULE = ("every family, covariance type and variational model fitted on data "
        "(including clusters smaller than n_mix) and sampled repeatedly: new "
        "object, clone, same object again, after disturbing NumPy's and "
        "Python's global generators, and in fresh interpreters with other "
        "hash seeds; parameters, histories and samples compared bit for bit, "
        "global generator states compared before and after; non-trivial = "
        "more than one state")
REQUIRED = ["fit-new", "fit-clone", "fit-again", "fit-randomstate",
            "global-untouched", "sample-seed", "sample-model-seed",
            "sample-randomstate", "seeds-differ", "small-cluster",
            "subprocess", "edge-seed", "other-model-seed",
            "variational-sample"]
ASSUMPTIONS = ["single-threaded BLAS and OpenMP (set by the harness)"]


def state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4], random.getstate())


def disturb(rng):
    np.random.seed(int(rng.integers(1 << 30)))
    np.random.rand(int(rng.integers(0, 5)))
    random.seed(int(rng.integers(1 << 30)))


def snapshot(m, fam, spec=None):
    out = {}
    if fam[0] == "v":
        out.update(vb.read(m, fam))
        names = ["startprob_", "transmat_"] + (
            ["emissionprob_"] if fam == "vcat" else ["means_", "covars_"])
    else:
        names = [a + "_" for a in gen.attrs_of(spec)]
    for a in names:
        out[a] = np.array(getattr(m, a), float)
    out["history"] = np.array(m.monitor_.history, float)
    return out


def same(a, b):
    return a.keys() == b.keys() and all(
        a[k].shape == b[k].shape and np.array_equal(a[k], b[k],
                                                    equal_nan=True)
        for k in a)


def diff(a, b):
    return [k for k in a if k not in b or not np.array_equal(
        a[k], b[k], equal_nan=True)]


def setup(ctx):
    rng = ctx.rng
    n_iter = int(rng.choice([1, 3, 8]))
    if rng.random() < .72:
        t = train.make(ctx, T=int(rng.choice([8, 20, 60, 150],
                                             p=[.2, .3, .3, .2])))
        spec = t.spec
        if spec["family"] == "gmm" and t.T <= 20:
            ctx.count("small-cluster")
        if spec["family"] in ("gauss", "gmm") and \
                len(np.unique(t.X, axis=0)) < spec["nc"]:
            return None

        def make(seed, **kw):
            args = dict(random_state=seed, n_iter=n_iter, params=t.params,
                        implementation=t.impl, **gen.ctor_args(spec),
                        **common.fit_kw(spec))
            args.update(vb.copies(t.pri))
            args.update(kw)
            return gen.cls_of(ctx.H, spec)(**args)
    else:
        t = vb.make(ctx, T=int(rng.choice([8, 20, 60, 150])))
        spec = None
        if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < t.nc:
            return None

        def make(seed, **kw):
            return vb.model(ctx, t, random_state=seed, n_iter=n_iter, **kw)
    ctx.cover(t.fam, t.impl, t.T)
    return t, spec, make


def fitted(ctx, m, t, spec):
    """Snapshot after fit; an error is an outcome too."""
    ctx.counts["api_calls"] += 1
    try:
        m.fit(t.X, t.lengths)
    except ValueError as e:
        return {"error": np.array(str(e)[:80].encode("ascii", "replace")
                                  == b"", float)}, False
    return snapshot(m, t.fam, spec), True


def fits(ctx):
    from sklearn.base import clone
    rng = ctx.rng
    s = setup(ctx)
    if s is None:
        return
    t, spec, make = s
    seed = int(rng.choice([0, 1, 42, int(rng.integers(1 << 31))]))
    ctx.detail["seed"] = seed
    disturb(rng)
    g0 = state()
    m = make(seed)
    first, ok = fitted(ctx, m, t, spec)
    ctx.check(state() == g0, "global-untouched",
              f"fit of {t.fam} with random_state={seed} consumed a global "
              "random generator")
    ctx.count("global-untouched")
    ctx.check(m.random_state == seed and isinstance(m.random_state, int),
              "seed-kept", f"random_state is now {m.random_state!r}")

    def again(what, q):
        disturb(rng)
        got, k = fitted(ctx, q, t, spec)
        ctx.check(k == ok and same(first, got), what,
                  f"{t.fam}, seed {seed}: {diff(first, got)} differ",
                  first=first, got=got)
        ctx.count(what)
    again("fit-new", make(seed))
    again("fit-clone", clone(m))
    if ok:
        try:                      # degenerate fits may not be usable
            m.sample(3)
            m.score(t.X, t.lengths)
        except ValueError:
            pass
        again("fit-again", m)
        again("fit-clone", clone(m))
    # A RandomState in the same state
    a, oka = fitted(ctx, make(np.random.RandomState(seed)), t, spec)
    disturb(rng)
    b, okb = fitted(ctx, make(np.random.RandomState(seed)), t, spec)
    ctx.check(oka == okb and same(a, b), "fit-randomstate",
              f"{t.fam}: two RandomState({seed}) give different fits: "
              f"{diff(a, b)}")
    ctx.count("fit-randomstate")


def samples(ctx):
    rng = ctx.rng
    fam = gen.FAMS[int(rng.integers(len(gen.FAMS)))]
    spec = gen.make_spec(rng, fam)
    seed = int(rng.integers(1 << 31))
    if rng.random() < .35:
        seed = int(rng.choice([0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]))
        ctx.count("edge-seed")
    n = int(rng.integers(1, 60))
    ctx.detail.update(family=fam, seed=seed, n=n, params={
        a: spec[a] for a in gen.attrs_of(spec)})
    ctx.feed(fam, seed, n, *[np.asarray(spec[a]) for a in gen.attrs_of(spec)])
    ctx.cover("sample", fam)
    ctx.nontrivial = spec["nc"] > 1
    cur = int(rng.integers(spec["nc"])) if rng.random() < .4 else None
    m = gen.build(ctx.H, spec, rng, random_state=seed)

    def draw(q=m, **kw):
        x, z = ctx.api("sample", q.sample, n, currstate=cur, **kw)
        return np.array(x), np.array(z)

    def equal(a, b):
        return np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])
    disturb(rng)
    g0 = state()
    a = draw(random_state=seed)
    ctx.check(state() == g0, "global-untouched",
              "sample with a seed consumed a global random generator")
    disturb(rng)
    ctx.check(equal(a, draw(random_state=seed)), "sample-seed",
              "two samples with the same seed differ")
    ctx.count("sample-seed")
    b = draw()
    disturb(rng)
    ctx.check(equal(b, draw()), "sample-model-seed",
              "sample() of a model with an integer random_state is not "
              "reproducible")
    ctx.check(equal(a, b), "sample-model-seed",
              "the model's seed and the same explicit seed differ")
    m2 = gen.build(ctx.H, spec, rng)
    ctx.check(equal(a, draw(m2, random_state=seed)), "sample-seed",
              "an equal model gives another sample for the same seed")
    ctx.count("sample-model-seed")
    # Whatever the model's own random_state is, the argument decides
    m3 = gen.build(ctx.H, spec, rng, random_state=(
        (seed + 1) % (1 << 32) if rng.random() < .5
        else np.random.RandomState(int(rng.integers(100)))))
    disturb(rng)
    ctx.check(equal(a, draw(m3, random_state=seed)), "sample-seed",
              "the model's own random_state changes a sample drawn with an "
              "explicit seed")
    ctx.count("other-model-seed")
    r1, r2 = np.random.RandomState(seed), np.random.RandomState(seed)
    disturb(rng)
    c1, d1 = draw(random_state=r1), draw(random_state=r1)
    c2, d2 = draw(random_state=r2), draw(random_state=r2)
    ctx.check(equal(c1, c2) and equal(d1, d2), "sample-randomstate",
              "two RandomState objects in the same state differ")
    ctx.check(equal(a, c1), "sample-randomstate",
              "an integer seed and RandomState(seed) differ")
    ctx.count("sample-randomstate")
    if fam.startswith(("gauss", "gmm")):
        e = draw(random_state=(seed + 1) % (1 << 32))
        ctx.check(not np.array_equal(a[0], e[0]), "seeds-differ",
                  "different seeds gave the same observations")
        ctx.check(not np.array_equal(c1[0], d1[0]), "seeds-differ",
                  "a RandomState did not advance between samples")
        ctx.count("seeds-differ")


def vsamples(ctx):
    """Samples of variational models."""
    rng = ctx.rng
    t = vb.make(ctx, T=60)
    if t.fam != "vcat" and len(np.unique(t.X, axis=0)) < t.nc:
        return
    seed = int(rng.choice([0, 1, (1 << 32) - 1, int(rng.integers(1 << 31))]))
    own = [None, seed, (seed + 1) % (1 << 32)][int(rng.integers(3))]
    n = int(rng.integers(1, 60))
    ctx.detail.update(seed=seed, own=own, n=n)
    m = vb.model(ctx, t, n_iter=1, random_state=own)
    try:
        m.fit(t.X, t.lengths)
    except ValueError:
        return
    out = []
    for i in range(2):
        disturb(rng)
        g0 = state()
        x, z = ctx.api("sample", m.sample, n, random_state=seed)
        ctx.check(state() == g0, "global-untouched",
                  "sample with a seed consumed a global random generator")
        out.append((np.array(x), np.array(z)))
    if own == seed:
        disturb(rng)
        x, z = ctx.api("sample", m.sample, n)
        out.append((np.array(x), np.array(z)))
    ctx.check(all(np.array_equal(out[0][0], o[0])
                  and np.array_equal(out[0][1], o[1]) for o in out),
              "sample-seed", f"{t.fam}: samples with the same seed differ")
    ctx.cover("vsample", t.fam)
    ctx.count("variational-sample")


CHILD = r"""
import sys, os, hashlib
sys.path.insert(0, sys.argv[1])
from lib import boot
import numpy as np
H = boot.load(sys.argv[2])
rng = np.random.RandomState(0)
h = hashlib.sha1()
X = np.vstack([rng.randn(30, 2) + 4 * i for i in range(3)])
C = rng.randint(0, 4, (90, 1))
K = rng.multinomial(5, [.2, .3, .5], 90)
P = rng.poisson(3, (90, 2))
L = [40, 30, 20]
jobs = [(H.hmm.CategoricalHMM(3, random_state=5), C),
        (H.hmm.MultinomialHMM(3, n_trials=5, random_state=5), K),
        (H.hmm.PoissonHMM(3, random_state=5), P),
        (H.vhmm.VariationalCategoricalHMM(3, random_state=5, n_iter=5), C)]
for ct in ("spherical", "diag", "full", "tied"):
    jobs.append((H.hmm.GaussianHMM(3, ct, random_state=5), X))
    jobs.append((H.hmm.GMMHMM(3, 2, covariance_type=ct, random_state=5), X))
    jobs.append((H.vhmm.VariationalGaussianHMM(
        3, ct, random_state=5, n_iter=5), X))
for m, D in jobs:
    m.fit(D, L)
    for a in ("startprob_", "transmat_", "means_", "covars_", "weights_",
              "emissionprob_", "lambdas_"):
        if hasattr(m, a):
            h.update(np.ascontiguousarray(getattr(m, a)).tobytes())
    x, z = m.sample(20)
    h.update(np.ascontiguousarray(x).tobytes())
    h.update(np.ascontiguousarray(z).tobytes())
print(h.hexdigest())
"""


def processes(ctx):
    """Fresh interpreters with different hash seeds agree."""
    out = []
    for hs in ("0", "1", "12345"):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([boot.PY, "-c", CHILD, boot.VERIF, ctx.H.so],
                           env=env, capture_output=True, text=True,
                           timeout=300)
        ctx.check(p.returncode == 0, "subprocess", p.stderr[-1500:])
        out.append(p.stdout.strip())
        ctx.count("subprocess")
    ctx.check(len(set(out)) == 1, "subprocess",
              f"fits and samples differ between interpreters: {out}")
    ctx.nontrivial = True


DIRECTED = [processes]


def case(ctx):
    k = ctx.rng.random()
    if k < .6:
        fits(ctx)
    elif k < .94:
        samples(ctx)
    else:
        vsamples(ctx)
