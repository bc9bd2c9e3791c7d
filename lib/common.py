"""Shared pieces of the inference checks."""
import numpy as np

from lib import gen, ref


class Case:
    """A model, data and everything the oracle knows about them."""


def oracle(spec, X, lengths):
    """Per-sequence (lpi, lA, lB) plus magnitudes for tolerances."""
    lpi, lA = ref.logs(spec)
    seqs = [ref.log_emission(spec, s) for s in ref.split(X, lengths)]
    mag = 0.0
    for lB in seqs:
        f = np.where(np.isfinite(lB), np.abs(lB), 0)
        mag += float(f.max(axis=1).sum())
    return lpi, lA, seqs, mag


def inference_case(ctx, fam=None, sizes=None, possible=False, zeros=True,
                   families=None, containers=True):
    rng = ctx.rng
    fams = families or gen.FAMS
    fam = fam or fams[int(rng.integers(len(fams)))]
    size = sizes[int(rng.integers(len(sizes)))] if sizes else rng.choice(
        ["tiny", "tiny", "mid", "mid", "long", "wide"])
    nc = None
    if size == "tiny":
        nc = int(rng.integers(1, 5))
        T = int(rng.integers(1, max(2, int(np.log(4096) / np.log(max(nc, 2))))
                             + 1)) if nc > 1 else int(rng.integers(1, 8))
        T = min(T, 9)
    elif size == "mid":
        T = int(rng.integers(2, 40))
    elif size == "long":
        T = int(rng.integers(100, 700))
    elif size == "huge":
        nc = int(rng.integers(2, 4))
        T = int(rng.choice([4097, 9000, 33000, 66000])) + int(
            rng.integers(0, 999))
        zeros = False
    elif size == "crowd":
        nc = int(rng.choice([65, 130, 257, 300])) + int(rng.integers(0, 9))
        T = int(rng.integers(2, 120))
    else:
        nc = int(rng.integers(6, 21))
        T = int(rng.integers(2, 40))
    if size in ("huge", "crowd"):
        ctx.count("size:" + size)
    wide = fam in ("cat", "multi", "poisson") and rng.random() < .12
    spec = gen.make_spec(rng, fam, nc=nc, zeros=zeros,
                         nf=gen.wide_nf(rng, fam) if wide else None)
    if wide:
        gen.widen(rng, spec)
        ctx.count("many symbols or large counts")
    lengths = gen.partition(rng, T, kind=int(rng.choice([0, 1, 4]))
                            if size == "huge" else None)
    for _ in range(6):
        if size == "huge":
            X = gen.big_data(rng, spec, T)
            o = oracle(spec, X, lengths)
            break
        X = gen.data(rng, spec, T, lengths)
        if X.dtype.kind == "f" and spec["ct"] and rng.random() < .1:
            X = np.rint(X)
        o = oracle(spec, X, lengths)
        lls = [ref.lse(ref.forward(o[0], o[1], s)[-1]) for s in o[2]]
        if not possible or np.all(np.isfinite(np.array(lls, float))):
            break
        X = gen.sample(rng, spec, T, lengths)
    c = Case()
    c.spec, c.X, c.lengths, c.T, c.fam, c.size = spec, X, lengths, T, fam, size
    c.lpi, c.lA, c.seqs, c.mag = o
    c.lls = np.array([ref.lse(ref.forward(c.lpi, c.lA, s)[-1])
                      for s in c.seqs], dtype=np.longdouble)
    c.possible = bool(np.all(np.isfinite(c.lls)))
    if possible and not c.possible:
        from lib.runner import Skip
        raise Skip("data impossible under the model")
    c.tol = 1e-9 + 1e-12 * c.mag + 1e-12 * T
    c.Xc = gen.x_container(rng, X) if containers else X.copy()
    c.Lc = gen.len_container(rng, lengths)
    c.mode = str(rng.choice(["log", "logF", "lin"])) \
        if fam == "table" else "log"
    if c.mode == "lin":
        # exp() of the table must be representable and invertible.
        t = np.asarray(spec["table"])
        t = t[np.isfinite(t)]
        if t.size and np.abs(t).max() > 500:
            c.mode = "log"
    ctx.detail.update(family=fam, size=size, T=T, nc=spec["nc"],
                      lengths=lengths, X=X, table_mode=c.mode,
                      params={a: spec[a] for a in gen.attrs_of(spec)})
    ctx.feed(fam, T, X, str(lengths), *[np.asarray(spec[a])
                                        for a in gen.attrs_of(spec)])
    ctx.nontrivial = spec["nc"] > 1
    ctx.cover(fam, size)
    return c


def dyn(c):
    """Widest dynamic range over the case's sequences, certain underflow."""
    rs = [gen.dyn_range(c.lpi, c.lA, s) for s in c.seqs]
    return max(r[0] for r in rs), any(r[1] for r in rs)


SAFE = 280.0          # log range a double recursion represents with room


def models(ctx, c, implementation="log", n_dirty=0.35, **kw):
    """The model under test.  Sometimes it is an object with a past: used for
    inference with other parameters, pickled, cloned or fitted before."""
    import copy
    import pickle
    rng, H = ctx.rng, ctx.H
    spec = c.spec
    past = "fresh"
    m = gen.build(H, spec, rng, table_mode=c.mode,
                  implementation=implementation, **kw)
    if rng.random() < n_dirty:
        past = str(rng.choice(["reassigned", "deepcopied", "pickled",
                               "reimplemented", "partly-reassigned",
                               "modified-in-place"]))
        if past == "modified-in-place" and c.fam == "table":
            past = "reassigned"
        if past == "pickled" and c.spec["family"] == "table":
            past = "deepcopied"
        if past in ("reassigned", "partly-reassigned", "modified-in-place"):
            base = c.fam
            other = gen.make_spec(rng, base, nc=spec["nc"], nf=spec["nf"],
                                  nm=spec.get("nm"), zeros=False)
            if base == "table":
                other["nsym"] = spec["nsym"]
                other["table"] = rng.standard_normal(spec["table"].shape)
            if base == "multi":
                other["n_trials"] = spec["n_trials"]
            m2 = gen.build(H, other, None, table_mode=c.mode,
                           implementation=implementation, **kw)
            Y = gen.sample(rng, other, 4)
            ctx.api("score (warm-up)", m2.score, Y)
            ctx.api("decode (warm-up)", m2.decode, Y)
            if past == "reassigned":
                gen.assign(m2, spec, rng)
            elif past == "modified-in-place":
                for a in gen.attrs_of(spec):
                    v, old = np.asarray(spec[a]), getattr(m2, a + "_")
                    if (isinstance(old, np.ndarray) and old.shape == v.shape
                            and old.flags.writeable and old.dtype == v.dtype):
                        old[...] = v
                    if not np.array_equal(getattr(m2, a + "_"), v):
                        gen.assign(m2, spec, None, only=[a])
            else:
                # reassign one parameter at a time, using the model between
                names = gen.attrs_of(spec)
                for a in [names[i] for i in rng.permutation(len(names))]:
                    gen.assign(m2, spec, rng, only=[a])
                    mixed = {k: v for k, v in other.items()}
                    ctx.raises("score (mid-reassignment)", m2.score, Y)
            m = m2
        elif past == "deepcopied":
            m = copy.deepcopy(m)
        elif past == "pickled":
            m = pickle.loads(pickle.dumps(m))
        elif past == "reimplemented":
            other = "scaling" if implementation == "log" else "log"
            m.set_params(implementation=other)
            ctx.raises("score (other implementation)", m.score, c.X, c.lengths)
            m.set_params(implementation=implementation)
    ctx.cover("past", past)
    ctx.detail["past"] = past
    ctx.count("object history: " + past)
    return m


def fit_kw(spec):
    """Constructor arguments that keep fit from guessing sizes from data."""
    return {"n_features": spec["nf"]} if spec["family"] == "cat" else {}
