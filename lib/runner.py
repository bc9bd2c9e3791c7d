"""Case runner: forked workers, verdicts, evidence, replays, known findings."""
import argparse
import hashlib
import json
import mmap
import os
import pickle
import signal
import struct
import sys
import time
import traceback
from collections import Counter

import numpy as np

from lib import boot

VERIF = boot.VERIF


class Violation(Exception):
    def __init__(self, kind, msg, detail=None):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg, self.detail = kind, msg, detail or {}


class Skip(Exception):
    """The case is outside the property's quantifier (counted, not judged)."""


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:40])}
        return jsonable(x.tolist())
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:400]]
    if isinstance(x, (np.floating, np.longdouble)):
        x = float(x)
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, (str, int, bool, type(None))):
        return x
    return repr(x)[:300]


class Ctx:
    def __init__(self, H, prop, seed, idx, tier):
        self.H, self.prop, self.seed, self.idx, self.tier = (
            H, prop, seed, idx, tier)
        self.rng = np.random.default_rng([seed, int(prop[1:]), idx])
        self.counts = Counter()
        self.keys = set()
        self.detail = {}
        self.nontrivial = False
        self.digest = hashlib.sha1()
        self.known = []
        self._in_oracle = False

    # -- monitor API ------------------------------------------------------
    def check(self, cond, kind, msg="", **detail):
        self.counts["monitor_evaluations"] += 1
        self.counts["monitor:" + kind] += 1
        if not bool(cond):
            raise Violation(kind, msg, detail)

    def close(self, got, want, kind, tol, msg="", **detail):
        """abs(got - want) <= tol elementwise, equal infinities allowed."""
        self.counts["monitor_evaluations"] += 1
        self.counts["monitor:" + kind] += 1
        try:
            g = np.asarray(got, dtype=np.longdouble)
        except (TypeError, ValueError):
            raise Violation(kind, f"{msg}: result is not numeric: {got!r:.200}",
                            detail)
        w = np.asarray(want, dtype=np.longdouble)
        if g.shape != w.shape:
            raise Violation(kind, f"{msg}: shape {g.shape}, expected {w.shape}",
                            detail)
        with np.errstate(all="ignore"):
            ok = (np.abs(g - w) <= tol) | (g == w)
        if not np.all(ok):
            i = np.unravel_index(np.argmin(ok), ok.shape) if ok.shape else ()
            raise Violation(
                kind, f"{msg}: got {float(g[i])!r}, expected {float(w[i])!r} "
                f"at {tuple(int(k) for k in i)} "
                f"(tolerance {float(np.max(tol)):.3g})",
                dict(detail, got=got, want=w))

    def count(self, name, n=1):
        self.counts[name] += n

    def cover(self, *key):
        self.keys.add("/".join(str(k) for k in key))

    def feed(self, *objs):
        for o in objs:
            if isinstance(o, np.ndarray):
                self.digest.update(np.ascontiguousarray(o).tobytes())
            else:
                self.digest.update(repr(o).encode())

    def api(self, what, fn, *a, **k):
        """Call the code under test; any exception is a violation."""
        self.counts["api_calls"] += 1
        try:
            return fn(*a, **k)
        except (Violation, Skip):
            raise
        except Exception as e:
            raise Violation("unexpected-exception",
                            f"{what} raised {type(e).__name__}: {e}"[:600],
                            {"traceback": traceback.format_exc()[-3000:]})

    def raises(self, what, fn, *a, exc=Exception, **k):
        """Call the code under test; return the exception or None."""
        self.counts["api_calls"] += 1
        try:
            fn(*a, **k)
        except exc as e:
            return e
        return None


def run_case(mod, H, prop, seed, idx, tier):
    ctx = Ctx(H, prop, seed, idx, tier)
    rec = {"idx": idx}
    try:
        directed = getattr(mod, "DIRECTED", [])
        if idx < len(directed):
            ctx.detail["directed"] = directed[idx].__name__
            ctx.feed("directed", directed[idx].__name__)
            directed[idx](ctx)
        else:
            mod.case(ctx)
        rec["verdict"] = "held"
    except Skip as e:
        rec["verdict"] = "skip"
        rec["why"] = str(e)
    except Violation as e:
        rec["verdict"] = "violation"
        rec["kind"], rec["msg"] = e.kind, e.msg
        rec["violation_detail"] = jsonable(e.detail)
    except MemoryError as e:
        rec["verdict"] = "error"
        rec["msg"] = traceback.format_exc()[-2000:]
    except Exception as e:
        # Outside ctx.api: the harness could not digest what the code under
        # test returned (wrong type or shape), or the harness is wrong.  The
        # unchanged tree never gets here (swept over seeds).
        rec["verdict"] = "violation"
        rec["kind"] = "undigestible-result"
        rec["msg"] = f"{type(e).__name__}: {e}"
        rec["violation_detail"] = {"traceback": traceback.format_exc()[-3000:]}
    rec["counts"] = ctx.counts
    rec["keys"] = ctx.keys
    rec["nontrivial"] = ctx.nontrivial
    rec["digest"] = ctx.digest.hexdigest()
    rec["known"] = ctx.known
    rec["detail"] = (jsonable(ctx.detail)
                     if rec["verdict"] == "violation" or idx % 97 == 0
                     or idx < 3 else {})
    return rec


def _worker(w, nw, mod, H, prop, seed, tier, n, shm, wfd, deadline):
    out = os.fdopen(wfd, "wb")
    for idx in range(w, n, nw):
        if time.time() > deadline:
            break
        shm[w * 8:(w + 1) * 8] = struct.pack("q", idx)
        rec = run_case(mod, H, prop, seed, idx, tier)
        pickle.dump(rec, out)
        out.flush()
        if rec["verdict"] == "violation":
            break
    shm[w * 8:(w + 1) * 8] = struct.pack("q", -1)
    out.close()


def run_pool(mod, H, prop, seed, tier, n, nw, deadline):
    """Returns (records, errors).  A worker killed by a fault is a violation."""
    import selectors
    shm = mmap.mmap(-1, 8 * nw)
    sel = selectors.DefaultSelector()
    procs = {}
    for w in range(nw):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            rc = 0
            try:
                os.close(r)
                _worker(w, nw, mod, H, prop, seed, tier, n, shm, wr, deadline)
            except BaseException:
                traceback.print_exc()
                rc = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        os.close(wr)
        procs[r] = (pid, w, bytearray())
        sel.register(r, selectors.EVENT_READ)
    hard = deadline + 60
    stuck = set()
    while sel.get_map():
        for key, _ in sel.select(timeout=5):
            data = os.read(key.fd, 1 << 20)
            if data:
                procs[key.fd][2].extend(data)
            else:
                sel.unregister(key.fd)
        if time.time() > hard:
            for fd, (pid, w, _) in procs.items():
                if fd in sel.get_map():
                    stuck.add(w)
                    os.kill(pid, signal.SIGKILL)
            break
    records, errors = [], []
    import io
    for fd, (pid, w, buf) in procs.items():
        _, st = os.waitpid(pid, 0)
        os.close(fd)
        bio = io.BytesIO(bytes(buf))
        while True:
            try:
                records.append(pickle.load(bio))
            except EOFError:
                break
            except Exception:
                break
        cur = struct.unpack("q", shm[w * 8:(w + 1) * 8])[0]
        if w in stuck:
            errors.append(f"worker {w} exceeded the watchdog in case {cur}")
        elif os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            if sig == signal.SIGKILL:
                errors.append(f"worker {w} was killed (memory?) in case {cur}")
            else:
                records.append(dict(
                    idx=cur, verdict="violation", kind="crash",
                    msg=f"the process died with signal {sig}", counts=Counter(),
                    keys=set(), nontrivial=True, digest=str(cur), known=[],
                    detail={}, violation_detail={}))
        elif os.WEXITSTATUS(st):
            errors.append(f"worker {w} exited with {os.WEXITSTATUS(st)}")
    return records, errors


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def write_replay(prop, seed, tier, rec):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{tier}-{seed}-{rec['idx']}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier,
                   "case": rec["idx"], "kind": rec.get("kind"),
                   "message": rec.get("msg"),
                   "replay_cmd": f"/opt/venv/bin/python run.py {prop} "
                                 f"--replay {path}",
                   "case_detail": rec.get("detail"),
                   "violation_detail": rec.get("violation_detail")},
                  f, indent=1)
    return path


def write_evidence(prop, tier, seed, level, coverage, wall, violations,
                   assumptions):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed,
                   "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2),
                   "violations": violations}, f, indent=1)


def report(prop, mod, seed, tier, records, errors, t0, planned, extra=None):
    """Fold records into evidence + verdict; returns the exit code."""
    counts, keys, digests = Counter(), set(), set()
    verd = Counter()
    known_seen = {}
    samples = []
    viols = []
    skips = Counter()
    for r in sorted(records, key=lambda r: r["idx"]):
        counts.update(r["counts"])
        keys |= r["keys"]
        verd[r["verdict"]] += 1
        if r["verdict"] == "skip":
            skips[r["why"]] += 1
        if r["nontrivial"] and r["verdict"] != "skip":
            digests.add(r["digest"])
        for k in r["known"]:
            known_seen.setdefault(k, r["idx"])
        if r["verdict"] == "violation":
            viols.append(r)
        if r["verdict"] == "error":
            errors.append(f"case {r['idx']}: {r['msg']}")
        if r.get("detail") and len(samples) < 4 and r["verdict"] == "held":
            samples.append({"case": r["idx"], "input": r["detail"],
                            "observed": {k: v for k, v in
                                         list(r["counts"].items())[:12]}})
    listed = {f["id"]: f for f in load_known() if f["property"] == prop}
    for k in known_seen:
        if k not in listed:
            errors.append(f"monitor attributed a failure to {k!r}, which is "
                          "not in known_findings.json")
    for fid, f in listed.items():
        if fid in known_seen:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    cov = {
        "evaluations": len(records),
        "distinct_nontrivial": len(digests),
        "rule": mod.RULE,
        "samples": samples or [{"note": "no sample kept"}],
        "planned_cases": planned,
        "verdicts": dict(verd),
        "monitor_counts": {k: int(v) for k, v in sorted(counts.items())},
        "distinct_configurations": len(keys),
        "configurations": sorted(keys)[:150],
        "skip_reasons": dict(skips),
        "known_findings_observed": sorted(known_seen),
    }
    if extra:
        cov.update(extra)
    write_evidence(prop, tier, seed, getattr(mod, "LEVEL", "exploration"),
                   cov, time.time() - t0, len(viols),
                   getattr(mod, "ASSUMPTIONS", []))
    if viols:
        r = viols[0]
        path = write_replay(prop, seed, tier, r)
        print(f"{prop}: {r['kind']}: {r['msg']}")
        for e in errors[:3]:
            print(f"{prop}: also: {e[-600:]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for need in getattr(mod, "REQUIRED", []):
        if not counts[need]:
            errors.append(f"monitor event {need!r} was never reached")
    if not len(digests):
        errors.append("no non-trivial case was executed")
    if len(records) < 0.5 * planned:
        errors.append(f"only {len(records)} of {planned} planned cases ran "
                      "before the watchdog")
    if errors:
        for e in errors[:5]:
            print(f"{prop}: INCONCLUSIVE: {e}")
        return 2
    print(f"{prop}: held on {len(records)} executions "
          f"({len(digests)} distinct non-trivial, "
          f"{counts['monitor_evaluations']} monitor evaluations, "
          f"{counts['api_calls']} API calls, {len(keys)} configurations) "
          f"in {time.time() - t0:.1f}s")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--tier")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--case", type=int)
    ap.add_argument("--workers", type=int, default=8)
    args = ap.parse_args(argv)
    prop = args.prop.upper()
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    import importlib
    mod = importlib.import_module(f"checks.{prop.lower()}")
    if hasattr(mod, "main"):
        return mod.main(args, prop, seed, tier, t0)
    only = args.case
    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        seed, tier, only = rp["seed"], rp["tier"], rp["case"]
    work = boot.scratch()
    try:
        so = boot.build(work)
        H = boot.load(so)
        if only is not None:
            rec = run_case(mod, H, prop, seed, only, tier)
            rec["detail"] = jsonable(rec["detail"])
            for k in ("verdict", "kind", "msg", "why", "known"):
                if k in rec:
                    print(f"{k}: {rec[k]}")
            print(json.dumps(rec.get("violation_detail", {}), indent=1)[:6000])
            print(dict(rec["counts"]))
            return 1 if rec["verdict"] == "violation" else 0
        n = args.cases or mod.CASES[tier]
        limit = {"quick": 600, "thorough": 3600}[tier]
        records, errors = run_pool(mod, H, prop, seed, tier, n, args.workers,
                                   time.time() + limit)
        return report(prop, mod, seed, tier, records, errors, t0, n)
    except boot.HarnessError as e:
        print(f"{prop}: ERROR: {e}")
        return 2
    finally:
        boot.rmtree(work)
