"""Instrumented builds of the extension and child processes that run cases
under them.

Variants
  asan      AddressSanitizer + UndefinedBehaviorSanitizer, libstdc++
            assertions, pybind11's GIL assertions, and pybind11 array accessors
            that check every index against the array's shape
  tsan      ThreadSanitizer
  memcheck  valgrind memcheck on a -O1 -g build
  plain     the ordinary build
"""
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import sysconfig
import time
from collections import Counter

from lib import boot

BOUNDS = r'''
#include <cstdio>
#include <cstdlib>
inline void verif_bounds(const pybind11::ssize_t *shape,
                         const pybind11::ssize_t *ix, int n) {
    // One past the end is allowed (end pointers); the sanitizer's redzone
    // catches its use.
    for (int d = 0; d < n; ++d) {
        if (ix[d] < 0 || ix[d] > shape[d]) {
            std::fprintf(stderr, "VERIF-BOUNDS: index %ld in dimension %d of "
                         "extent %ld\n", (long) ix[d], d, (long) shape[d]);
            std::fflush(stderr);
            std::abort();
        }
    }
}
'''


def bounds_header(work):
    """pybind11 headers whose unchecked array accessors check."""
    import pybind11
    inc = os.path.join(work, "include")
    shutil.copytree(os.path.join(pybind11.get_include(), "pybind11"),
                    os.path.join(inc, "pybind11"))
    p = os.path.join(inc, "pybind11", "numpy.h")
    s = open(p).read()
    old = ("        return *reinterpret_cast<const T *>(data_\n"
           "                                            + byte_offset_unsafe("
           "strides_, ssize_t(index)...));")
    if s.count(old) != 1:
        raise boot.HarnessError("unexpected pybind11 headers")
    s = s.replace(old, "        const ssize_t verif_ix[] = {ssize_t(index)..."
                  ", 0};\n        verif_bounds(&shape_[0], verif_ix, "
                  "(int) sizeof...(index));\n" + old)
    mark = "PYBIND11_NAMESPACE_BEGIN(PYBIND11_NAMESPACE)"
    i = s.index(mark)
    s = s[:i] + BOUNDS + s[i:]
    open(p, "w").write(s)
    return inc


FLAGS = {
    "asan": ("-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fsanitize=float-cast-overflow "
             "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -UNDEBUG "
             "-DPYBIND11_ASSERT_GIL_HELD_INCREF_DECREF",
             "-fsanitize=address,undefined"),
    "tsan": ("-O1 -g -fno-omit-frame-pointer -fsanitize=thread",
             "-fsanitize=thread"),
    "memcheck": ("-O1 -g -fno-omit-frame-pointer", ""),
    "plain": ("", ""),
}

HELPER = r'''
#include <valgrind/memcheck.h>
#include <stddef.h>
long undefined_at(void *p, size_t n) {
    return (long) VALGRIND_CHECK_MEM_IS_DEFINED(p, n);
}
void make_undefined(void *p, size_t n) {
    (void) VALGRIND_MAKE_MEM_UNDEFINED(p, n);
}
int on_valgrind(void) { return RUNNING_ON_VALGRIND; }
'''


def build(variant, work):
    dest = os.path.join(work, variant)
    os.makedirs(dest)
    cflags, ldflags = FLAGS[variant]
    if variant == "asan":
        cflags += " -I" + bounds_header(dest)
    so = boot.build(dest, cflags=cflags, ldflags=ldflags)
    if variant == "memcheck":
        c = os.path.join(dest, "helper.c")
        open(c, "w").write(HELPER)
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", c, "-o",
                        os.path.join(dest, "helper.so")], check=True)
    return so


def lib_path(name):
    out = subprocess.run(["gcc", "-print-file-name=" + name],
                         stdout=subprocess.PIPE, text=True).stdout.strip()
    return os.path.realpath(out)


class Child:
    def __init__(self, variant, so, prop, seed, tier, idxs, work, tag,
                 deadline):
        self.variant, self.tag, self.idxs = variant, tag, list(idxs)
        self.base = os.path.join(work, f"child-{variant}-{tag}")
        spec = dict(so=so, prop=prop, seed=seed, tier=tier, idxs=self.idxs,
                    out=self.base + ".pkl", progress=self.base + ".cur",
                    deadline=deadline, variant=variant)
        with open(self.base + ".json", "w") as f:
            json.dump(spec, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONFAULTHANDLER="1", VERIF_SAN=variant)
        cmd = [boot.PY, os.path.join(boot.VERIF, "lib", "san_child.py"),
               self.base + ".json"]
        log = self.base + ".log"
        if variant == "asan":
            env["LD_PRELOAD"] = " ".join(map(lib_path, (
                "libasan.so", "libstdc++.so.6")))
            env["PYTHONMALLOC"] = "malloc"
            env["ASAN_OPTIONS"] = (
                f"detect_leaks=0:log_path={log}:exitcode=66:"
                "handle_abort=1:allocator_may_return_null=1:"
                "detect_stack_use_after_return=1:max_redzone=2048:redzone=256:"
                "quarantine_size_mb=64")
            env["UBSAN_OPTIONS"] = (f"print_stacktrace=1:halt_on_error=1:"
                                    f"log_path={log}")
            env.pop("PYTHONFAULTHANDLER")
        elif variant == "tsan":
            env["LD_PRELOAD"] = " ".join(map(lib_path, (
                "libtsan.so", "libstdc++.so.6")))
            env["PYTHONMALLOC"] = "malloc"
            env["TSAN_OPTIONS"] = (
                f"log_path={log}:exitcode=0:halt_on_error=0:"
                "report_signal_unsafe=0:history_size=4:"
                "ignore_noninstrumented_modules=1")
            env.pop("PYTHONFAULTHANDLER")
        elif variant == "memcheck":
            env["PYTHONMALLOC"] = "malloc"
            env["VERIF_HELPER"] = os.path.join(os.path.dirname(
                work + "/"), "memcheck", "helper.so")
            env.pop("PYTHONFAULTHANDLER")
            cmd = ["valgrind", "--tool=memcheck", "--leak-check=no",
                   "--num-callers=30", "--xml=yes", f"--xml-file={log}",
                   "--expensive-definedness-checks=yes", "--error-limit=no",
                   "--freelist-vol=50000000"] + cmd
        else:
            env["PYTHONMALLOC"] = "malloc"
        self.log = log
        self.stderr = open(self.base + ".err", "wb")
        self.p = subprocess.Popen(cmd, env=env, stdout=self.stderr,
                                  stderr=self.stderr, cwd=boot.VERIF)

    def logs(self):
        d = os.path.dirname(self.base)
        out = ""
        for f in sorted(os.listdir(d)):
            if f.startswith(os.path.basename(self.log)):
                with open(os.path.join(d, f), errors="replace") as fh:
                    out += fh.read()
        return out

    def finish(self, hard):
        """-> (records, errors, report_text)"""
        records, errors = [], []
        try:
            rc = self.p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            rc = None
        self.stderr.close()
        if os.path.exists(self.base + ".pkl"):
            with open(self.base + ".pkl", "rb") as f:
                while True:
                    try:
                        records.append(pickle.load(f))
                    except EOFError:
                        break
                    except Exception:
                        break
        cur = -1
        if os.path.exists(self.base + ".cur"):
            t = open(self.base + ".cur").read().strip()
            cur = int(t) if t else -1
        err = open(self.base + ".err", errors="replace").read()
        text = self.logs()
        if rc is None:
            errors.append(f"{self.variant} child exceeded the watchdog in "
                          f"case {cur}")
        elif rc == -signal.SIGKILL:
            errors.append(f"{self.variant} child was killed (memory?) in "
                          f"case {cur}")
        elif rc and cur >= 0:
            msg = headline(text + "\n" + err) or err.strip()[-300:]
            records.append(dict(
                idx=cur, verdict="violation", kind=self.variant,
                msg=f"the process died ({rc}): {msg}", counts=Counter(),
                keys=set(), nontrivial=True, digest=str(cur), known=[],
                detail={}, violation_detail={"report": (text + err)[:6000]}))
        elif rc:
            errors.append(f"{self.variant} child exited with {rc}: "
                          f"{(err + text)[-1500:]}")
        return records, errors, text, cur


def headline(text):
    for pat in (r"VERIF-BOUNDS: .*", r"SUMMARY: .*", r"runtime error: .*",
                r"ERROR: AddressSanitizer.*", r"Assertion .*failed.*"):
        m = re.search(pat, text)
        if m:
            return m.group(0)[:300]
    return None


def memcheck_reports(xml):
    """Errors of the xml log whose stack passes through the extension."""
    out = []
    for e in re.findall(r"<error>.*?</error>", xml, flags=re.S):
        stack = e.split("</stack>")[0]
        if "_hmmc" in stack:
            kind = re.search(r"<kind>(.*?)</kind>", e)
            if kind.group(1).startswith("Leak_"):
                continue
            what = re.search(r"<what>(.*?)</what>", e) or re.search(
                r"<text>(.*?)</text>", e)
            fns = re.findall(r"<fn>(.*?)</fn>", stack)[:4]
            out.append(f"{kind.group(1)}: {what.group(1) if what else ''} "
                       f"in {' < '.join(fns)}")
    return out


def tsan_reports(text):
    out = []
    for r in re.findall(r"WARNING: ThreadSanitizer:.*?(?=={10,}|\Z)", text,
                        flags=re.S):
        if "_hmmc" in r:
            out.append(r)
    return out


def run_plan(mod, args, prop, seed, tier, t0):
    """main() of the checks whose cases run in instrumented children."""
    from concurrent.futures import ThreadPoolExecutor

    from lib import runner
    plan = dict(mod.PLAN[tier])
    only = args.case
    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        seed, tier, only = rp["seed"], rp["tier"], rp["case"]
    if args.cases:
        plan = {k: max(1, v * args.cases // mod.PLAN[tier][0])
                for k, v in plan.items()}
    work = boot.scratch()
    limit = {"quick": 420, "thorough": 3000}[tier]
    children = []
    try:
        kinds = sorted(plan)
        if only is not None:
            kinds = [only // mod.KIND]
        variants = sorted({mod.VARIANT[k] for k in kinds})
        with ThreadPoolExecutor(4) as ex:
            sos = dict(zip(variants, ex.map(
                lambda v: build(v, work), variants)))
        deadline = time.time() + limit
        for k in kinds:
            v = mod.VARIANT[k]
            nw = mod.WORKERS[k]
            for w in range(nw if only is None else 1):
                idxs = [only] if only is not None else [
                    k * mod.KIND + i for i in range(w, plan[k], nw)]
                children.append(Child(v, sos[v], prop, seed, tier, idxs,
                                      work, f"{k}-{w}", deadline))
        records, errors, reports = [], [], 0
        for c in children:
            recs, errs, text, cur = c.finish(deadline + 90)
            records += recs
            errors += errs
            bad = {"memcheck": memcheck_reports, "tsan": tsan_reports}.get(
                c.variant, lambda t: [])(text)
            reports += len(bad)
            if bad:
                records.append(dict(
                    idx=c.idxs[0], verdict="violation", kind=c.variant,
                    msg=headline(bad[0]) or bad[0][:300],
                    counts=Counter(), keys=set(),
                    nontrivial=True, digest=bad[0], known=[], detail={},
                    violation_detail={"reports": bad[:20]}))
        if only is not None:
            for r in records:
                print(r["verdict"], r.get("kind"), r.get("msg"))
                print(json.dumps(r.get("violation_detail", {}),
                                 indent=1)[:6000])
            return int(any(r["verdict"] == "violation" for r in records))
        return runner.report(
            prop, mod, seed, tier, records, errors, t0, sum(plan.values()),
            {"sanitizer_builds": variants, "sanitizer_reports": reports})
    except boot.HarnessError as e:
        print(f"{prop}: ERROR: {e}")
        return 2
    finally:
        for c in children:
            if c.p.poll() is None:
                c.p.kill()
                c.p.wait()
        boot.rmtree(work)
