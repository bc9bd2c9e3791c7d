"""Runs cases of a check in this (instrumented) process."""
import json
import os
import pickle
import sys
import time

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    with open(sys.argv[1]) as f:
        s = json.load(f)
    from lib import boot, runner
    import importlib
    if s["variant"] == "memcheck":
        H = type("H", (), {})()
        H.kernels = load_kernels(s["so"])
    else:
        H = boot.load(s["so"])
        H.kernels = sys.modules["hmmlearn._hmmc"]
    H.variant = s["variant"]
    mod = importlib.import_module("checks." + s["prop"].lower())
    if hasattr(mod, "child_init"):
        mod.child_init(H)
    cur = os.open(s["progress"], os.O_CREAT | os.O_WRONLY, 0o600)
    with open(s["out"], "wb") as out:
        for idx in s["idxs"]:
            if time.time() > s["deadline"]:
                break
            os.pwrite(cur, b"%-20d" % idx, 0)
            rec = runner.run_case(mod, H, s["prop"], s["seed"], idx,
                                  s["tier"])
            rec["variant"] = s["variant"]
            pickle.dump(rec, out)
            out.flush()
            if rec["verdict"] == "violation":
                break
    os.pwrite(cur, b"%-20d" % -1, 0)
    os._exit(0)


def load_kernels(so):
    import importlib.util
    import types
    sys.modules["hmmlearn"] = types.ModuleType("hmmlearn")
    spec = importlib.util.spec_from_file_location("hmmlearn._hmmc", so)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


if __name__ == "__main__":
    main()
