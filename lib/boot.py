"""Build the extension of /repo's working tree out of tree and load hmmlearn.

The Python sources are imported straight from /repo/src; only the compiled
module is redirected, to a shared object freshly built from /repo/ext in a
scratch directory that is removed when the check ends.
"""
import importlib.util
import logging
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    pass


def scratch():
    return tempfile.mkdtemp(prefix="verif_hmm_")


def rmtree(path):
    if path and os.path.basename(path).startswith("verif_hmm_"):
        shutil.rmtree(path, ignore_errors=True)


def build(dest, cflags="", ldflags="", cc=None, cxx=None):
    """Build _hmmc from /repo into dest/lib; return the path of the .so."""
    env = dict(os.environ)
    env["SETUPTOOLS_SCM_PRETEND_VERSION"] = "0.3.3"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["TMPDIR"] = dest
    if cflags:
        env["CFLAGS"] = cflags
        env["CXXFLAGS"] = cflags
    if ldflags:
        env["LDFLAGS"] = ldflags
    if cc:
        env["CC"] = cc
    if cxx:
        env["CXX"] = cxx
    lib = os.path.join(dest, "lib")
    # setup.py wants to write metadata next to itself; give it a copy of the
    # non-Python part of the tree instead of /repo.
    src = os.path.join(dest, "src")
    shutil.copytree(REPO, src, ignore=shutil.ignore_patterns(
        ".git", "*.so", "__pycache__", "build", "doc", "examples", "*.pyc"))
    p = subprocess.run(
        [PY, "setup.py", "build_ext", "--build-lib", lib,
         "--build-temp", os.path.join(dest, "tmp"), "--force"],
        cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        text=True)
    if p.returncode:
        raise HarnessError("build of /repo failed:\n" + p.stdout[-4000:])
    for root, _, files in os.walk(lib):
        for f in files:
            if f.startswith("_hmmc") and f.endswith(".so"):
                return os.path.join(root, f)
    raise HarnessError("no _hmmc*.so was built:\n" + p.stdout[-4000:])


def load(so):
    """Import hmmlearn from /repo/src with the given extension module."""
    src = os.path.join(REPO, "src")
    sys.path[:] = [src] + [p for p in sys.path if p != src]
    for name in [n for n in sys.modules
                 if n == "hmmlearn" or n.startswith("hmmlearn.")]:
        del sys.modules[name]
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import hmmlearn
    if not os.path.abspath(hmmlearn.__file__).startswith(src + os.sep):
        raise HarnessError(f"imported the wrong hmmlearn: {hmmlearn.__file__}")
    spec = importlib.util.spec_from_file_location("hmmlearn._hmmc", so)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["hmmlearn._hmmc"] = mod
    spec.loader.exec_module(mod)
    hmmlearn._hmmc = mod
    from hmmlearn import base, hmm, vhmm, stats, utils
    logging.getLogger("hmmlearn").setLevel(logging.CRITICAL)

    class H:
        pass
    H.base, H.hmm, H.vhmm, H.stats, H.utils, H.so = (
        base, hmm, vhmm, stats, utils, so)
    return H
