"""Builds the code under test from /repo's working tree, outside /repo: a copy of the package with its extension."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))


def _files():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, "cpnest")):
        ds[:] = sorted(x for x in ds if x != "__pycache__")
        for f in sorted(fs):
            if f.endswith((".py", ".pyx", ".pxd", ".pxi", ".h")):
                out.append(os.path.join(d, f))
    return out


def _hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def build():
    """-> directory to put on sys.path"""
    os.makedirs(CACHE, exist_ok=True)
    files = _files()
    ext_src = [f for f in files if not f.endswith(".py")] + [os.path.join(REPO, "setup.py")]
    h_ext, h_all = _hash(ext_src), _hash(files + [os.path.join(REPO, "setup.py")])
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ext = os.path.join(CACHE, "ext-" + h_ext)
        if not os.path.exists(os.path.join(ext, "ok")):
            shutil.rmtree(ext, ignore_errors=True)
            src = ext + ".src"
            shutil.rmtree(src, ignore_errors=True)
            os.makedirs(ext)
            shutil.copytree(REPO, src, ignore=shutil.ignore_patterns(".git", "*.so", "*.c", "build", "__pycache__", "tests", "docs"))
            env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.11.0", CFLAGS="-O2")
            r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "--force"], cwd=src, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            sos = [f for f in os.listdir(os.path.join(src, "cpnest")) if f.endswith(".so")]
            if r.returncode or not sos:
                shutil.rmtree(src, ignore_errors=True)
                sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
                raise SystemExit("the code under test does not build")
            for f in sos:
                shutil.copy(os.path.join(src, "cpnest", f), ext)
            shutil.rmtree(src, ignore_errors=True)
            open(os.path.join(ext, "ok"), "w").close()
        dst = os.path.join(CACHE, "pkg-" + h_all)
        if not os.path.exists(os.path.join(dst, "ok")):
            shutil.rmtree(dst, ignore_errors=True)
            for f in files:
                if f.endswith(".py"):
                    t = os.path.join(dst, os.path.relpath(f, REPO))
                    os.makedirs(os.path.dirname(t), exist_ok=True)
                    shutil.copy(f, t)
            for f in os.listdir(ext):
                if f.endswith(".so"):
                    shutil.copy(os.path.join(ext, f), os.path.join(dst, "cpnest"))
            open(os.path.join(dst, "ok"), "w").close()
        # keep the cache small
        olds = sorted((os.path.getmtime(os.path.join(CACHE, d)), d) for d in os.listdir(CACHE)
                      if d.startswith(("pkg-", "ext-")) and d not in ("pkg-" + h_all, "ext-" + h_ext))
        for _, d in olds[:-6]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
    return dst


if __name__ == "__main__":
    print(build())
