"""Build the code under test from /repo's current working tree.

The tree is copied (without build products) into /verif/.build/<hash>, and the
native extensions are compiled there with the project's own setup.py.  /repo
itself is only read.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
PY = "/opt/venv/bin/python"
ROOT = os.path.join(VERIF, ".build")

SKIP_DIRS = {".git", "build", "__pycache__", "doc", "debian", "examples",
             "environment", "tests"}
GENERATED = {"cexpressions.c"}


def _sources():
    out = []
    for top, dirs, files in os.walk(REPO):
        rel = os.path.relpath(top, REPO)
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS
                         and not (rel == "." and d != "electrode"))
        for f in sorted(files):
            if f.endswith((".so", ".pyc", ".o")) or f in GENERATED:
                continue
            if rel == "." and f not in ("setup.py", "README.rst", "setup.cfg",
                                        "pyproject.toml", "MANIFEST.in"):
                continue
            out.append(os.path.normpath(os.path.join(rel, f)))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def build():
    """Return the directory that holds an importable, freshly built
    `electrode` package of the current tree."""
    files = _sources()
    key = tree_hash(files)
    dest = os.path.join(ROOT, key)
    if os.path.exists(os.path.join(dest, ".complete")):
        return dest
    os.makedirs(ROOT, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=ROOT)
    for f in files:
        d = os.path.join(tmp, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), d)
    env = dict(os.environ, CFLAGS="-DPyUnicode_GetSize=PyUnicode_GetLength",
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=tmp,
                       env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode("utf8", "replace")[-4000:])
        raise BuildError("setup.py build_ext failed")
    shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
    open(os.path.join(tmp, ".complete"), "w").close()
    try:
        os.rename(tmp, dest)
    except OSError:
        if not os.path.exists(os.path.join(dest, ".complete")):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    # keep disk use bounded: drop all but the few newest builds
    olds = sorted((d for d in glob.glob(os.path.join(ROOT, "*"))
                   if os.path.exists(os.path.join(d, ".complete"))),
                  key=os.path.getmtime)
    for d in olds[:-6]:
        if d != dest:
            shutil.rmtree(d, ignore_errors=True)
    return dest


if __name__ == "__main__":
    print(build())
