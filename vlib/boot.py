"""Prepare an isolated environment in which the code of /repo's *current* tree is imported.

Nothing is written outside one scratch directory, which is removed at exit.
If the compiled extensions in /repo are not those of the current sources (by
content), a scratch copy of the package is built and imported instead.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = '/repo'
PY = '/opt/venv/bin/python'
DIRS = ("shenfun/optimization/cython", "shenfun/legendre/fastgl")


def ext_state(root):
    """Same fingerprint as /opt/vp/stamps.py: content of every extension source."""
    shared = ["setup.py"]
    rel = lambda p: os.path.relpath(p, root)
    for d in DIRS:
        d = os.path.join(root, d)
        shared += [rel(p) for e in ("*.pxd", "*.pxi", "*.h") for p in glob.glob(d + "/" + e)]
        for e in ("*.c", "*.cpp"):
            for f in glob.glob(d + "/" + e):
                with open(f, "rb") as fh:
                    if b"Generated by Cython" not in fh.readline():
                        shared.append(rel(f))
    common = b""
    for n in sorted(shared):
        p = os.path.join(root, n)
        if os.path.exists(p):
            common += n.encode() + open(p, "rb").read()
    out = {}
    for d in DIRS:
        for p in sorted(glob.glob(os.path.join(root, d, "*.pyx"))):
            out[rel(p)] = hashlib.sha256(common + open(p, "rb").read()).hexdigest()
    return out


def ext_fresh(root):
    new = ext_state(root)
    try:
        with open(os.path.join(root, "build/stamps.json")) as f:
            old = json.load(f)
    except (OSError, ValueError):
        return False
    if old != new:
        return False
    return all(glob.glob(os.path.join(root, p[:-4]) + ".cpython-*.so") for p in new)


def build_copy(scratch):
    """Copy the sources (no build products) and build the extensions there."""
    dst = os.path.join(scratch, "tree")

    def ignore(d, names):
        return [n for n in names if n == '__pycache__' or n.endswith('.so')
                or n.endswith('.pyc')]
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, "shenfun"), os.path.join(dst, "shenfun"), ignore=ignore)
    for d in DIRS:      # generated C of an older tree must not be taken for current
        for e in ("*.c", "*.cpp"):
            for f in glob.glob(os.path.join(dst, d, e)):
                with open(f, "rb") as fh:
                    gen = b"Generated by Cython" in fh.readline()
                if gen:
                    os.remove(f)
    for n in os.listdir(REPO):
        p = os.path.join(REPO, n)
        if os.path.isfile(p):
            shutil.copy2(p, dst)
    env = dict(os.environ, CFLAGS="-w", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j", "8"], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        raise SystemExit("building the extensions of /repo's tree failed")
    return dst


def make_env():
    """Return (scratch dir, environment, tree) for worker processes."""
    scratch = tempfile.mkdtemp(prefix="verif_")
    tree = REPO if ext_fresh(REPO) else build_copy(scratch)
    env = dict(os.environ)
    for d in ("home", "numba", "cwd"):
        os.makedirs(os.path.join(scratch, d))
    env.update(HOME=os.path.join(scratch, "home"),
               NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NUMBA_NUM_THREADS="1", PYTHONWARNINGS="ignore",
               OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
               OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_btl_base_warn_component_unused="0",
               VERIF_SCRATCH=scratch, VERIF_TREE=tree,
               PYTHONPATH=os.pathsep.join([tree, "/verif" if os.path.isdir("/verif") else os.getcwd()]))
    return scratch, env, tree


def find_hypothesis():
    """hypothesis is not in the interpreter that runs shenfun; take it from the
    tools' environment (or from the offline wheel) without shadowing anything."""
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    import zipfile
    dst = os.path.join(os.environ.get("VERIF_SCRATCH", tempfile.gettempdir()), "hyp")
    if not os.path.isdir(dst):
        tmp = dst + ".%d" % os.getpid()
        os.makedirs(tmp)
        whl = (glob.glob("/opt/veriftools/wheels/hypothesis-*cp312*.whl")
               + glob.glob("/opt/veriftools/wheels/sortedcontainers-*.whl")
               + glob.glob("/opt/veriftools/wheels/attrs-*.whl"))
        for w in whl:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.path.append(dst)
    try:
        import hypothesis  # noqa
    except ImportError:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import hypothesis  # noqa
