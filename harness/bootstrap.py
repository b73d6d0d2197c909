"""Make the code under test importable from /repo's current working tree.

The Python modules are imported straight from /repo; the Fortran extension is
compiled from /repo/ccblade/src into a build directory outside /repo that is
keyed by a hash of the sources, and served as ``ccblade._bem``.
Nothing is ever written below /repo.
"""
import fcntl
import glob
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import warnings

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PY = "/opt/venv/bin/python"

ENV = dict(
    PYTHONDONTWRITEBYTECODE="1",
    OPENBLAS_NUM_THREADS="1",
    OMP_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
    OPENMDAO_REPORTS="0",
    OPENMDAO_USE_MPI="0",
)


class HarnessError(Exception):
    """Something that is not the property's business went wrong (exit code 2)."""


def _sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "ccblade")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".f90", ".f", ".c", ".h")) or f == "meson.build":
                out.append(os.path.join(root, f))
    for f in ("meson.build", "meson_options.txt"):
        out.append(os.path.join(REPO, f))
    return out


def source_hash():
    h = hashlib.sha256()
    for p in _sources():
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def build_root():
    root = os.path.join(VERIF, "build")
    try:
        os.makedirs(root, exist_ok=True)
        probe = os.path.join(root, ".probe%d" % os.getpid())
        open(probe, "w").close()
        os.remove(probe)
        return root
    except OSError:
        root = "/tmp/ccblade-verif-build"
        os.makedirs(root, exist_ok=True)
        return root


def ensure_extension():
    """Return the path of a _bem extension compiled from the current sources."""
    root = build_root()
    key = source_hash()
    dest = os.path.join(root, key)

    def ready():
        so = glob.glob(os.path.join(dest, "_bem*.so"))
        return so[0] if so and os.path.exists(os.path.join(dest, "ok")) else None

    if ready():
        return ready()
    with open(os.path.join(root, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if ready():
            return ready()
        # keep the cache small
        for d in os.listdir(root):
            p = os.path.join(root, d)
            if os.path.isdir(p) and d != key and len(os.listdir(root)) > 8:
                shutil.rmtree(p, ignore_errors=True)
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        os.makedirs(dest)
        bdir = os.path.join(dest, "meson")
        env = dict(os.environ, **ENV)
        env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/local/bin:/usr/bin:/bin")
        env.setdefault("HOME", "/root")
        env["CC"] = "gcc"
        env["FC"] = "gfortran"
        log = []
        for cmd in (
            ["meson", "setup", bdir, REPO, "-Dpython_target=" + PY, "-Dpython.purelibdir=.", "-Dpython.platlibdir=.",
             "--prefix=" + os.path.join(dest, "inst")],
            ["meson", "compile", "-C", bdir],
        ):
            p = subprocess.run(cmd, cwd=dest, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            log.append(p.stdout)
            if p.returncode:
                shutil.rmtree(dest, ignore_errors=True)
                raise HarnessError("the Fortran extension does not build:\n" + "\n".join(log)[-3000:])
        so = glob.glob(os.path.join(bdir, "ccblade", "_bem*.so"))
        if not so:
            raise HarnessError("no _bem extension produced")
        out = os.path.join(dest, os.path.basename(so[0]))
        shutil.copy(so[0], out)
        shutil.rmtree(bdir, ignore_errors=True)
        open(os.path.join(dest, "ok"), "w").close()
        return out


class _BemFinder:
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name == "ccblade._bem":
            loader = importlib.machinery.ExtensionFileLoader(name, self.path)
            return importlib.util.spec_from_file_location(name, self.path, loader=loader)
        return None


_done = False


def setup():
    """Idempotent: environment, extension, sys.path."""
    global _done
    if _done:
        return
    sys.dont_write_bytecode = True
    for k, v in ENV.items():
        os.environ[k] = v
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    so = ensure_extension()
    sys.meta_path.insert(0, _BemFinder(so))
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import ccblade  # noqa

    if os.path.dirname(os.path.abspath(ccblade.__file__)) != os.path.join(REPO, "ccblade"):
        raise HarnessError("ccblade imported from %s" % ccblade.__file__)
    import ccblade._bem as b

    if os.path.abspath(b.__file__) != os.path.abspath(so):
        raise HarnessError("ccblade._bem imported from %s" % b.__file__)
    _done = True
