"""Offline set-up: makes Hypothesis importable for /opt/venv and fixes the environment.

Hypothesis is not installed in /opt/venv; the wheel house has it for this Python.
It is unpacked into /verif/.deps (git-ignored) by setup_cmd, and by any check
that does not find it there."""
import glob, os, sys, tempfile, zipfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = os.environ.get("VERIF_WHEELS", "/opt/veriftools/wheels")
REPO = os.environ.get("VERIF_REPO", "/repo")


def ensure_deps():
    if not os.path.exists(os.path.join(DEPS, "hypothesis", "__init__.py")):
        tag = "cp%d%d" % sys.version_info[:2]
        wheels = []
        for pat in ("hypothesis-*-%s-%s-*.whl" % (tag, tag), "sortedcontainers-*.whl", "attrs-*.whl"):
            found = sorted(glob.glob(os.path.join(WHEELS, pat)))
            if not found:
                raise SystemExit("no wheel for %s in %s" % (pat, WHEELS))
            wheels.append(found[-1])
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
        for w in wheels:
            with zipfile.ZipFile(w) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:  # someone else was faster
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


def setup_env():
    """Environment of every run; must come before numpy is imported."""
    env = {"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
           "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1"}
    os.environ.update(env)
    sys.dont_write_bytecode = True


def prefer_repo():
    sys.path.insert(0, REPO)
    import pypfopt
    real = os.path.realpath(os.path.dirname(pypfopt.__file__))
    want = os.path.realpath(os.path.join(REPO, "pypfopt"))
    if real != want:
        raise SystemExit("pypfopt was imported from %s, not %s" % (real, want))


def pin_osqp():
    """OSQP adapts rho at wall-clock intervals; 100 iterations (its timer-free
    default) makes runs repeatable. An interval given by the caller is kept."""
    import osqp
    orig = osqp.OSQP.setup

    def setup(self, *a, **k):
        k.setdefault("adaptive_rho_interval", 100)
        return orig(self, *a, **k)

    osqp.OSQP.setup = setup
