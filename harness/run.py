#!/opt/venv/bin/python
"""run.py C01 [--replay FILE] [--scale X] [--only SUB] [--jobs N]; see DESIGN.md."""
import argparse, importlib, os, shutil, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from harness import bootstrap

VENV = "/opt/venv/bin/python"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    bootstrap.setup_env()
    bootstrap.ensure_deps()
    if a.pid == "setup":
        import hypothesis
        print("hypothesis", hypothesis.__version__, "ready")
        return 0
    mpl = tempfile.mkdtemp(prefix="verif-mpl-")
    os.environ["MPLCONFIGDIR"] = mpl
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = mpl
    try:
        bootstrap.prefer_repo()
        bootstrap.pin_osqp()
        from harness import core
        prop = importlib.import_module("harness.props." + a.pid.lower()).PROP
        if a.replay:
            return core.replay(prop, a.replay)
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return core.run_property(prop, tier, seed, a.scale, a.jobs, a.only)
    finally:
        shutil.rmtree(mpl, ignore_errors=True)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0" or sys.prefix != "/opt/venv":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(VENV, [VENV, "-B"] + sys.argv)
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
