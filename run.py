"""Entry point of the checks: run.py <property-id> | run.py --replay <file>."""
import argparse
import glob
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "JAX_PLATFORMS": "cpu",
    "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
}


def reexec():
    if os.environ.get("_VERIF_CHILD") == "1":
        return
    env = dict(os.environ)
    env.update(_ENV)
    env["_VERIF_CHILD"] = "1"
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


def load_checks(prop=None):
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    sys.path.insert(0, HERE)
    for f in sorted(glob.glob(os.path.join(HERE, "checks", "c[0-9]*.py"))):
        name = os.path.basename(f)[:-3]
        if prop is None or name.upper().startswith((prop.upper(), "C90")):
            importlib.import_module("checks." + name)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--only")
    a = ap.parse_args()
    reexec()
    import json

    sys.path.insert(0, HERE)
    from symx import engine

    if a.replay:
        with open(a.replay) as f:
            prop = json.load(f)["property"]
        load_checks(prop)
        sys.exit(engine.replay(a.replay))
    try:
        load_checks(a.prop)
        if a.only:
            engine.HARNESSES[a.prop] = [h for h in engine.HARNESSES[a.prop] if h.name == a.only]
        rc = engine.main(a.prop, a.tier, a.seed, a.workers)
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
