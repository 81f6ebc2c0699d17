"""python run.py <PROPERTY> [--tier quick|thorough] | --replay FILE"""
import argparse
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
repo_src = os.environ.get("WULFRIC_SRC", "/repo/src")
sys.path.insert(0, repo_src)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    p.add_argument("--replay")
    p.add_argument("--workers", type=int, default=None)
    p.add_argument("--budget", type=float, default=None)
    a = p.parse_args()
    from vlib import core
    core._silence()
    if a.replay:
        return core.replay(a.replay)
    import wulfric
    src = os.path.realpath(os.path.dirname(wulfric.__file__))
    if not src.startswith(os.path.realpath(repo_src)):
        print(f"HARNESS-ERROR: wulfric imported from {src}", file=sys.stderr)
        return 2
    return core.run_property(a.property, a.tier, a.seed, a.workers, a.budget)


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2  # no verdict
    sys.exit(code)
