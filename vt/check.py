#!/usr/bin/env python3
"""check.py <property>: decide one property for /repo's current tree."""
import os, shutil, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
import build as B
import core
import registry


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    sys.stderr.reconfigure(errors="backslashreplace")
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    spec = registry.PROPS[prop]
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
        shutil.disk_usage("/dev/shm").free > (1 << 30) else None
    core.SCRATCH_ROOT = tempfile.mkdtemp(prefix=f"vt-{prop}-", dir=base)
    try:
        return spec.run(prop, tier, seed, t0)
    except B.BuildError as e:
        print(f"{prop}: inconclusive: the tree does not build\n{str(e)[-1500:]}")
        return 2
    finally:
        shutil.rmtree(core.SCRATCH_ROOT, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
