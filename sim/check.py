"""python -m sim.check P01 [--tier quick|thorough] [--seed N] [--runs N] [--workers N] [--replay FILE]"""
import argparse
import importlib
import os
import shutil
import sys
import tempfile


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--selfcheck", action="store_true", help="prove determinism instead of searching")
    a = ap.parse_args()
    from . import core
    if core.REPO_SRC not in sys.path:
        sys.path.insert(0, core.REPO_SRC)
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="tbsim-", dir=base)
    os.environ["VERIF_SCRATCH"] = scratch
    mpl = os.path.join(scratch, "mpl")
    os.mkdir(mpl)
    os.environ["MPLCONFIGDIR"] = mpl
    for d in ("/opt/vp/mplconfig",):
        if os.path.isdir(d):
            for f in os.listdir(d):
                shutil.copy(os.path.join(d, f), mpl)
    main_pid = os.getpid()
    try:
        mod = importlib.import_module(f"sim.scen.{a.prop.lower()}")
        pkg = importlib.import_module("tight_binding_redweasel")
        assert os.path.dirname(pkg.__file__) + os.sep == core.PKG_DIR, pkg.__file__
        scen = mod.SCENARIO()
        if a.replay:
            return core.do_replay(scen, a.replay)
        if a.selfcheck:
            return selfcheck(core, scen, a)
        return core.check(scen, a.tier, a.seed, a.runs, a.workers, a.wall)
    finally:
        if os.getpid() == main_pid:
            shutil.rmtree(scratch, ignore_errors=True)


def selfcheck(core, scen, a):
    """same seeds twice at different worker counts: identical event logs"""
    n = a.runs or min(40, scen.quick_runs)
    r1, _ = core.run_batch(scen, scen.prop, a.seed, a.tier, n, 8, 600)
    r2, _ = core.run_batch(scen, scen.prop, a.seed, a.tier, n, 3, 600)
    d1 = {r["i"]: (r.get("ctx", {}).get("log"), r.get("violation"), r.get("error")) for r in r1}
    d2 = {r["i"]: (r.get("ctx", {}).get("log"), r.get("violation"), r.get("error")) for r in r2}
    bad = [i for i in d1 if d1[i] != d2.get(i)]
    print(f"selfcheck {scen.prop}: {len(d1)} runs, {len(bad)} differ {bad[:10]}")
    for i in sorted(d1):
        print("log", i, d1[i][0])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
