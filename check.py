#!/usr/bin/env python3-vt
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"

from vf import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    ctx = core.Ctx(a.prop, a.tier if a.tier in ("quick", "thorough") else "quick", seed)
    ctx.only = a.only
    spec = importlib.import_module("specs." + a.prop)
    level = getattr(spec, "LEVEL", "proof")
    spec.build(ctx)
    ctx.run()
    if a.list:
        for r in ctx.records:
            print(r["status"], r["id"], "%.2f" % r.get("secs", 0), str(r.get("detail"))[:160])
    sys.exit(ctx.finish(level))


if __name__ == "__main__":
    main()
