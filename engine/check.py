#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] | --setup | --all"""
import importlib, os, pkgutil, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import vp.checks  # noqa
from vp import core, build

for m in pkgutil.iter_modules(vp.checks.__path__):
    importlib.import_module("vp.checks." + m.name)


def main(a):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if a and a[0] == "--setup":
        build.facts(["vertigo", "vertigo_cli", "vertigo_macro", "vp_witness"])
        return 0
    if a and a[0] == "--all":
        a = sorted(core.CHECKS)
    if len(a) == 1:
        return core.run_check(a[0], tier)
    try:
        build.facts(sorted({u for p in a for u in core.CHECKS[p][1]}))
    except build.BuildError:
        pass  # reported by each check
    import multiprocessing
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
        return int(any(pool.starmap(core.run_check, [(p, tier) for p in a], chunksize=1)))


sys.exit(main(sys.argv[1:]))
