#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]   decide one property on /repo's current source"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from qsa.world import Check
    from qsa.checks import CHECKS
    import importlib
    import pkgutil
    import qsa.checks as pk
    for m in pkgutil.iter_modules(pk.__path__):
        importlib.import_module("qsa.checks." + m.name)
    f, rule, level = CHECKS[pid]
    try:
        K = Check(pid, tier, seed)
    except SyntaxError as ex:
        print(f"ANALYSIS BROKEN: {ex}")
        return 2
    f(K)
    return K.finish(level, rule)


if __name__ == "__main__":
    sys.exit(main())
