#!/usr/bin/env python3
"""check.py ID... [--tier quick|thorough] | --all | --list"""
import argparse, glob, importlib, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "rules")]
sys.dont_write_bytecode = True
import core

for f in sorted(glob.glob(os.path.join(HERE, "rules", "*.py"))):
    importlib.import_module(os.path.basename(f)[:-3])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    ids = sorted(core.REGISTRY) if a.all else a.ids
    if a.list:
        print(*sorted(core.REGISTRY), sep="\n")
        return 0
    rc = 0
    for i in ids:
        if i not in core.REGISTRY:
            print(f"no check for {i}")
            return 2
        rc = max(rc, core.run(i, "thorough" if a.tier == "thorough" else "quick"))
    return rc


sys.exit(main())
