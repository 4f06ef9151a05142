#!/usr/bin/env python3
"""check.py P07 [quick|thorough]   -- run one check;  check.py setup -- prebuild;  check.py all"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

def main():
    what = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    from vlib import core
    if what == "setup":
        for c in core.CONFIGS:
            core.build(c)
            print("built", c)
        core.build("f64", fast=True)
        from vlib import p19
        p19.third_party()
        return 0
    mod = importlib.import_module("vlib." + what.lower())
    return core.main(mod)

if __name__ == "__main__":
    sys.exit(main())
