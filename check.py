#!/usr/bin/env python3
"""check.py <property id> [--replay FILE] [-n N] [--cap S] [--nobuild]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vf  # noqa: E402

a = sys.argv[1:]
pid = a.pop(0)
opt = {}
while a:
    k = a.pop(0)
    if k == "--replay":
        opt["replay"] = a.pop(0)
    elif k == "-n":
        opt["n"] = int(a.pop(0))
    elif k == "--cap":
        opt["cap"] = int(a.pop(0))
    elif k == "--nobuild":
        opt["nobuild"] = True
tier = os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1"))
if "replay" in opt:
    sys.exit(vf.replay(pid, opt["replay"], opt.get("nobuild", False)))
sys.exit(vf.run_property(pid, tier, seed, opt.get("n"), opt.get("cap"), opt.get("nobuild", False)))
