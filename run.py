#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

PY = "/opt/vp/venv/bin/python3"
if os.path.realpath(sys.prefix) != "/opt/vp/venv":
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--replay")
a = ap.parse_args()
sys.exit(vp.run_check(a.prop, a.tier, a.seed, a.replay))
