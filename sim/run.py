#!/opt/venv/bin/python
"""check <ID> [--tier T] [--seed S] [--workers W] | replay <file>"""
import os
import sys

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") is None or os.environ.get("_SIM_ENV") != "1":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sim.engine import PINNED
    env = dict(os.environ)
    env.update(PINNED)
    env.setdefault("PYTHONHASHSEED", "0")
    env["_SIM_ENV"] = "1"
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", "-W", "ignore"] + sys.argv, env)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import argparse  # noqa: E402

from sim import engine  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("cmd", choices=["check", "replay"])
ap.add_argument("target")
ap.add_argument("--tier")
ap.add_argument("--seed", type=int)
ap.add_argument("--workers", type=int)
a = ap.parse_args()
if a.cmd == "check":
    sys.exit(engine.check(a.target, a.tier, a.seed, a.workers))
sys.exit(engine.replay(a.target))
