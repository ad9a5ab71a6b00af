#!/opt/veriftools/pyvenv/bin/python3 -B
"""check.py PROPERTY [--tier quick|thorough] [--only REGEX] [-v]"""
import argparse, os, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("VERIF_REEXEC") != "1":
    os.environ["VERIF_REEXEC"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", *sys.argv])
p = argparse.ArgumentParser()
p.add_argument("property")
p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
p.add_argument("--only")
p.add_argument("-v", action="store_true")
a = p.parse_args()
from se import runner

sys.exit(runner.main(a.property, a.tier, a.only, a.v))
