"""Runs the repository's unit tests on the instrumented modules, without any symbolic value."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from se import instrument
instrument.install({"strong_typing": REPO, "tests": REPO})
import unittest
os.chdir(REPO)
sys.path.insert(0, REPO)
suite = unittest.defaultTestLoader.discover("tests", top_level_dir=".")
r = unittest.TextTestRunner(verbosity=1).run(suite)
sys.exit(not r.wasSuccessful())
