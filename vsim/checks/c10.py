"""A failing test case affects only itself"""
from vsim import evalsim

CONFIG = {"runs": 4000, "wall": 35, "thorough_wall": 600, "run_limit": 40,
          "must_probe": ("finished", "failure-logged",
                         "checkpoint-written", "real-test-case")}
RULE = ("As for C08, with a third of the test cases failing once, twice or "
        "always, with and without logging of exceptions. A failure must end "
        "the evaluation if and only if it is not logged, be written in its "
        "log, leave every other case as it would be, and be tried again by "
        "the next run. A run counts if a fault fired.")
REAL = ["scripts/beatsdrop/evaluation.py (argument parsing, test case "
        "context, checkpoints, resume, results)", "pandas CSV reader/writer"]
STUB = ["disk (operations on a scratch directory under simulator control)",
        "process pool (workers are tasks, pickle boundary kept)", "clock",
        "sound generator (sounds are short in a tenth of the runs, where test "
        "cases are the real ones; stubs in the others)",
        "statistical tests", "decision tree, plots"]


def prepare():
  evalsim.prepare()


def scenario(run):
  evalsim.scenario(run, "C10")
