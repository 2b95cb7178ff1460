"""Saved evaluation results survive"""
from vsim import evalsim

CONFIG = {"runs": 4000, "wall": 35, "thorough_wall": 600, "run_limit": 40,
          "must_probe": ("finished", "resumed-from-checkpoint",
                         "checkpoint-written", "real-test-case")}
RULE = ("As for C08; what every completely written checkpoint and results "
        "file holds is tracked, and after each process killed or stopped "
        "later the file that is resumed from must still hold it, no case in "
        "it may be started again, and no checkpoint may survive complete "
        "results. After a power loss only what is readable on the disk "
        "counts as saved. A run counts if a fault fired.")
REAL = ["scripts/beatsdrop/evaluation.py (argument parsing, test case "
        "context, checkpoints, resume, results)", "pandas CSV reader/writer"]
STUB = ["disk (operations on a scratch directory under simulator control)",
        "process pool (workers are tasks, pickle boundary kept)", "clock",
        "sound generator (sounds are short in a tenth of the runs, where test "
        "cases are the real ones; stubs in the others)",
        "statistical tests", "decision tree, plots"]


def prepare():
  evalsim.prepare()


def scenario(run):
  evalsim.scenario(run, "C09")
