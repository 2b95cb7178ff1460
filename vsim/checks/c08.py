"""An interrupted evaluation, resumed, gives the uninterrupted results"""
from vsim import evalsim

CONFIG = {"runs": 4000, "wall": 35, "thorough_wall": 600, "run_limit": 40,
          "must_probe": ("finished", "resumed-from-checkpoint",
                         "checkpoint-written", "real-test-case")}
RULE = ("An evaluation (beat regression, decision or FFT variant, 1-9 "
        "cases, 1-3 workers, any checkpoint period) is run as a sequence of "
        "up to four simulated processes, each ended by a kill or power loss "
        "at a seeded disk operation (writes may be torn), an interrupt, a "
        "failing test case, a full disk or an I/O error, or not at all; the "
        "arguments may ask for more cases or not to resume. Then faults "
        "stop and it is run to its end; every run that ends well must have "
        "left complete and correct results and reports, and it must end. "
        "Directory listings, worker interleaving and delivery order are "
        "seeded. A run counts if a fault fired; distinct runs are told "
        "apart by the hash of scheduling and fault decisions.")
REAL = ["scripts/beatsdrop/evaluation.py (argument parsing, test case "
        "context, checkpoints, resume, results)", "pandas CSV reader/writer"]
STUB = ["disk (operations on a scratch directory under simulator control)",
        "process pool (workers are tasks, pickle boundary kept)", "clock",
        "sound generator (sounds are short in a tenth of the runs, where test "
        "cases are the real ones; stubs in the others)",
        "statistical tests", "decision tree, plots"]


def prepare():
  evalsim.prepare()


def scenario(run):
  evalsim.scenario(run, "C08")
