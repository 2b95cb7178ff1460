"""Entry point: check.py <property> [quick|thorough] | --replay FILE |
--selftest. Exit 0: held; 1: VIOLATION; 2: error of the check"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vsim import runner  # noqa: E402


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("property")
  ap.add_argument("tier", nargs="?",
                  default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--replay")
  ap.add_argument("--runs", type=int)
  ap.add_argument("--wall", type=float)
  ap.add_argument("--workers", type=int)
  ap.add_argument("--seed", type=int,
                  default=int(os.environ.get("VERIF_SEED", "1") or 1))
  ap.add_argument("--hashes", action="store_true",
                  help="print the event-log hash of each run (self-test)")
  ap.add_argument("--reverse", action="store_true",
                  help="with --hashes: last run first")
  ap.add_argument("--show", type=int, help="print the log of run INDEX")
  a = ap.parse_args()
  runner.reexec()
  os.environ["VSIM_SCRATCH"] = runner.scratch_root()
  if a.replay:
    rp = os.path.abspath(a.replay)
    mod = runner.load(a.property)
    if hasattr(mod, "prepare"):
      mod.prepare()
    return runner.do_replay(mod, rp)
  if a.hashes or a.show is not None:
    mod = runner.load(a.property)
    if hasattr(mod, "prepare"):
      mod.prepare()
    runner.pristine_start(mod)
    rng = range(a.runs or 20) if a.show is None else [a.show]
    for i in reversed(rng) if a.reverse else rng:
      st, run, info = runner.one_run(
          mod, seed=runner.seed_of(a.property, a.seed, i), tier=a.tier)
      print(i, st, run.log_hash.hexdigest()[:24], len(run.c.trace))
      if a.show is not None:
        print("\n".join(run.log))
        print(info, run.case, dict(run.faults), dict(run.probes))
        if info and "traceback" in info:
          print(info["traceback"])
    return 0
  return runner.check(a.property, a.tier, a.seed, a.runs, a.wall, a.workers)


if __name__ == "__main__":
  sys.exit(main())
