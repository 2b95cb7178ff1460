"""Same seeds, other interpreters: does one seed give one execution?

tools/determinism.py [-n RUNS] [-j JOBS] [ID..]: the event-log hashes of the
first RUNS runs of each property, in four fresh interpreters: plain, another
hash seed, runs in reverse order, and under load with another hash seed"""
import argparse
import concurrent.futures as cf
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WAYS = [("plain", {}, []), ("hash seed 7", {"VSIM_HASHSEED": "7"}, []),
        ("reverse", {}, ["--reverse"]),
        ("hash seed 99, reverse", {"VSIM_HASHSEED": "99"}, ["--reverse"])]


def hashes(prop, env, opts, n):
  r = subprocess.run(
      ["/opt/venv/bin/python", "-B", "check.py", prop, "quick", "--hashes",
       "--runs", str(n), *opts], cwd=HERE, env={**os.environ, **env},
      capture_output=True, text=True, check=False)
  out = {}
  for line in r.stdout.splitlines():
    w = line.split()
    if len(w) == 4 and w[0].isdigit():
      out[int(w[0])] = tuple(w[1:])
  return out, r.returncode, r.stderr[-300:]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("ids", nargs="*")
  ap.add_argument("-n", type=int, default=20)
  ap.add_argument("-j", type=int, default=8)
  a = ap.parse_args()
  with open(os.path.join(HERE, "MANIFEST.json"), encoding="utf-8") as f:
    ids = a.ids or [c["property"] for c in json.load(f)["checks"]]
  bad = 0
  with cf.ThreadPoolExecutor(a.j) as ex:
    jobs = {(p, w[0]): ex.submit(hashes, p, w[1], w[2], a.n)
            for p in ids for w in WAYS}
    for p in ids:
      ref = jobs[p, "plain"].result()
      print(p, "runs", len(ref[0]), "rc", ref[1], end=" ")
      for name, *_ in WAYS[1:]:
        h = jobs[p, name].result()
        diff = [i for i in range(a.n) if h[0].get(i) != ref[0].get(i)]
        bad += bool(diff)
        print("|", name, "differ:" if diff else "same", diff or "", end=" ")
      print(flush=True)
  return 1 if bad else 0


if __name__ == "__main__":
  sys.exit(main())
