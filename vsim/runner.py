"""Seeded search over many runs in forked workers, minimisation, replay in a
fresh process, known findings and evidence"""
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback
import warnings

from vsim import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONNOUSERSITE": "1",
    "MPLBACKEND": "Agg",
    "SDL_VIDEODRIVER": "dummy",
    "SDL_AUDIODRIVER": "dummy",
    "PYGAME_HIDE_SUPPORT_PROMPT": "1",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "LANG": "C.UTF-8",
    "LC_ALL": "C.UTF-8",
    "TZ": "UTC",
}


def reexec():
  """Run under the pinned interpreter and environment"""
  hs = os.environ.get("VSIM_HASHSEED")
  want = dict(ENV)
  if hs:
    want["PYTHONHASHSEED"] = hs
  if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") or any(
      os.environ.get(k) != v for k, v in want.items()):
    env = dict(os.environ, **want)
    env.pop("PYTHONPATH", None)
    os.execve(PY, [PY, "-B", *sys.argv], env)


def load(pid):
  from vsim import threads
  threads.install()
  sys.path.insert(0, core.REPO)
  os.chdir(core.REPO)
  return importlib.import_module(f"vsim.checks.{pid.lower()}")


def seed_of(pid, vseed, index):
  h = hashlib.sha256(f"{pid}:{vseed}:{index}".encode()).digest()
  return int.from_bytes(h[:8], "big")


_FROZEN = []


def one_run(mod, seed=None, replay=None, tier="quick"):
  """Execute one simulation. Returns (status, run, info): status is one of
  ok, discard, violation, harness"""
  import random as _random

  import numpy as np
  run = core.Run(seed=seed, replay=replay, tier=tier)
  _random.seed(12345)
  np.random.seed(12345)
  core.ENTROPY[0] = 0
  real_rng = np.random.default_rng

  def default_rng(seed=None):
    if seed is None:  # OS entropy goes behind the seam
      core.ENTROPY[0] += 1
      seed = (987654321, core.ENTROPY[0])
    return real_rng(seed)

  gc.collect()
  if not _FROZEN:
    _FROZEN.append(1)
    gc.freeze()  # what is alive before the first run is not scanned again
  gc.disable()
  info = None
  try:
    with core.patched((np.random, "default_rng", default_rng)):
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mod.scenario(run)
    status = "ok"
  except core.Discard as e:
    status, info = "discard", str(e)
  except core.Violation as e:
    status, info = "violation", {"class": e.cls, "message": e.msg}
  except core.SimUnsupported as e:
    status = "harness"
    info = {"class": "unsupported", "message": str(e),
            "traceback": traceback.format_exc()}
  except Exception as e:  # pylint: disable=W0718
    site = core.sut_site(e)
    if site is not None:
      status = "violation"
      info = {"class": "unexpected-exception",
              "message": f"{type(e).__name__}: {e} at {site}",
              "traceback": traceback.format_exc()}
    else:
      status = "harness"
      info = {"class": type(e).__name__, "message": str(e),
              "traceback": traceback.format_exc()}
  except BaseException as e:  # pylint: disable=W0718
    status = "harness"
    info = {"class": type(e).__name__, "message": str(e),
            "traceback": traceback.format_exc()}
  finally:
    gc.enable()
  run.ev("END", status, info and (info if isinstance(info, str)
                                 else info["class"]))
  return status, run, info


class Cold:
  """What a run in a process of its own has left"""

  def __init__(self, run):
    self.n_events, self.now = run.n_events, run.now
    self.c = core.Chooser(replay=run.c.trace)
    self.c.trace = list(run.c.trace)
    self.faults, self.probes = dict(run.faults), dict(run.probes)
    self.schedule = run.schedule_hash.hexdigest()
    self.hash = run.log_hash.hexdigest()
    self.states, self.nontrivial = set(run.states), run.nontrivial
    self.case, self.log = run.case, list(run.log)[:25]


def cold_run(mod, seed, tier, limit, errlog):
  """Run where no other run took place before in the process"""
  import pickle
  r, w = os.pipe()
  sys.stdout.flush()
  sys.stderr.flush()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      faulthandler.dump_traceback_later(limit, exit=True, file=errlog)
      status, run, info = one_run(mod, seed=seed, tier=tier)
      with os.fdopen(w, "wb") as f:
        try:
          data = pickle.dumps((status, Cold(run), info))
        except Exception:  # pylint: disable=W0718
          run.case = str(run.case)
          data = pickle.dumps((status, Cold(run), info))
        f.write(data)
      os._exit(0)
    except BaseException:  # pylint: disable=W0718
      traceback.print_exc()
    finally:
      os._exit(1)
  os.close(w)
  with os.fdopen(r, "rb") as f:
    data = f.read()
  os.waitpid(pid, 0)
  return pickle.loads(data)


def read_known():
  """known_findings.txt: lines `finding: property=<id> class=<cls> <text>`"""
  out = {}
  path = os.path.join(VERIF, "known_findings.txt")
  if os.path.exists(path):
    for line in open(path, encoding="utf-8"):
      if line.startswith("finding:"):
        kv = dict(p.split("=", 1) for p in line.split()[1:3])
        text = " ".join(line.split()[3:])
        out[kv["property"], kv["class"]] = text
  return out


def _worker(mod, pid, vseed, tier, wid, nw, n_runs, wall, wfd, run_limit):
  """Forked search worker: one JSON line per event on wfd"""
  known = read_known()
  out = os.fdopen(wfd, "w", buffering=1)
  t0 = time.monotonic()
  cold = getattr(mod, "COLD", 0.1)
  agg = {"runs": 0, "cold": 0, "discards": 0, "events": 0, "choices": 0,
         "sim_s": 0.0, "faults": {}, "probes": {}, "interleavings": [], "states": [],
         "nontrivial": [], "samples": [], "known": {}}
  inter, states, nontriv = set(), set(), set()
  errlog = open(os.path.join(scratch_root(), f"hang-{pid}-{wid}.txt"), "w+",
                encoding="utf-8")
  i = wid
  while i < n_runs and time.monotonic() - t0 < wall:
    seed = seed_of(pid, vseed, i)
    out.write(json.dumps({"start": i}) + "\n")
    if time.monotonic() - t0 < cold * wall:
      status, run, info = cold_run(mod, seed, tier, run_limit, errlog)
      agg["cold"] += 1
    else:
      faulthandler.dump_traceback_later(run_limit, exit=True, file=errlog)
      status, run, info = one_run(mod, seed=seed, tier=tier)
      faulthandler.cancel_dump_traceback_later()
      run = Cold(run)
    agg["runs"] += 1
    agg["events"] += run.n_events
    agg["choices"] += len(run.c.trace)
    agg["sim_s"] += run.now
    for k, v in run.faults.items():
      agg["faults"][k] = agg["faults"].get(k, 0) + v
    for k, v in run.probes.items():
      agg["probes"][k] = agg["probes"].get(k, 0) + v
    inter.add(run.schedule[:16])
    if len(states) < 200000:
      states |= run.states
    if status == "discard":
      agg["discards"] += 1
    elif run.nontrivial:
      nontriv.add(run.hash[:16])
    if len(agg["samples"]) < 2 and status == "ok" and run.nontrivial:
      agg["samples"].append({"seed": seed, "case": run.case,
                             "log_head": run.log})
    if status in ("violation", "harness"):
      if status == "violation" and (pid, info["class"]) in known:
        agg["known"][info["class"]] = agg["known"].get(info["class"], 0) + 1
      else:
        out.write(json.dumps({"bad": status, "index": i, "seed": seed,
                              "trace": run.c.trace, "info": info}) + "\n")
        break
    i += nw
  agg["interleavings"] = sorted(inter)
  agg["states"] = sorted(states)
  agg["nontrivial"] = sorted(nontriv)
  agg["wall"] = time.monotonic() - t0
  out.write(json.dumps({"agg": agg}) + "\n")
  out.close()


_SCRATCH = None


def scratch_root():
  """Scratch directory of this invocation (removed at exit)"""
  global _SCRATCH
  if _SCRATCH is None:
    base = os.environ.get("VSIM_SCRATCH")
    if base is None:
      import atexit
      import shutil
      import tempfile
      base = tempfile.mkdtemp(
          prefix="vsim-", dir="/dev/shm" if os.access(
              "/dev/shm", os.W_OK) else None)
      me = os.getpid()

      def clean():
        if os.getpid() == me:
          shutil.rmtree(base, ignore_errors=True)

      atexit.register(clean)
    _SCRATCH = base
  return _SCRATCH


def search(mod, pid, vseed, tier, n_runs, wall, nw, run_limit):
  """Returns (aggregate, bad): bad is None or the first failing run"""
  scratch_root()
  procs = {}
  for w in range(nw):
    r, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid_ = os.fork()
    if pid_ == 0:
      code = 1
      try:
        os.close(r)
        os.setpgid(0, 0)
        for p in procs.values():
          os.close(p["fd"])
        _worker(mod, pid, vseed, tier, w, nw, n_runs, wall, wfd, run_limit)
        code = 0
      except BaseException:  # pylint: disable=W0718
        traceback.print_exc()
      finally:
        os._exit(code)
    os.close(wfd)
    procs[r] = {"pid": pid_, "fd": r, "buf": b"", "start": None, "w": w}
  aggs, bads = [], []
  live = dict(procs)
  deadline = time.monotonic() + wall + 4 * run_limit + 60
  stop_at = None
  while live:
    ready, _, _ = select.select(list(live), [], [], 1.0)
    for fd in ready:
      p = live[fd]
      data = os.read(fd, 1 << 20)
      if not data:
        _, st = os.waitpid(p["pid"], 0)
        del live[fd]
        os.close(fd)
        if not p.get("agg"):
          hang = ""
          path = os.path.join(scratch_root(), f"hang-{pid}-{p['w']}.txt")
          if os.path.exists(path):
            hang = open(path, encoding="utf-8").read()
          if p.get("killed"):
            continue
          bads.append({
              "bad": "hang" if "Timeout" in hang else "died",
              "index": p["start"], "seed": None if p["start"] is None else
              seed_of(pid, vseed, p["start"]), "trace": None,
              "info": {"class": "hang", "message": f"status {st}",
                       "traceback": hang[-6000:]}})
        continue
      p["buf"] += data
      while b"\n" in p["buf"]:
        line, p["buf"] = p["buf"].split(b"\n", 1)
        d = json.loads(line)
        if "start" in d:
          p["start"] = d["start"]
        elif "agg" in d:
          p["agg"] = True
          aggs.append(d["agg"])
        else:
          bads.append(d)
    if bads and stop_at is None:
      stop_at = time.monotonic() + 1.0
    now = time.monotonic()
    if (stop_at is not None and now > stop_at) or now > deadline:
      for p in live.values():
        if not p.get("killed"):
          p["killed"] = True
          try:
            os.killpg(p["pid"], signal.SIGKILL)
          except ProcessLookupError:
            pass
      if now > deadline and not bads:
        bads.append({"bad": "harness", "index": None, "seed": None,
                     "trace": None, "info": {"class": "batch-timeout",
                                             "message": ""}})
  agg = {"runs": 0, "cold": 0, "discards": 0, "events": 0, "choices": 0,
         "sim_s": 0.0, "faults": {}, "probes": {}, "samples": [], "known": {}, "wall": 0.0}
  inter, states, nontriv = set(), set(), set()
  for a in aggs:
    for k in ("runs", "cold", "discards", "events", "choices", "sim_s"):
      agg[k] += a[k]
    for k in ("faults", "probes", "known"):
      for kk, v in a[k].items():
        agg[k][kk] = agg[k].get(kk, 0) + v
    inter |= set(a["interleavings"])
    states |= set(a["states"])
    nontriv |= set(a["nontrivial"])
    agg["samples"] += a["samples"]
    agg["wall"] = max(agg["wall"], a["wall"])
  agg["interleavings"] = len(inter)
  agg["states"] = len(states)
  agg["nontrivial"] = len(nontriv)
  agg["samples"] = agg["samples"][:4]
  order = {"violation": 0, "hang": 1, "died": 2, "harness": 3}
  bads.sort(key=lambda b: (order[b["bad"]], b["index"] or 0))
  return agg, (bads[0] if bads else None)


def isolated(fn, timeout):
  """Run fn in a forked child; returns its JSON-able result or None"""
  r, w = os.pipe()
  sys.stdout.flush()
  sys.stderr.flush()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      os.setpgid(0, 0)
      res = fn()
      with os.fdopen(w, "w") as f:
        json.dump(res, f)
      os._exit(0)
    except BaseException:  # pylint: disable=W0718
      traceback.print_exc()
    finally:
      os._exit(1)
  os.close(w)
  buf = b""
  end = time.monotonic() + timeout
  while True:
    left = end - time.monotonic()
    if left <= 0:
      break
    ready, _, _ = select.select([r], [], [], left)
    if ready:
      d = os.read(r, 1 << 20)
      if not d:
        break
      buf += d
  try:
    os.killpg(pid, signal.SIGKILL)
  except (ProcessLookupError, PermissionError):
    pass
  os.waitpid(pid, 0)
  os.close(r)
  try:
    return json.loads(buf)
  except ValueError:
    return None


_PRISTINE = None


def pristine_start(mod):
  """A process in which no run has taken place, to ask for results"""
  global _PRISTINE
  import ctypes
  import pickle
  import socket
  if not getattr(mod, "PRISTINE", False):
    return
  path = os.path.join(scratch_root(), f"pristine-{os.getpid()}")
  srv = socket.socket(socket.AF_UNIX)
  srv.bind(path)
  srv.listen(64)
  sys.stdout.flush()
  sys.stderr.flush()
  me = os.getpid()
  if os.fork():
    srv.close()
    _PRISTINE = path
    return
  try:
    os.setpgid(0, 0)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # not to outlive the parent
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    gc.collect()
    gc.freeze()
    while os.getppid() == me:
      con, _ = srv.accept()
      if os.fork():
        con.close()
        continue
      srv.close()
      signal.signal(signal.SIGCHLD, signal.SIG_DFL)
      signal.alarm(60)
      with con.makefile("rwb") as f:
        name, args = pickle.load(f)
        out = []

        def scenario(run):
          with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out.append(getattr(mod, name)(run, *args[1:]))

        ask = type("Ask", (), {"scenario": staticmethod(scenario)})
        status, _, info = one_run(ask, replay=args[0])
        pickle.dump((status, info, out), f)
        f.flush()
      os._exit(0)
  except BaseException:  # pylint: disable=W0718
    traceback.print_exc()
  finally:
    os._exit(1)


def pristine(name, trace, *args):
  """What function `name` of the check gives where nothing ran before"""
  import pickle
  import socket
  with socket.socket(socket.AF_UNIX) as con:
    con.connect(_PRISTINE)
    with con.makefile("rwb") as f:
      pickle.dump((name, (trace, *args)), f)
      f.flush()
      status, info, out = pickle.load(f)
  if status != "ok":
    raise RuntimeError(f"pristine process: {status} {info}")
  return out[0]


def shrink(mod, trace, cls, tier, budget):
  """Greedy minimisation of the choice sequence, same violation class"""
  end = time.monotonic() + budget
  best = list(trace)
  tries = 0
  tail = [0]

  def fails(t):
    nonlocal tries
    if time.monotonic() > end:
      return False
    tries += 1
    status, run, info = one_run(mod, replay=t, tier=tier)
    if status == "violation" and info["class"] == cls:
      tail[0] = len(run.c.trace)
      return True
    return False

  def strip(t):
    t = list(t)
    while t and t[-1] == 0:
      t.pop()
    return t

  best = strip(best)
  if not fails(best):
    return list(trace), tries
  improved = True
  while improved and time.monotonic() < end:
    improved = False
    size = max(1, len(best) // 2)
    while size >= 1 and time.monotonic() < end:
      i = 0
      while i < len(best) and time.monotonic() < end:
        cand = strip(best[:i] + best[i + size:])
        if len(cand) < len(best) and fails(cand):
          best = cand
          improved = True
          continue
        if any(best[i:i + size]):
          cand = strip(best[:i] + [0] * len(best[i:i + size]) +
                       best[i + size:])
          if fails(cand):
            best = cand
            improved = True
        i += size
      size //= 2
    for i in range(len(best)):
      if i >= len(best):
        break
      lo, hi = 0, best[i]
      while lo < hi and time.monotonic() < end:
        mid = (lo + hi) // 2
        cand = best[:i] + [mid] + best[i + 1:]
        if fails(cand):
          best = cand
          hi = mid
          improved = True
        else:
          lo = mid + 1
      best = strip(best)
  return best, tries


def do_replay(mod, path):
  """Replay a file in this process"""
  rep = json.load(open(path, encoding="utf-8"))
  faulthandler.dump_traceback_later(rep.get("limit", 120), exit=True)
  pristine_start(mod)
  for seed in rep.get("before", ()):  # earlier runs of the same process
    one_run(mod, seed=seed, tier=rep.get("tier", "quick"))
  status, run, info = one_run(mod, replay=rep["choices"],
                              tier=rep.get("tier", "quick"))
  faulthandler.cancel_dump_traceback_later()
  print(json.dumps({"status": status, "info": info,
                    "log_hash": run.log_hash.hexdigest(),
                    "log": list(run.log)[-200:]}))
  return 1 if status == "violation" else (0 if status in ("ok", "discard")
                                          else 2)


def fresh_replay(pid, path, timeout=240):
  p = subprocess.run([PY, "-B", os.path.join(VERIF, "check.py"), pid,
                      "--replay", path], capture_output=True, text=True,
                     timeout=timeout, env={**os.environ, **ENV}, check=False)
  for line in reversed(p.stdout.splitlines()):
    if line.startswith("{"):
      return json.loads(line), p
  return None, p


def check(pid, tier, vseed, n_runs=None, wall=None, nw=None, quiet=False):
  t0 = time.monotonic()
  mod = load(pid)
  if hasattr(mod, "prepare"):
    mod.prepare()
  cfg = mod.CONFIG
  deep = tier == "thorough"
  n_runs = n_runs or (10**9 if deep else cfg["runs"])
  wall = wall or (cfg.get("thorough_wall", 600) if deep else
                  cfg.get("wall", 40))
  run_limit = cfg.get("run_limit", 60)
  nw = nw or min(8, os.cpu_count() or 8)
  scratch = scratch_root()
  os.environ["VSIM_SCRATCH"] = scratch
  pristine_start(mod)
  agg, bad = search(mod, pid, vseed, tier, n_runs, wall, nw, run_limit)
  rc = 0
  lines = []
  if bad is not None:
    before = [] if bad["index"] is None else [
        seed_of(pid, vseed, k) for k in range(bad["index"] % nw, bad["index"],
                                              nw)]
    rc = report(mod, pid, tier, bad, lines, run_limit, before)
  known = read_known()
  for (p, cls), text in known.items():
    if p == pid:
      lines.append(f"KNOWN-FINDING: property={pid} {cls}: {text} (hit "
                   f"{agg['known'].get(cls, 0)} times in this run)")
  if rc == 0 and agg["runs"] == 0:
    lines.append("HARNESS-ERROR no run completed")
    rc = 2
  if rc == 0:
    zero = [p for p in cfg.get("must_probe", ()) if not agg["probes"].get(p)]
    if zero:
      # Reach was lost: report it, but it is not a violation
      lines.append(f"WARNING reach probes stuck at zero: {zero}")
  wall_s = time.monotonic() - t0
  search_wall = max(agg["wall"], 1e-6)
  ev = {
      "property": pid,
      "tier": tier,
      "seed": vseed,
      "level": getattr(mod, "LEVEL", "exploration"),
      "coverage": {
          "evaluations": agg["runs"],
          "distinct_nontrivial": agg["nontrivial"],
          "rule": mod.RULE,
          "samples": agg["samples"],
          "simulated_runs": agg["runs"],
          "discarded_runs": agg["discards"],
          "runs_in_a_new_process": agg["cold"],
          "seeds_per_hour": round(agg["runs"] / search_wall * 3600),
          "simulated_seconds": round(agg["sim_s"], 3),
          "faults_injected": agg["faults"],
          "distinct_interleavings": agg["interleavings"],
          "interleaving_measure": "sha256 of the sequence of scheduling, "
                                  "delivery and fault decisions of a run",
          "distinct_states": agg["states"],
          "events": agg["events"],
          "choices": agg["choices"],
          "reach_probes": agg["probes"],
          "real_components": mod.REAL,
          "stub_components": mod.STUB,
          "known_findings_hit": agg["known"],
          "workers": nw,
      },
      "assumptions": getattr(mod, "ASSUMPTIONS", []),
      "wall_s": round(wall_s, 2),
      "violations": int(rc == 1),
  }
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  path = os.path.join(VERIF, "evidence", f"{pid}.json")
  with open(path + ".tmp", "w", encoding="utf-8") as f:
    json.dump(ev, f, indent=1)
  os.replace(path + ".tmp", path)
  for line in lines:
    print(line)
  if not quiet:
    print(f"{pid} {tier}: runs={agg['runs']} nontrivial={agg['nontrivial']} "
          f"interleavings={agg['interleavings']} faults={agg['faults']} "
          f"probes={agg['probes']} wall={wall_s:.1f}s rc={rc}")
  sys.stdout.flush()
  return rc


def with_history(mod, trace, before, tier, cls, budget):
  """The few earlier runs of the process after which this run fails"""
  end = time.monotonic() + budget

  def fails(seeds, limit):

    def job():
      for seed in seeds:
        one_run(mod, seed=seed, tier=tier)
      status, _, info = one_run(mod, replay=trace, tier=tier)
      return [status, info]

    r = isolated(job, limit)
    return r and r[0] == "violation" and r[1]["class"] == cls

  m = 1
  while True:
    seeds = before[-m:]
    if fails(seeds, max(60, end - time.monotonic())):
      break
    if m >= len(before) or time.monotonic() > end:
      return None
    m *= 4
  size = max(1, len(seeds) // 2)
  while size and time.monotonic() < end:
    k = 0
    while k < len(seeds) and len(seeds) > 1 and time.monotonic() < end:
      less = seeds[:k] + seeds[k + size:]
      if less and fails(less, 60):
        seeds = less
      else:
        k += size
    size //= 2
  return seeds


def report(mod, pid, tier, bad, lines, run_limit, before=()):
  """Minimise, write the replay file, replay it in a fresh process"""
  info = bad["info"]
  os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
  path = os.path.join(VERIF, "replays", f"{pid}-{bad['seed']}.json")

  def write(trace, min_info, log=None, lh=None, tries=0, limit=120,
            history=()):
    with open(path, "w", encoding="utf-8") as f:
      json.dump({"property": pid, "seed": bad["seed"], "index": bad["index"],
                 "tier": tier, "class": min_info["class"],
                 "message": min_info["message"], "choices": trace,
                 "original_choices": len(bad["trace"] or []),
                 "minimise_attempts": tries, "log_hash": lh, "limit": limit,
                 "log": log, "before": list(history)}, f, indent=1)

  if bad["bad"] == "harness":
    lines.append(f"HARNESS-ERROR property={pid} seed={bad['seed']} {info}")
    return 2
  if bad["bad"] in ("hang", "died"):
    if bad["seed"] is None or core.REPO + "/" not in info.get(
        "traceback", "") + "":
      lines.append(f"HARNESS-ERROR property={pid} seed={bad['seed']} {info}")
      return 2
    # Does it hang again on its own, with more time?
    again = isolated(lambda: one_run(mod, seed=bad["seed"], tier=tier)[0],
                     2 * run_limit)
    if again is not None:
      lines.append(f"HARNESS-ERROR property={pid} seed={bad['seed']} a run "
                   f"exceeded its wall limit but did not on repetition")
      return 2
    with open(path, "w", encoding="utf-8") as f:
      json.dump({"property": pid, "seed": bad["seed"], "class": "hang",
                 "choices": None, "info": info, "limit": run_limit}, f)
    lines.append(f"violation class=hang: {info['traceback'][-1500:]}")
    lines.append(f"VIOLATION property={pid} replay={path}")
    return 1
  cls = info["class"]
  budget = int(os.environ.get("VSIM_MINIMISE") or
               (25 if tier == "quick" else 180))

  def job():
    t, tries = shrink(mod, bad["trace"], cls, tier, budget)
    status, run, inf = one_run(mod, replay=t, tier=tier)
    return {"trace": t, "tries": tries, "status": status, "info": inf,
            "lh": run.log_hash.hexdigest(), "log": list(run.log)}

  res = isolated(job, budget + 40)
  cands = []
  if res and res["status"] == "violation":
    cands.append((res["trace"], res["info"], res["log"], res["lh"],
                  res["tries"]))
  cands.append((bad["trace"], info, None, None, 0))
  for trace, inf, log, lh, tries in cands:
    write(trace, inf, log, lh, tries)
    try:
      rep, _ = fresh_replay(pid, path)
    except subprocess.TimeoutExpired:
      continue
    if rep and rep["status"] == "violation" and rep["info"]["class"] == \
        inf["class"]:
      same = lh is None or lh == rep["log_hash"]
      if not same:
        lines.append("WARNING replay reproduced the violation with a "
                     "different event log")
      if log is None:
        write(trace, inf, rep["log"], rep["log_hash"])
      lines.append(f"violation class={inf['class']}: "
                   f"{str(inf['message'])[:1500]}")
      lines.append(f"seed={bad['seed']} choices={len(trace)} (found with "
                   f"{len(bad['trace'])}) replayed in a fresh process: "
                   f"{'identical' if same else 'same class'}")
      lines.append(f"VIOLATION property={pid} replay={path}")
      return 1
  # It may take what earlier runs left behind in the process
  history = before and with_history(mod, bad["trace"], list(before), tier, cls,
                                    4 * budget)
  if history:
    write(bad["trace"], info, history=history, limit=230)
    rep, _ = fresh_replay(pid, path)
    if rep and rep["status"] == "violation" and rep["info"]["class"] == cls:
      write(bad["trace"], rep["info"], rep["log"], rep["log_hash"],
            history=history, limit=230)
      lines.append(f"violation class={cls}: "
                   f"{str(rep['info']['message'])[:1500]}")
      lines.append(f"seed={bad['seed']} after {len(history)} other runs in "
                   f"the same process; replayed in a fresh process")
      lines.append(f"VIOLATION property={pid} replay={path}")
      return 1
  lines.append(f"HARNESS-ERROR property={pid} violation {info} of seed "
               f"{bad['seed']} did not reproduce in a fresh process")
  return 2
