"""Parallel training equals serial training under any worker schedule"""
import copy

import numpy as np

from vsim import core, models, procs, threads

CONFIG = {"runs": 700, "wall": 40, "thorough_wall": 900, "run_limit": 60,
          "must_probe": ("tasks", "out-of-order")}
RULE = ("a seeded model configuration and sound is trained serially and then "
        "in parallel (1-4 workers, pool/manager created by the call or given) "
        "under a seeded schedule of workers, manager threads, polling and "
        "delivery; non-trivial: at least two tasks overlapped or results "
        "arrived out of order")
REAL = ["sample.sample", "sample._training", "sample.sms", "sample.hinge",
        "sample.beatsdrop", "sample.utils.learn",
        "multiprocessing.managers server and proxies",
        "worker processes (forked, lockstep)", "pickle boundary"]
STUB = ["multiprocessing.Pool bookkeeping", "manager transport (in-memory)",
        "clock", "beat regressor and hinge regressor in part of the runs"]


def prepare():
  threads.instrument(["/repo/sample/utils/learn.py",
                      "/repo/sample/_training.py"], instructions=True)


def scenario(run):
  c = run.c
  make, desc = models.model_params(c)
  x, sdesc = models.signal(c)
  run.case = {"model": desc, "signal": sdesc}
  history = prior(c)
  serial = make()
  history(serial)
  want = reference(serial, x)
  n_tracks = len(want.get("tracks", ()))
  mode = c.choice(("jobs", "pool", "manager", "both"))
  n_jobs = c.int(1, 4)
  refit = c.prob(0.3)
  run.case.update(mode=mode, n_jobs=n_jobs, tracks=n_tracks)
  run.probe("tasks", n_tracks)
  m = make()
  history(m)
  params_before = {k: id(v) for k, v in models.params(m).items()
                   if k.endswith("intermediate") or k == "sinusoidal"}
  mean_gap = c.choice((None, 12, 40, 300))
  with threads.Sched(run, mean_gap=mean_gap) as sched:
    with procs.ProcSim(run, sched, max_workers=4) as sim:
      sim.slow_workers(c, (0.05, 0.5, 3))
      with core.patched(*threads.seams(sched), *sim.seams()):
        fits(run, c, sim, m, x, mode, n_jobs, want)
        if refit:
          x2, _ = models.signal(c)
          again = make()
          history(again)
          fits(run, c, sim, m, x2, mode, n_jobs, reference(again, x2))
        run.check(not sim.leaks(), "resource-leak", lambda: str(sim.leaks()))
  after = {k: id(v) for k, v in models.params(m).items()
           if k in params_before}
  run.check(after == params_before, "submodels-replaced",
            lambda: str([k for k in after if after[k] != params_before[k]]))


def prior(c):
  """What is done with a model before: often nothing"""
  if not c.prob(0.3):
    return lambda m: None
  x, _ = models.signal(c, dur=0.12)
  saves = [c.prob(0.5) for _ in range(4)]

  def history(m):
    keys = [k for k in ("sinusoidal__intermediate__save",
                        "beat_decisor__intermediate__save")
            if k in models.params(m)]
    m.set_params(**{k: s for k, s in zip(keys, saves)})
    try:
      m.fit(x)
    except Exception:  # pylint: disable=W0718
      pass
    m.set_params(**{k: s for k, s in zip(keys, saves[2:])})

  return history


def reference(m, x):
  """What serial training of a model gives"""
  try:
    m.fit(x)
  except Exception as e:  # pylint: disable=W0718
    return {"raises": type(e).__name__}
  return seen(m)


def seen(m):
  """Everything a user can see of a fitted model, with its configuration"""
  o = models.observe(m)
  o["configuration"] = {
      k: v for k, v in models.params(m).items()
      if v is None or isinstance(v, (str, int, float, tuple, np.ndarray))}
  return o


def fits(run, c, sim, m, x, mode, n_jobs, want):
  import multiprocessing as mp

  import sample._training as tr
  kw = {}
  if mode in ("pool", "both"):
    kw["pool"] = mp.Pool(n_jobs)
  if mode in ("manager", "both"):
    mgr = tr._OptionalStorageManager()
    mgr.start()
    kw["mp_manager"] = mgr
  if mode in ("jobs", "manager"):
    kw["n_jobs"] = n_jobs
  x0 = x.copy()
  n0 = sim.tid
  order = []
  real_ev = run.ev

  def ev(*p):
    if p and p[0] == "result":
      order.append(p[3])
    real_ev(*p)

  run.ev = ev
  try:
    r, err = run.sut(m.fit, x, what="parallel fit", **kw,
                     allowed=Exception if "raises" in want else ())
  finally:
    run.ev = real_ev
  if order != sorted(order):
    run.probe("out-of-order")
    run.nontrivial = True
  if sim.tid - n0 > 1:
    run.nontrivial = True
  if "pool" in kw:
    run.check(kw["pool"]._state == "RUN", "user-pool-closed")
    kw["pool"].terminate()
  if "mp_manager" in kw:
    run.check(kw["mp_manager"]._state.value == 1, "user-manager-closed")
    kw["mp_manager"].shutdown()
  if "raises" in want:
    run.probe("serial-raises")
    run.check(type(err).__name__ == want["raises"],
              "parallel-differs-from-serial",
              lambda: f"serial raises {want}, parallel {err!r}")
    return
  run.check(r is m, "return-value", "fit did not return the model")
  run.check(np.array_equal(x, x0), "input-modified")
  d = models.diff(want, seen(m))
  run.check(d is None, "parallel-differs-from-serial", lambda: d)
  run.ev("fit", m.param_matrix_.tobytes().hex()[:64])
