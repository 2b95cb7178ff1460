"""A failed or interrupted training leaves nothing behind"""
import pickle

import numpy as np

from vsim import core, models, procs, threads, train

CONFIG = {"runs": 900, "wall": 40, "thorough_wall": 900, "run_limit": 60,
          "must_probe": ("raised", "recovered")}
RULE = ("training with one seeded fault (worker exception, progress callback "
        "exception, interrupt while waiting or computing, pool or manager "
        "start failure, connection failure of a proxy, malformed input), "
        "serial or parallel under a seeded schedule, then training again; "
        "non-trivial: the fault fired inside the call")
REAL = ["sample.sample", "sample._training", "sample.sms", "sample.beatsdrop",
        "sample.utils (warning context)", "multiprocessing.managers server "
        "and proxies", "worker processes (forked, lockstep)"]
STUB = ["multiprocessing.Pool bookkeeping", "manager transport", "clock",
        "cheap regressors in most runs"]
ASSUMPTIONS = ["interrupts are delivered while the main process waits, in "
               "progress callbacks and in the analysis code, not inside the "
               "clean-up code itself"]

LINES = ("/repo/sample/sms/", "/repo/sample/sample.py")


def prepare():
  import sample._training  # noqa
  threads.instrument(["/repo/sample/utils/learn.py",
                      "/repo/sample/sms/", "/repo/sample/sample.py"])


def scenario(run):
  import sample._training as tr
  c = run.c
  make0, desc = models.model_params(c, cheap=0.95)
  x, sdesc = models.signal(c)
  parallel = c.weighted([(3, "jobs"), (2, "serial"), (1, "pool"),
                         (1, "both")])
  kind = c.choice(("worker", "progress", "interrupt", "interrupt-line",
                   "pool-start", "manager-start", "proxy-connect",
                   "proxy-send", "input", "none"))
  if parallel == "serial" and kind in ("interrupt", "pool-start",
                                       "manager-start", "proxy-connect",
                                       "proxy-send"):
    kind = "interrupt-line"
  picky = kind == "worker"
  fail_mod = c.int(1, 5) if picky else 0

  def make(bad=False):
    m = make0()
    if picky:
      m.set_params(regressor=train.PickyRegression(
          fail_mod=fail_mod if bad else 0))
    return m

  run.case = {"model": desc, "signal": sdesc, "mode": parallel, "fault": kind}
  want = train.reference(make, x)
  m = make(bad=True)
  before = train.skeleton(m)
  filters = train.filters()
  nth = c.int(1, 30)
  plan, injected = {}, []
  if kind in ("pool-start", "manager-start"):
    injected = [OSError(11, "Resource temporarily unavailable")]
    plan[kind] = (1, injected[0])
  elif kind in ("proxy-connect", "proxy-send"):
    injected = [c.choice((ConnectionResetError(104, "Connection reset"),
                          EOFError("proxy"), BrokenPipeError(32, "pipe")))]
    plan[kind] = (nth, injected[0])
  cls = type(m)
  with train.simulation(run, mean_gap=None, fault_plan=plan) as (sched, sim):
    sim.slow_workers(c, (0.05, 0.5, 3))
    kw = {}
    if parallel == "jobs":
      kw["n_jobs"] = c.int(1, 3)
    if parallel in ("pool", "both"):
      import multiprocessing as mp
      p0, sim.fault_plan = sim.fault_plan, {}
      kw["pool"] = mp.Pool(2)
      if parallel == "both":
        kw["mp_manager"] = tr._OptionalStorageManager()
        kw["mp_manager"].start()
      sim.fault_plan = p0
      sim.fault_seen.clear()
    if kind == "progress":
      injected = [c.choice((train.InjectedError("progress"),
                            KeyboardInterrupt()))]
      calls = [0]

      class Args(tr.FitArgs):

        def _hit(self):
          calls[0] += 1
          if calls[0] == nth:
            run.fault("progress-raises", type(injected[0]).__name__)
            raise injected[0]

        def progress_start(self, maximum, value=0):
          self._hit()

        def progress_update(self, value=None):
          self._hit()

        def progress_stop(self):
          self._hit()

      kw["_fit_args"] = Args()
    elif kind == "interrupt":
      injected = [KeyboardInterrupt()]
      sim.interrupt_at = c.int(1, 12)
    elif kind == "interrupt-line":
      injected = [KeyboardInterrupt()]
      left = [c.int(1, 3000)]
      main = sched.current

      def hook(code, line):
        if sched.current is main and code.co_filename.startswith(LINES):
          left[0] -= 1
          if left[0] == 0:
            run.fault("interrupt-line", code.co_name)
            raise KeyboardInterrupt

      sched.tick_hook = hook
    xin = x
    if kind == "input":
      xin = c.choice((x[:3], np.full_like(x, np.nan), x.reshape(-1, 2),
                      x.astype(complex), "audio"))
      run.fault("malformed-input", type(xin).__name__)
    bad_ref = None
    if kind == "input":
      bad_ref = train.reference(make, xin)
    n_fault = train.harm(run)
    err = None
    try:
      r = m.fit(xin, **kw)
      run.check(r is m, "return-value")
    except core.Violation:
      raise
    except (Exception, KeyboardInterrupt) as e:  # pylint: disable=W0718
      err = e
    sched.tick_hook = None
    sim.interrupt_at = None
    sim.fault_plan = {}
    fired = train.harm(run) > n_fault or kind == "input"
    run.ev("outcome", type(err).__name__)
    # 1. errors reach the caller, unless the outcome is right anyway
    if err is not None:
      run.probe("raised")
      if kind == "worker":
        run.nontrivial = True
        run.faults["worker-exception"] += 1
        run.check(any(isinstance(e, train.InjectedError)
                      for e in train.chain(err)) or "raises" in want,
                  "error-replaced", lambda: repr(err))
      elif kind == "input":
        run.check(bad_ref.get("raises") == type(err).__name__,
                  "error-replaced", lambda: f"{bad_ref} vs {err!r}")
      elif fired:
        ok = any(type(e) is type(i) for e in train.chain(err)
                 for i in injected)
        # the manager may report a failed connection as text
        ok = ok or (kind.startswith("proxy") and
                    isinstance(err, procs.mm.RemoteError))
        ok = ok or "raises" in want
        run.check(ok, "error-replaced", lambda: f"{err!r} for {injected}")
      else:
        run.check("raises" in want and type(err).__name__ == want["raises"],
                  "spurious-error", lambda: repr(err))
    else:
      if kind == "worker":
        hit = any(len(t["mag"][~np.isnan(t["mag"])]) % fail_mod == 0
                  for t in want.get("tracks", ()))
        run.check(not hit, "error-swallowed",
                  "a worker raised but training reported success")
      elif kind == "input":
        run.check("raises" not in bad_ref, "error-swallowed", str(bad_ref))
        d = models.diff(bad_ref, models.observe(m))
        run.check(d is None, "wrong-result-after-fault", lambda: d)
      elif kind in ("progress", "interrupt", "interrupt-line") and fired:
        raise core.Violation("error-swallowed", f"{injected} was dropped")
      if kind != "input":
        run.check("raises" not in want, "error-swallowed", str(want))
        d = models.diff(want, models.observe(m))
        run.check(d is None, "wrong-result-after-fault", lambda: d)
    # 2. nothing is left behind
    try:
      after = train.skeleton(m)
    except Exception as e:  # pylint: disable=W0718
      raise core.Violation("parameters-not-restored", repr(e)) from e
    run.check(after == before, "parameters-not-restored", lambda: str(
        [k for k in before if after.get(k) != before[k]]))
    run.check(train.filters() == filters, "warning-filters-leaked")
    leaks = sim.leaks()
    for k in ("pool", "mp_manager"):
      if k in kw:
        name = "pool(2)" if k == "pool" else "manager"
        own = [s for s in leaks if s.startswith(name)]
        run.check(own, "caller-resource-closed", k)
        leaks.remove(own[0])
    run.check(not leaks, "resource-leak", lambda: str(leaks))
    # 3. the model is as good as new
    if picky:
      m.set_params(regressor__fail_mod=0)
    again = {}
    if c.prob(0.5):
      again = {k: kw[k] for k in ("n_jobs", "pool", "mp_manager") if k in kw}
      if "pool" in again and kind.startswith("proxy"):
        again = {}
    try:
      m.fit(x, **again)
      got = models.observe(m)
    except core.Violation:
      raise
    except Exception as e:  # pylint: disable=W0718
      run.ev("again", repr(e), core.sut_site(e))
      got = {"raises": type(e).__name__}
    d = models.diff(want, got)
    run.check(d is None, "not-recovered", lambda: d)
    run.check(type(m) is cls and pickle.loads(pickle.dumps(m)) is not None,
              "not-picklable")
    run.probe("recovered")
    run.state(kind, parallel, type(err).__name__)
