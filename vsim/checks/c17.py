"""A hyperparameter search spends what it was asked to spend, keeps what it
found, trains with the best point, and leaves nothing behind"""
import functools
import warnings

import numpy as np
import sample
from sklearn import base

from vsim import core, models, threads, train

CONFIG = {"runs": 900, "wall": 60, "thorough_wall": 900, "run_limit": 90,
          "must_probe": ("continued", "failed-search", "after-failure",
                         "progress", "stopped-early", "parallel")}
RULE = ("seeded histories of 2-5 searches on one optimizer: new or continued "
        "from an earlier state or from given points, with a progress bar, an "
        "early stop, an error or interrupt in the loss, the callback or at a "
        "seeded line, parallel losses and final training; each result is "
        "compared with the search rules, with losses of independently trained "
        "models and with a new optimizer's result; non-trivial: a search came "
        "after a failed or an earlier one")
REAL = ["sample.optimize", "sample.sample", "sample.evaluation.metrics",
        "skopt", "worker processes (forked, lockstep)"]
STUB = ["OS entropy (fixed)", "progress bar display", "cheap regressors",
        "multiprocessing.Pool bookkeeping", "clock"]


def prepare():
  import sample.optimize  # noqa
  threads.instrument(["/repo/sample/optimize.py", "/repo/sample/sms/",
                      "/repo/sample/sample.py"])


class Bar:
  """What the user sees of a progress bar"""
  made = []

  def __init__(self, total=None, **kw):
    self.total, self.n, self.text, self.open = total, 0, "", True
    Bar.made.append(self)

  def update(self, n=1):
    self.n += n

  def set_postfix_str(self, s="", refresh=True):
    self.text = s

  def close(self):
    self.open = False


class Loss:
  """A loss that counts its calls and may fail"""

  def __init__(self, parallel):
    self.parallel = parallel
    self.calls = 0
    self.fail_at = None
    self.error = None

  def __call__(self, x, y, **kw):
    from sample.evaluation import metrics
    self.calls += 1
    if self.fail_at is not None and self.calls >= self.fail_at:
      raise self.error
    return metrics.multiscale_spectral_loss(
        x, y, stfts=tuple({"n": n} for n in (32, 64)), **kw)


def dims(c):
  from skopt import space
  d = {}
  if c.prob(0.6):
    d["sinusoidal__log_n"] = c.choice((space.Integer(6, 8, name="n"), (6, 8)))
  if c.prob(0.5):
    d["sinusoidal__overlap"] = c.choice((space.Real(0.1, 0.75), (0.1, 0.75)))
  if c.prob(0.6):
    d["sinusoidal__tracker__max_n_sines"] = space.Integer(2, 6)
  if c.prob(0.6) or not d:
    d["sinusoidal__tracker__peak_threshold"] = space.Real(-100.0, -30.0)
  if c.prob(0.3):
    d["sinusoidal__tracker__merge_strategy"] = ["average", "single"]
  if c.prob(0.3):
    d["sinusoidal__wsize"] = (0.5, 1.0)
  return d


def composed(names, point, fs):
  """Model parameters of a point, as documented: sizes, windows and overlaps
  are translated, everything else is passed through"""
  kw = dict(zip(names, point), sinusoidal__tracker__fs=fs)
  log_n = kw.pop("sinusoidal__log_n", None)
  size = kw.pop("sinusoidal__wsize", 1.0)
  olap = kw.pop("sinusoidal__overlap", 0.5)
  if log_n is not None:
    kw["sinusoidal__n"] = 2**int(log_n)
  n = kw.get("sinusoidal__n", sample.SAMPLE().sinusoidal.n)
  from scipy import signal
  kw["sinusoidal__w"] = signal.get_window("hamming", int(n * size))
  kw["sinusoidal__tracker__h"] = max(1, int((1 - olap) *
                                            len(kw["sinusoidal__w"])))
  return kw


def scenario(run):
  c = run.c
  Bar.made = []
  fs = 2000
  x, _ = models.signal(c, fs=fs, dur=c.choice((0.15, 0.25)))
  if not np.max(np.abs(x)):
    raise core.Discard
  small = "sinusoidal__n"
  fixed = {"sinusoidal__tracker__reverse": c.prob(0.4),
           "sinusoidal__tracker__min_sine_dur": 0.02,
           "sinusoidal__tracker__frequency_bounds": (50, 900),
           "max_n_modes": c.choice((None, 3))}
  space = dims(c)
  remap = c.weighted([(6, "default"), (1, "none"), (3, "own")])
  if remap == "none":
    for k in ("sinusoidal__log_n", "sinusoidal__wsize", "sinusoidal__overlap"):
      space.pop(k, None)
    if not space:
      space["sinusoidal__tracker__max_n_sines"] = (2, 6)
    fixed.update({small: 128, "sinusoidal__w": np.hamming(101),
                  "sinusoidal__tracker__h": 40})
  elif "sinusoidal__log_n" not in space:
    space["sinusoidal__log_n"] = (6, 7)
  own_key = None
  if remap == "own":
    # parameters that are given to the model at some points only
    space["variant"] = [0, 1, 2]
    own_key = c.choice((("max_n_modes", 1), ("sinusoidal__t", -30),
                        ("sinusoidal__tracker__min_sine_dur", 0.06)))
  names = list(space)
  clip = c.prob(0.7)
  par = c.choice((None, None, 2))
  run.case = {"dims": names, "remap": remap, "clip": clip, "searches": []}

  def new_model():
    return sample.SAMPLE(regressor=models.LineRegression(), **fixed)

  def optimizer(lf, kw=None):
    from sample import optimize
    extra = {"none": {"remap": None}, "own": {"remap": own_remap}}.get(
        remap, {})
    return optimize.SAMPLEOptimizer(model=new_model(), loss_fn=lf, clip=clip,
                                    loss_kw=kw, **extra, **space)

  def own_remap(variant, **kw):
    from sample import optimize
    kw = optimize.sample_kwargs_remapper(**kw)
    if variant == 1:
      kw[own_key[0]] = own_key[1]
    return kw

  def params_of(p):
    if remap == "none":
      return dict(zip(names, p), sinusoidal__tracker__fs=fs)
    if remap == "own":
      kw = composed(names[:-1], p[:-1], fs)
      if p[-1] == 1:
        kw[own_key[0]] = own_key[1]
      return kw
    return composed(names, p, fs)

  def trained(p):
    return new_model().set_params(**params_of(p)).fit(x)

  @functools.lru_cache(None)
  def value(p):
    m = trained(p)
    y = m.predict(np.arange(x.size) / fs, phases="random")
    if clip:
      y = np.clip(y, -np.max(np.abs(x)), np.max(np.abs(x)))
    return Loss(False)(x, y)

  fixed_rng = np.random.default_rng

  def rng(seed=None):
    return fixed_rng(core.ENTROPY[0] if seed is None else seed)

  lf = Loss(par)
  opt = optimizer(lf, {"njobs": par} if par else None)
  own = opt.model
  skeleton = train.skeleton(own)
  seen = []
  with core.patched((np.random, "default_rng", rng)):
    with train.simulation(run, max_workers=3) as (sched, sim):
      sim.slow_workers(c, (0.05, 0.5))
      for k in range(c.int(2, 5)):
        search(run, c, locals())
        run.check(opt.model is own and train.skeleton(own) == skeleton and
                  not hasattr(own, "param_matrix_"), "model-changed")
        run.check(list(opt.dimensions) == names, "dimensions-changed")
        run.check(not sim.leaks(), "resource-leak", lambda: str(sim.leaks()))


def points(c, opt, k):
  from skopt import space
  return [list(p) for p in space.Space(list(opt.dimensions.values())).rvs(
      k, random_state=c.int(0, 99))]


def search(run, c, v):
  opt, lf, x, fs, names, sched = (v[k] for k in (
      "opt", "lf", "x", "fs", "names", "sched"))
  seen = v["seen"]
  how = c.weighted([(3, "new"), (4, "state"), (1, "points"), (1, "known")])
  if how == "state" and not seen:
    how = "new"
  n_init = c.int(1, 3)
  n_extra = c.int(0, 2)
  kw = {"random_state": c.int(0, 5), "acq_optimizer": "sampling",
        "n_points": 30, "initial_point_generator": c.choice(
            ("random", "lhs"))}
  state = before = None
  given = ([], [])
  n_given = 0
  if how == "state":
    state = c.choice(seen)
    kw["state"] = state
    given = (state.x_iters, list(state.func_vals))
  elif how in ("points", "known"):
    kw["x0"] = points(c, opt, c.int(1, 2))
    n_given = len(kw["x0"])
    if how == "known":
      kw["y0"] = [float(1000 + i) for i in range(n_given)]
      given = ([list(p) for p in kw["x0"]], list(kw["y0"]))
      n_given = 0
  n_calls = n_init + n_extra + n_given
  kw.update(n_calls=n_calls, n_initial_points=n_init)
  before = [list(map(tuple, given[0])), list(given[1])]
  fit_kws = c.choice((None, None, {"n_jobs": 2}, {"max_n_modes": 2}))
  if fit_kws:
    kw["fit_kws"] = fit_kws
  kw["ignore_warnings"] = c.prob(0.7)
  fail = c.weighted([(6, None), (1.5, "loss"), (1, "callback"), (1, "line")])
  stop = c.int(1, n_calls) if c.prob(0.15) else None
  bar = c.prob(0.5)
  run.case["searches"].append((how, n_calls, n_init, fail, bar))
  if par_used(v, fit_kws):
    run.probe("parallel")
  cbs, steps = [], []
  error = c.choice((train.InjectedError("loss"), KeyboardInterrupt(),
                    ValueError("loss"), Warning("loss")))
  if bar:
    from sample import optimize
    tq = optimize.TqdmCallback(opt, n_calls, n_init, tqdm_fn=Bar,
                               minimum=c.prob(0.7))
    if c.prob(0.3):
      tq.start()
    cbs.append(tq)
    cbs.append(lambda r: progress(run, Bar.made[-1], lf.calls, n_calls,
                                  n_init, r, tq, steps, names))
  if stop is not None or fail == "callback":
    cb_fail = c.int(1, n_calls) if fail == "callback" else None
    count = [0]

    def stopper(r):
      count[0] += 1
      if count[0] == cb_fail:
        run.fault("callback-error")
        raise error
      return count[0] == stop

    cbs.append(stopper)
  if cbs:
    kw["callback"] = cbs
  lf.calls = 0
  lf.fail_at = None
  fail_at = c.int(1, n_calls)
  if fail == "loss":
    lf.fail_at, lf.error = fail_at, error
  if fail == "line":
    left = [c.int(1, 3000)]

    def hook(code, line):
      if sched.current.tid == 0:
        left[0] -= 1
        if left[0] == 0:
          run.fault("interrupt-line", code.co_name)
          raise KeyboardInterrupt

    sched.tick_hook = hook
  filters = train.filters()
  x0 = x.copy()
  try:
    model, res = opt.gp_minimize(x, fs, **kw)
  except core.Violation:
    raise
  except BaseException as e:  # pylint: disable=W0718
    sched.tick_hook = None
    if isinstance(e, (core.SimUnsupported, core.SimKilled, core.Discard)):
      raise
    if fail == "loss" and lf.calls >= lf.fail_at:
      run.fault("loss-error")
    ok = e is error if fail in ("loss", "callback") else (
        fail == "line" and isinstance(e, KeyboardInterrupt))
    if not ok:
      raise core.Violation("unexpected-exception",
                           f"{type(e).__name__}: {e} at {core.sut_site(e)}"
                          ) from e
    run.probe("failed-search")
    run.check(train.filters() == filters, "warnings-changed")
    run.check(np.array_equal(x, x0), "input-modified")
    same_state(run, given, before)
    v["failed"] = True
    return
  finally:
    sched.tick_hook = None
    lf.fail_at = None
  run.check(fail != "loss" or lf.calls < fail_at, "error-swallowed",
            "a search with a failing loss ended well")
  run.check(train.filters() == filters, "warnings-changed")
  run.check(np.array_equal(x, x0), "input-modified")
  same_state(run, given, before)
  if seen or run.probes["failed-search"]:
    run.nontrivial = True
  if run.probes["failed-search"]:
    run.probe("after-failure")
  if how == "state":
    run.probe("continued")
  # what was spent and what was kept
  k = len(before[0])
  xs, ys = list(map(tuple, res.x_iters)), [float(y) for y in res.func_vals]
  run.check(len(xs) == len(ys), "result-inconsistent")
  run.check(xs[:k] == before[0] and ys[:k] == before[1], "earlier-points-lost",
            lambda: f"{xs[:k]} {ys[:k]} instead of {before}")
  n = len(xs) - k
  run.check(lf.calls == n, "calls-miscounted", lambda: f"{lf.calls} != {n}")
  if stop is None:
    run.check(n == n_calls, "budget", lambda: f"{n} new points, not {n_calls}")
  elif n < n_calls:
    run.probe("stopped-early")
  if n_given:
    run.check(xs[:n_given] == list(map(tuple, kw["x0"])), "points-ignored")
  for p, y in zip(xs[k:], ys[k:]):
    w = v["value"](p)
    run.check(models.close(w, y), "loss-differs",
              lambda: f"{p}: {y} instead of {w}")
  i = int(np.argmin(ys))
  run.check(res.fun == ys[i] and tuple(res.x) == xs[i], "not-the-best",
            lambda: f"{res.x} {res.fun}, best {xs[i]} {ys[i]}")
  # the model
  want = v["trained"](tuple(res.x))
  if fit_kws and "max_n_modes" in fit_kws:
    want.set_params(**fit_kws)
  d = models.diff(models.observe(want), models.observe(model))
  run.check(d is None, "model-differs", lambda: d)
  mine = {a: b for a, b in model.get_params().items()
          if not hasattr(b, "get_params")}
  theirs = want.get_params()
  for a, b in mine.items():
    run.check(models.close(b, theirs[a]) if not callable(b) else
              b == theirs[a], "model-parameters", lambda: f"{a}: {b}")
  run.check(model is not opt.model, "model-shared")
  run.state(how, n_calls, n_init, fail, bool(bar), bool(fit_kws))
  # a new optimizer finds the same
  if c.prob(0.5):
    lf2 = Loss(None)
    kw2 = {a: b for a, b in kw.items() if a not in ("callback", "fit_kws")}
    if stop is None and fail != "callback":
      with warnings.catch_warnings():
        _, r2 = v["optimizer"](lf2).gp_minimize(x, fs, **kw2)
      run.check(list(map(tuple, r2.x_iters)) == xs, "history-dependent",
                lambda: f"{r2.x_iters} != {xs}")
  if bar:
    run.probe("progress")
    if stop is None:
      run.check(Bar.made[-1].n == n_calls, "progress-end",
                lambda: f"bar at {Bar.made[-1].n} of {n_calls}")
    tq.reset()
    run.check(not Bar.made[-1].open and not tq.started, "bar-left-open")
  seen.append(res)


def par_used(v, fit_kws):
  return v["par"] or (fit_kws and "n_jobs" in fit_kws)


def same_state(run, given, before):
  run.check([list(map(tuple, given[0])), list(given[1])] == before,
            "state-changed")


def progress(run, bar, calls, n_calls, n_init, res, tq, steps, names):
  """After each report of the search, what the bar shows"""
  run.check(bar.total == n_calls, "progress-total", lambda: str(bar.total))
  run.check(bar.n == calls, "progress-count",
            lambda: f"bar at {bar.n}, {calls} points computed")
  stage = "randomize" if calls <= n_init else "minimize"
  run.check(f"stage={stage}" in bar.text, "progress-stage",
            lambda: f"{bar.text!r} after {calls} of {n_init}")
  if tq.minimum:
    run.check(f"value={min(res.func_vals)}" in bar.text, "progress-minimum",
              lambda: bar.text)
  steps.append(calls)
