"""Training depends on the current call only, never on the model's history or
on other models"""
import copy
import pickle

import numpy as np
from sklearn import base

from sample.sms import mm, sm
from vsim import core, models, runner, threads, train

PRISTINE = True
CONFIG = {"runs": 700, "wall": 40, "thorough_wall": 900, "run_limit": 60,
          "must_probe": ("refits", "after-failure", "new-process")}
RULE = ("seeded histories of 3-8 operations over 1-3 live models (train "
        "serially or in parallel, failing and interrupted training, "
        "reconfigure, clone, copy, pickle, resynthesise, read results); after "
        "each training the model is compared with a fresh one and all other "
        "models with their last observation; non-trivial: a model was trained "
        "at least twice")
REAL = ["sample.sample", "sample._training", "sample.sms", "sample.hinge",
        "sample.beatsdrop", "sample.utils.learn", "worker processes (forked)",
        "multiprocessing.managers server and proxies"]
STUB = ["multiprocessing.Pool bookkeeping", "manager transport", "clock",
        "cheap regressors in most runs"]


def prepare():
  import sample._training  # noqa
  threads.instrument(["/repo/sample/sms/", "/repo/sample/sample.py"])


class Live:

  def __init__(self, make, m, kind):
    self.make, self.m = make, m
    self.kind = kind  # which of the models drawn first it is like
    self.conf = []
    self.obs = None
    self.fits = 0

  def fresh(self):
    m = self.make()
    for kw in self.conf:
      m.set_params(**values(*kw))
    return m


def _values():
  return {
      "sinusoidal__t": (-90, -50, -70),
      "sinusoidal__n": (256, 512, 1024),
      "sinusoidal__w": tuple(f(k) for k in (129, 201, 251)
                             for f in (np.hamming, np.blackman)),
      "sinusoidal__intermediate__save": (True, False),
      "sinusoidal__padded": (True, False),
      "sinusoidal__tracker__h": (40, 64, 100),
      "sinusoidal__tracker__fs": (4000, 2000),
      "sinusoidal__tracker__max_n_sines": (3, 10, 40),
      "sinusoidal__tracker__min_sine_dur": (0.02, 0.06, 0.15),
      "sinusoidal__tracker__freq_dev_offset": (5, 20, 40),
      "sinusoidal__tracker__freq_dev_slope": (0.01, 0.05),
      "sinusoidal__tracker__reverse": (False, True),
      "sinusoidal__tracker__merge_strategy": ("average", "single"),
      "sinusoidal__tracker__strip_t": (None, 0.05, 0.1),
      "sinusoidal__tracker__peak_threshold": (-90, -40, -20),
      "sinusoidal__tracker__frequency_bounds": ((20, 16000), (300, 900),
                                                (None, 700)),
      "sinusoidal__tracker": (sm.SineTracker, mm.ModalTracker),
      "regressor": (models.LineRegression, models.LineRegression),
      "beat_decisor__intermediate__save": (True, False),
      "beat_decisor__th": (1, 1e12),
      "freq_reduce": (np.mean, np.median, np.max),
      "max_n_modes": (None, 2, 5),
  }


def tune(c, m):
  """A change of configuration: which of the values, and where it is"""
  vals = _values()
  names = [k for k in vals if k in models.params(m)]
  k = c.choice(names)
  i = c.pick(len(vals[k]))
  kw = {}
  if k == "sinusoidal__tracker":
    kw = {a: getattr(m.sinusoidal.tracker, a)
          for a in ("fs", "h", "min_sine_dur")}
  return k, i, kw


def values(k, i, kw):
  """New values, never shared"""
  v = _values()[k][i]
  return {k: v(**kw) if isinstance(v, type) else copy.copy(v)}


def drawn(c):
  """The sounds and the kinds of models of a run"""
  sounds = [models.signal(c)[0] for _ in range(c.int(1, 3))]
  makes = []
  for _ in range(c.int(1, 3)):
    if makes and c.prob(0.4):
      makes.append(makes[0])
    else:
      makes.append(models.model_params(c, cheap=0.97)[0])
  return sounds, makes


def alone(run, kind, conf, sound):
  """What training gives where nothing was trained before"""
  sounds, makes = drawn(run.c)
  v = Live(makes[kind], None, kind)
  v.conf = conf
  with train.simulation(run):
    return train.reference(v.fresh, sounds[sound])


def scenario(run):
  c = run.c
  lives = []
  sounds, makes = drawn(c)
  run.head = list(c.trace)
  run.case = []
  n_ops = c.int(3, 8)
  with train.simulation(run) as (sched, sim):
    for k, make in enumerate(makes):
      lives.append(Live(make, make(), k))
    for _ in range(n_ops):
      v = c.choice(lives)
      op = c.weighted([(5, "fit"), (2, "pfit"), (1, "fail"), (1, "interrupt"),
                       (2, "tune"), (3, "tune-fit"), (1, "clone"),
                       (1, "copy"), (1, "pickle"), (1.5, "use")])
      run.ev("op", op, lives.index(v))
      run.case.append((op, lives.index(v)))
      others = [(u, u.obs) for u in lives if u is not v]
      step(run, c, sched, sim, lives, v, op, sounds, c.pick(len(sounds)))
      for u, o in others:
        if o is not None and u in lives:
          d = models.diff(o, models.observe(u.m))
          run.check(d is None, "other-model-changed", lambda: f"{op}: {d}")
    run.check(not sim.leaks(), "resource-leak", lambda: str(sim.leaks()))


def compare(run, v, sounds, n, kw, what):
  """Train and compare with a fresh model of the same configuration"""
  x = sounds[n]
  ref = v.fresh()
  want = train.reference(lambda: ref, x)
  x0 = x.copy()
  try:
    r = v.m.fit(x, **kw)
    run.check(r is v.m, "return-value")
    got = models.observe(v.m)
    v.obs = got
  except core.Violation:
    raise
  except Exception as e:  # pylint: disable=W0718
    run.ev("raised", repr(e))
    got = {"raises": type(e).__name__}
    v.obs = None
  run.check(np.array_equal(x, x0), "input-modified")
  v.fits += 1
  if v.fits > 1:
    run.probe("refits")
    run.nontrivial = True
  d = models.diff(want, got)
  run.check(d is None, "history-dependent", lambda: f"{what}: {d}")
  if run.c.prob(0.08):
    run.probe("new-process")
    want = runner.pristine("alone", run.head, v.kind, v.conf, n)
    d = models.diff(want, got)
    run.check(d is None, "process-dependent", lambda: f"{what}: {d}")
  if v.obs is not None:
    t = np.arange(64) / 4000
    y1, y2 = v.m.predict(t), ref.predict(t)
    run.check(models.close(y1, y2), "history-dependent",
              lambda: f"{what}: resynthesis differs")


def step(run, c, sched, sim, lives, v, op, sounds, n):
  x = sounds[n]
  if op == "fit":
    compare(run, v, sounds, n, {}, op)
  elif op == "pfit":
    compare(run, v, sounds, n, {"n_jobs": c.int(1, 3)}, op)
  elif op == "tune":
    kw = tune(c, v.m)
    v.m.set_params(**values(*kw))
    v.conf.append(kw)
    v.obs = None
  elif op == "tune-fit":
    kw = tune(c, v.m)
    v.conf.append(kw)
    compare(run, v, sounds, n, dict(values(*kw), n_jobs=c.choice((0, 2))), op)
  elif op == "fail":
    run.fault("malformed-input")
    run.probe("after-failure")
    v.obs = None
    try:
      v.m.fit(c.choice((x[:5], np.full(400, np.nan), "audio")),
              n_jobs=c.choice((0, 2)))
    except Exception as e:  # pylint: disable=W0718
      run.ev("failed", type(e).__name__)
  elif op == "interrupt":
    left = [c.int(1, 2500)]
    v.obs = None

    def hook(code, line):
      if sched.current.tid == 0 and code.co_filename.startswith(
          ("/repo/sample/sms", "/repo/sample/sample.py")):
        left[0] -= 1
        if left[0] == 0:
          run.fault("interrupt-line", code.co_name)
          raise KeyboardInterrupt

    sched.tick_hook = hook
    try:
      v.m.fit(x)
    except KeyboardInterrupt:
      run.probe("after-failure")
    except Exception as e:  # pylint: disable=W0718
      run.ev("failed", type(e).__name__)
    finally:
      sched.tick_hook = None
  elif op in ("clone", "copy", "pickle"):
    if op == "clone":
      m = base.clone(v.m)
    elif op == "copy":
      m = copy.deepcopy(v.m)
    else:
      m = pickle.loads(pickle.dumps(v.m))
    u = Live(v.make, m, v.kind)
    u.conf = list(v.conf)
    if op != "clone":
      u.obs = v.obs
      u.fits = v.fits
      if v.obs is not None:
        d = models.diff(v.obs, models.observe(m))
        run.check(d is None, "copy-differs", lambda: f"{op}: {d}")
    lives.append(u)
    if len(lives) > 4:
      lives.pop(0)
  elif op == "use" and v.obs is not None:
    v.m.predict(np.arange(32) / 4000, phases="random", seed=3)
    v.m.sdt_params_()
    list(v.m.sinusoidal.tracks_)
    d = models.diff(v.obs, models.observe(v.m))
    run.check(d is None, "reading-changed-model", lambda: d)
  for u in lives:
    run.state(op, u.fits, u.obs is None)
