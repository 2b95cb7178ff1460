"""Parallel evaluation of the multi-scale loss equals the serial one"""
import functools

import numpy as np

from vsim import core, models, threads, train

CONFIG = {"runs": 4000, "wall": 15, "thorough_wall": 300, "run_limit": 40,
          "must_probe": ("out-of-order", "scale-raises")}
RULE = ("seeded signal pairs, scales and extra arguments; the loss is "
        "computed serially and with 1-4 workers (own or caller's pool, two "
        "callers sharing it) under a seeded schedule, some scales failing; "
        "non-trivial: results arrived out of order or a scale failed")
REAL = ["sample.evaluation.metrics", "worker processes (forked, lockstep)",
        "pickle boundary"]
STUB = ["multiprocessing.Pool bookkeeping", "clock"]


def prepare():
  import sample.evaluation.metrics  # noqa


def flaky(x, y, power=1, n=64, bad=0, scale=1.0):
  """A base loss that may fail"""
  if bad:
    raise train.InjectedError("loss", n)
  return float(np.sum(np.abs(x[:n] - y[:n])**power)) * scale + 1.0 / n


def near(a, b):
  """Equal, but for the order of summation"""
  return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


class Job:
  """A loss to compute: of a pair of sounds, with its own arguments"""

  def __init__(self, c, real):
    self.real = real
    n = c.choice((256, 400, 1000))
    rng = np.random.default_rng(c.int(0, 9999))
    self.x = rng.normal(size=n)
    self.y = self.x * c.choice((1.0, 0.5)) + rng.normal(size=n) * c.choice(
        (0, 0.1))
    self.args, self.kw = (), {}
    if real:
      if c.prob(0.5):
        self.kw = {"olap": c.choice((0.5, 0.75))}
    else:
      if c.prob(0.5):
        self.kw = {"scale": c.choice((1.7, 0.3))}
      if c.prob(0.4):
        self.args = (2,)
    self.kept = self.x.copy(), self.y.copy()

  def expect(self, loss, stfts):
    self.want = sum(loss(self.x, self.y, *self.args, **s, **self.kw)
                    for s in stfts)

  def call(self, run, f, par, bad):
    r, err = run.sut(f, self.x, self.y, *self.args, **self.kw, **par,
                     what="parallel loss",
                     allowed=train.InjectedError if bad else ())
    if bad:
      run.probe("scale-raises")
      run.fault("worker-exception")
      run.check(err is not None, "error-swallowed", f"returned {r}")
      run.check(err.args[1] in bad, "error-replaced", repr(err))
    else:
      run.check(near(r, self.want), "parallel-differs-from-serial",
                lambda: f"{r!r} != {self.want!r}")
    run.check(np.array_equal(self.x, self.kept[0]) and
              np.array_equal(self.y, self.kept[1]), "input-modified")


def scenario(run):
  import multiprocessing as mp

  from sample.evaluation import metrics
  c = run.c
  real = c.prob(0.5)
  jobs = [Job(c, real) for _ in range(c.int(1, 3))]
  k = c.int(1, 6)
  sizes = c.shuffle([32, 64, 128, 256, 48, 100])[:k]
  if real:
    loss = metrics.lin_log_spectral_loss
    stfts = [{"n": s} for s in sizes]
    bad = []
  else:
    bad = [s for s in sizes if c.prob(0.15)]
    stfts = [{"n": s, "bad": int(s in bad)} for s in sizes]
    loss = flaky
  direct = c.prob(0.5)
  run.case = {"real": real, "sizes": sizes, "bad": bad,
              "jobs": [(j.args, j.kw) for j in jobs]}
  if direct:
    f = functools.partial(metrics.multiscale_spectral_loss,
                          spectral_loss=loss, stfts=stfts)
  else:
    f = metrics.MultiScaleSpectralLoss(spectral_loss=loss, stfts=stfts)
  if not bad:
    for j in jobs:
      j.expect(loss, stfts)
      run.check(near(f(j.x, j.y, *j.args, **j.kw), j.want),
                "serial-differs-from-sum")
  order = []
  ev0 = run.ev

  def ev(*p):
    if p and p[0] == "result":
      order.append(p[3])
    ev0(*p)

  run.ev = ev
  with train.simulation(run, max_workers=4) as (sched, sim):
    sim.slow_workers(c, (0.5, 40, 4000))
    mode = c.choice(("njobs", "pool", "shared"))
    if mode == "njobs":
      for j in jobs:
        j.call(run, f, {"njobs": c.int(1, 4)}, bad)
        run.check(not sim.leaks(), "resource-leak", lambda: str(sim.leaks()))
    else:
      p = mp.Pool(c.int(1, 4))
      if mode == "pool":
        for j in jobs:
          j.call(run, f, {"pool": p, "njobs": c.choice((None, 2))}, bad)
      else:
        ts = [sched.spawn(lambda j=j: j.call(run, f, {"pool": p}, bad),
                          "caller") for j in (jobs + jobs)[:c.int(2, 3)]]
        sched.join(*ts)
        for t in ts:
          if t.exc is not None:
            raise t.exc
      run.check(p._state == "RUN", "caller-pool-closed")
      p.terminate()
    run.check(not sim.leaks(), "resource-leak", lambda: str(sim.leaks()))
  if order != sorted(order):
    run.probe("out-of-order")
    run.nontrivial = True
