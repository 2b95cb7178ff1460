"""Timings shown in notebooks are elapsed time, whatever clocks do"""
import re
import time

from vsim import core, threads

CONFIG = {"runs": 8000, "wall": 16, "thorough_wall": 200, "run_limit": 20,
          "must_probe": ("jump-back", "jump-ahead", "nested", "failed-body",
                         "threads")}
RULE = ("1-3 threads run seeded programs of timed blocks, nested or in a row, "
        "whose bodies wait, fail or are interrupted, while the time of day "
        "is stepped forwards and backwards by seconds to years; every timing "
        "shown is compared with the simulated time that passed; non-trivial: "
        "the time of day was stepped inside a timed block")
REAL = ["sample.ipython"]
STUB = ["clocks", "thread scheduling", "the notebook's display"]
ASSUMPTIONS = ["the monotonic and performance clocks never jump"]

CLOCKS = ("time", "monotonic", "perf_counter", "process_time", "thread_time")
REALS = {}


def prepare():
  import sample.ipython  # noqa
  threads.instrument(["/repo/sample/ipython.py"])
  for k in CLOCKS:
    for s in ("", "_ns"):
      REALS[k + s] = getattr(time, k + s)


class Clocks:
  """The time of day can be stepped, the others follow simulated time"""

  def __init__(self, run):
    self.run = run
    self.offset = 1.6e9
    self.cpu = 3.0

  def value(self, k):
    now = self.run.now
    if k == "time":
      return self.offset + now
    if k in ("process_time", "thread_time"):
      return self.cpu  # waiting takes no processor time
    return {"monotonic": 1000.0, "perf_counter": 500.0}[k] + now

  def seams(self):
    import sample.ipython as m
    out = []
    for k in CLOCKS:
      for s in ("", "_ns"):
        f = (lambda k=k: int(round(self.value(k) * 1e9))) if s else (
            lambda k=k: self.value(k))
        out.append((time, k + s, f))
        # names imported from the time module
        out.extend((m, n, f) for n, v in vars(m).items()
                   if v is REALS[k + s])
    return out


class Failure(Exception):
  pass


def scenario(run):
  import sample.ipython as m
  from IPython import display as ipd
  c = run.c
  clocks = Clocks(run)
  shown = []

  def display(*objs, **_):
    shown.append((threads.active().current if threads.active() else None,
                  [getattr(o, "data", None) for o in objs]))

  seams = [(ipd, "display", display)]
  seams += [(m, n, display) for n, v in vars(m).items() if v is ipd.display]
  depth = [0]

  def step():
    if c.prob(0.5):
      return
    d = c.choice((1, 30, 3600, 86400, 3e7, 0.01, 0.0004))
    back = c.prob(0.5)
    clocks.offset += -d if back else d
    run.fault("clock-back" if back else "clock-ahead", d)
    if depth[0]:
      run.probe("jump-back" if back else "jump-ahead")

  def body(sched, level):
    for _ in range(c.int(0, 2)):
      sched.sleep(c.choice((0, 0.0004, 0.02, 1.5, 700)))
      step()
      if level < 2 and c.prob(0.3):
        run.probe("nested")
        block(sched, level + 1)
    return c.weighted([(6, None), (1, Failure), (1, KeyboardInterrupt)])

  def block(sched, level=0):
    kw, title, msg, unit, scale, nd = {}, None, "Execution time: {}", "ms", \
        1000, 0
    if c.prob(0.5):
      title = kw["title"] = c.choice(("Fit - ", "", "{x} ", "{}"))
    if c.prob(0.3):
      msg = kw["msg"] = c.choice(("{}", "took {} <b>in all</b>", "è {}!"))
    if c.prob(0.4):
      unit, scale = c.choice((("s", 1), ("us", 1e6), ("min", 1 / 60)))
      kw.update(unit=unit, scale=scale)
    if c.prob(0.5):
      nd = kw["ndigits"] = c.int(0, 6)
    t0 = run.now
    raised = None
    me = sched.current
    inner = []
    depth[0] += 1
    fail = None
    try:
      with m.time_this(**kw):
        t1 = run.now
        fail = body(sched, level)
        inner.append(run.now)
        if fail:
          raise fail("in the body")
    except (Failure, KeyboardInterrupt) as e:
      raised = type(e)
    finally:
      depth[0] -= 1
    run.check(raised is fail, "body-failure-lost", lambda: f"{raised} {fail}")
    mine = [k for k, (who, _) in enumerate(shown) if who is me]
    run.state("block", level, str(fail), unit, nd, title is None)
    if fail:
      run.probe("failed-body")
      if mine:
        shown.pop(mine[-1])
      return
    run.check(len(mine) == 1, "timing-not-shown", lambda: f"{shown}")
    objs = shown.pop(mine[0])[1]
    run.check(len(objs) == 1 and isinstance(objs[0], str), "timing-not-shown",
              lambda: f"{objs}")
    a, b = msg.split("{}")
    want = re.compile(re.escape((title or "") + a) + r"(-?\d+(?:\.(\d+))?) " +
                      re.escape(unit + b))
    got = want.fullmatch(objs[0])
    run.check(got is not None, "timing-text", lambda: f"{objs[0]!r} {kw}")
    run.check(len(got[2] or "") == nd, "timing-digits",
              lambda: f"{objs[0]!r} {kw}")
    v = float(got[1])
    tol = 0.5 * 10.0**-nd * (1 + 1e-6) + 1e-6 * scale
    lo, hi = (inner[0] - t1) * scale - tol, (run.now - t0) * scale + tol
    run.check(lo <= v <= hi, "timing-wrong",
              lambda: f"{objs[0]!r}: {(inner[0] - t1) * scale} passed")

  n = c.int(1, 3)
  with threads.Sched(run, mean_gap=c.choice((5, 30))) as sched:
    with core.patched(*threads.seams(sched), *clocks.seams(), *seams):
      if n == 1:
        for _ in range(c.int(1, 3)):
          block(sched)
      else:
        run.probe("threads")
        ts = [sched.spawn(lambda k=k: [block(sched) for _ in range(k)], f"t{j}")
              for j, k in enumerate([c.int(1, 2) for _ in range(n)])]
        sched.join(*ts)
        for t in ts:
          if t.exc:
            raise t.exc
  run.check(not shown, "timing-shown-twice", lambda: f"{shown}")
  run.case = {"threads": n}
