"""Results do not depend on earlier uses, also failed ones, and belong to the
caller"""
import warnings

import numpy as np
from sklearn import base

from vsim import core, models, runner, subjects, threads

CONFIG = {"runs": 4000, "wall": 75, "thorough_wall": 900, "run_limit": 60,
          "must_probe": ("read", "changed", "failed-use", "written-over",
                         "held", "dirty-memory", "written-into", "new-process")}
RULE = ("seeded histories of 3-12 operations on 1-2 objects of the library, "
        "in new memory filled with rubbish, "
        "some interrupted or running out of memory at a seeded line, with the "
        "caller keeping the results or writing over them; each result must "
        "be what a new object gives that only did the operations that change "
        "it, kept results and arguments must stay as they were; non-trivial: "
        "a fault fired or a result was written over; or 2-8 results written "
        "where the caller says (new memory, an array used before, part of "
        "one, the argument), which must be those returned otherwise")
REAL = ["sample (all analysis, evaluation and tuning modules)"]
STUB = ["contents of new memory", "cheap regressors in most models"]

PRISTINE = True
# what shows the object's own data, by design
LIVE = {"tracks", "item", "window", "params", "frames"}


def prepare():
  import sample.beatsdrop.sample  # noqa
  import sample.evaluation.metrics  # noqa
  import sample.evaluation.random  # noqa
  import sample.ipython  # noqa
  import sample.optimize  # noqa
  import sample.plots  # noqa
  threads.instrument(["/repo/sample/"])


def arrays(f, seen=None):
  """Arrays that an operation is given by the caller"""
  seen = {} if seen is None else seen
  todo = [c.cell_contents for c in getattr(f, "__closure__", None) or ()
          ] + list(getattr(f, "__defaults__", None) or ())
  while todo:
    v = todo.pop()
    if isinstance(v, np.ndarray) or plain(v) or isinstance(
        v, base.BaseEstimator):
      seen[id(v)] = v
    elif isinstance(v, (list, tuple)):
      todo.extend(v)
    elif isinstance(v, dict):
      todo.extend(v.values())
    elif callable(v) and getattr(v, "__closure__", None) and id(v) not in seen:
      seen[id(v)] = None
      arrays(v, seen)
  return seen


def snap(v):
  """The caller's argument as it is now"""
  if isinstance(v, base.BaseEstimator):
    return {k: models.frozen(u) if isinstance(u, (np.ndarray, tuple, float))
            else str(type(u)) for k, u in vars(v).items()}
  return models.frozen(v)


def plain(v):
  """Whether it is a dictionary of options"""
  return isinstance(v, dict) and v and all(
      isinstance(k, str) and (isinstance(u, (str, int, float, bool)) or
                              plain(u)) for k, u in v.items())


def leaves(r):
  if isinstance(r, np.ndarray):
    return [r]
  if isinstance(r, dict):
    r = list(r.values())
  if isinstance(r, (list, tuple)):
    return [a for v in r for a in leaves(v)]
  return []


def dirty(run):
  """np.empty and np.empty_like whose memory holds seeded rubbish"""
  rng = np.random.default_rng(run.c.int(0, 2**20))
  real, like = np.empty, np.empty_like

  def spoil(a):
    if a.dtype.kind in "fc" and a.size:
      v = rng.choice((np.nan, 1e300, -1e30, 3.5, 0.0))
      a[...] = v if a.dtype.itemsize >= 8 or np.isnan(v) else 3.5
    elif a.dtype.kind in "iu":
      a[...] = rng.integers(0, 100)
    elif a.dtype.kind == "b":
      a[...] = rng.integers(0, 2)
    return a

  def empty(*a, **kw):
    return spoil(real(*a, **kw))

  def empty_like(*a, **kw):
    return spoil(like(*a, **kw))

  return [(np, "empty", empty), (np, "empty_like", empty_like)]


class Item:

  def __init__(self, s):
    self.s, self.o = s, s.make()
    self.past = []


def writers(c):
  """Functions that can write their result where the caller says: (name,
  function, whether over the argument too)"""
  from sample import hinge, psycho, sample
  from sample.utils import dsp
  th, n, d = c.real(0.1, 0.9, 16), c.choice((32, 50)), c.real(0.1, 2, 16)
  g = psycho.GammatoneFilter(f=c.choice((0.5, 2)), n=c.choice((3, 4)),
                             normalize=c.prob(0.5), a=c.choice((None, 0.5)))
  out = [(f.__name__ + " " + m, lambda x, f=f, k=k, m=m, **kw:
          f(x, **{k: m}, **kw), True)
         for f, k, ms in ((psycho.hz2bark, "mode",
                           ("zwicker", "traunmuller", "wang")),
                          (psycho.bark2hz, "mode", ("traunmuller", "wang")),
                          (psycho.erb, "degree", ("linear", "quadratic")),
                          (psycho.hz2cams, "degree", ("linear", "quadratic")),
                          (psycho.cams2hz, "degree", ("linear", "quadratic")),
                          (dsp.normalize, "mode", ("peak", "rms", "range")))
         for m in ms]
  out += [(f.__name__, f, True) for f in (
      psycho.hz2mel, psycho.mel2hz, dsp.db2a, dsp.a2db, dsp.complex2db)]
  out += [
      ("hwr", lambda x, **kw: psycho.hwr(x, th=th, **kw), True),
      ("a_weighting", lambda x, **kw: psycho.a_weighting(x, db=False, **kw),
       True),
      ("a_weighting db", psycho.a_weighting, False),
      ("a2db floor", lambda x, **kw: dsp.a2db(x, floor=th, **kw), True),
      ("a2db floor db", lambda x, **kw: dsp.a2db(x, floor=-9, floor_db=True,
                                                 **kw), True),
      ("bin2f", lambda x, **kw: dsp.bin2f(x, nfft=n, fs=d, **kw), True),
      ("expi", dsp.expi, False),
      ("energy", lambda x, **kw: sample.modal_energy(x, d, **kw), True),
      ("hinge", lambda x, **kw: hinge.hinge_function(x, th, -2, d, **kw),
       True),
      ("envelope", g.envelope, True),
      ("wavefun", g.wavefun, False),
      ("ir", lambda x, **kw: g.ir(x, **kw), False),
      ("maxima", lambda x, **kw: dsp.local_maxima(x, w=2, **kw), False),
  ]
  return out


def written(run):
  """Where a result is written, and what was there before, does not matter"""
  c = run.c
  fs = writers(c)
  room = np.empty(64, dtype=complex)
  plan = []
  with core.patched(*(dirty(run) if c.prob(0.6) else ())):
    for _ in range(c.int(2, 8)):
      name, f, over = c.choice(fs)
      rng = np.random.default_rng(c.int(0, 2**16))
      x = rng.uniform(0.05, 1.5, size=c.int(6, 20))
      if c.prob(0.2):
        x = x[::2].copy() if x.size >= 12 else x
      elif c.prob(0.2) and name not in ("maxima", "ir"):
        x = x[:6].reshape((2, 3))
      keep = x.copy()
      want = np.array(f(x))
      run.check(np.array_equal(x, keep), "argument-changed", lambda: name)
      how = c.choice(("new", "used", "part", "over"))
      if how == "over" and not (over and want.dtype == x.dtype):
        how = "used"
      around = None
      if how == "new":
        out = np.empty(want.shape, dtype=want.dtype)
      elif how == "used":
        # the array still holds an earlier result
        out = room.view(want.dtype)[:want.size].reshape(want.shape)
      elif how == "part":
        around = np.full((*want.shape[:-1], 3 * want.shape[-1]), 7,
                         dtype=want.dtype)
        out = around[..., 1::3]
      else:
        out = x
      plan.append((name, how))
      run.ev("write", name, how, x.size)
      run.probe("written-into")
      run.nontrivial = True
      got = f(x, out=out)
      run.state("write", name, how)
      for r in (got,) if name == "a_weighting db" else (got, out):
        run.check(models.close(np.array(r), want), "where-written",
                  lambda: f"{name} into {how}: {r} instead of {want}")
      if how != "over":
        run.check(np.array_equal(x, keep), "argument-changed", lambda: name)
      if around is not None:
        rest = np.delete(around, np.s_[1::3], axis=-1)
        run.check(np.all(rest == around.dtype.type(7)), "written-elsewhere",
                  lambda: name)
  run.case = {"written": plan}


def drawn(c):
  """The kinds of objects of a run"""
  subs = [subjects.draw(c, subjects.ONE_THREAD)]
  if c.prob(0.3):
    subs.append(subs[0] if c.prob(0.6) else
                subjects.draw(c, subjects.ONE_THREAD))
  return subs


def alone(run, i, past, k):
  """What an operation gives where nothing else was ever done"""
  run.c.prob(0.15)
  s = drawn(run.c)[i]
  with threads.Sched(run) as sched:
    with core.patched(*threads.seams(sched)):
      o = s.make()
      for j in past:
        s.do(o, j)
      return s.do(o, k)


def scenario(run):
  c = run.c
  if c.prob(0.15):
    return written(run)
  subs = drawn(c)
  head = list(c.trace)
  uses = []
  items = [Item(s) for s in subs]
  args = {}
  for s in subs:
    for _, f, _ in s.ops:
      args.update((k, v) for k, v in arrays(f).items() if v is not None)
  args = [(a, snap(a)) for a in args.values()]
  kept = []
  faulty = c.prob(0.5)
  plan = []
  left = [None]
  error = [None]

  def hook(code, where):
    if left[0] is not None:
      left[0] -= 1
      if left[0] <= 0:
        left[0] = None
        run.fault(type(error[0]).__name__, code.co_name)
        raise error[0]

  memory = []
  if c.prob(0.6):
    memory = dirty(run)
    run.fault("dirty-memory")
    run.probe("dirty-memory")
  saved = warnings.filters[:]
  try:
    with threads.Sched(run) as sched:
      with core.patched(*threads.seams(sched), *memory):
        for _ in range(c.int(3, 12)):
          it = c.choice(items)
          k = c.pick(len(it.s.ops))
          if faulty and not it.s.ops[k][2] and c.prob(0.4):
            error[0] = c.choice((KeyboardInterrupt(), MemoryError("no memory")))
            left[0] = c.int(1, c.choice((6, 40, 300)))
            sched.tick_hook = hook
          step(run, c, it, k, kept, plan, error, left, sched, uses)
          for a, b in args:
            run.check(models.close(snap(a), b, 0, 0),
                      "argument-changed",
                      lambda: f"by {it.s.kind}.{it.s.ops[k][0]}")
        for raw, copy, what in kept:
          run.check(models.close(raw, copy), "result-changed-later",
                    lambda: f"{what}: {str(raw)[:200]} was {str(copy)[:200]}")
  finally:
    warnings.filters[:] = saved
    warnings._filters_mutated()
  if uses and c.prob(0.3):
    s, past, k, got = c.choice(uses)
    want = runner.pristine("alone", head, subs.index(s), past, k)
    run.probe("new-process")
    run.check(models.close(want, got), "process-dependent",
              lambda: f"{s.kind}.{s.ops[k][0]} after {plan}: {str(got)[:300]} "
              f"instead of {str(want)[:300]}")
  run.case = {"kinds": [s.kind for s in subs], "plan": plan}


def step(run, c, it, k, kept, plan, error, left, sched, uses):
  s = it.s
  name, f, changes = s.ops[k]
  run.ev("do", s.kind, name)
  raw, fault = None, None
  try:
    raw = f(it.o)
    got = {"value": models.frozen(raw)}
  except (core.Violation, core.SimUnsupported, core.SimKilled, core.Discard):
    raise
  except BaseException as e:  # pylint: disable=W0718
    fault = e
    got = {"raises": type(e).__name__, "text": str(e)[:200]}
  finally:
    fired = left[0] is None and sched.tick_hook is not None
    left[0] = None
    sched.tick_hook = None
  plan.append((name, bool(fired)))
  if fired:
    run.probe("failed-use")
    run.nontrivial = True
    run.state("fault", s.kind, name, type(fault).__name__)
    if fault is not None:
      return
  if isinstance(fault, (KeyboardInterrupt, MemoryError)):
    raise fault
  past = s.needed(it.past) if changes == "anew" else list(it.past)
  ref = s.make()
  for j in past:
    s.do(ref, j)
  want = s.do(ref, k)
  run.probe("changed" if changes else "read")
  run.check(models.close(want, got), "use-dependent",
            lambda: f"{s.kind}.{name} after {plan}: {str(got)[:300]} instead "
            f"of {str(want)[:300]}")
  run.state(s.kind, name, len(it.past))
  uses.append((s, past, k, got))
  if changes:
    it.past = (past if fault is None else it.past) + [k]
  if name in LIVE or raw is None or changes and s.kind != "generator":
    return
  if c.prob(0.3):
    # what the caller was given is the caller's
    for a in leaves(raw):
      if a.flags.writeable and a.size and a.dtype.kind in "fciu":
        run.probe("written-over")
        run.nontrivial = True
        a[...] = 77
  elif not changes:
    run.probe("held")
    kept.append((raw, got["value"], f"{s.kind}.{name}"))
