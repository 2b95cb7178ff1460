"""Shared pieces of the training checks"""
import contextlib
import warnings

from vsim import core, models, procs, threads


class InjectedError(RuntimeError):
  """A fault put there by the simulator"""

  def __reduce__(self):
    return (type(self), self.args)


class PickyRegression(models.LineRegression):
  """Fails on a data-dependent subset of tracks, in any process"""

  def __init__(self, fail_mod=0, **kwargs):
    self.fail_mod = fail_mod
    super().__init__(**kwargs)

  def fit(self, x, y, **kwargs):
    if self.fail_mod and len(y) % self.fail_mod == 0:
      raise InjectedError("regressor", len(y))
    return super().fit(x, y, **kwargs)


@contextlib.contextmanager
def simulation(run, mean_gap=None, max_workers=3, **kw):
  with threads.Sched(run, mean_gap=mean_gap) as sched:
    with procs.ProcSim(run, sched, max_workers=max_workers, **kw) as sim:
      with core.patched(*threads.seams(sched), *sim.seams()):
        yield sched, sim


def harm(run):
  """Faults so far that can make a training fail"""
  return sum(n for k, n in run.faults.items() if k != "slow-worker")


def chain(e):
  """An exception and everything it was raised from"""
  seen = []
  todo = [e]
  while todo:
    x = todo.pop()
    if x is None or x in seen:
      continue
    seen.append(x)
    todo += [x.__cause__, x.__context__]
  return seen


def skeleton(m):
  """Identity of a model's parameters and sub-models"""
  return {k: (id(v) if not isinstance(v, (int, float, str, bool, tuple,
                                          type(None))) else v)
          for k, v in models.params(m).items()}


def filters():
  return list(warnings.filters)


def reference(make, x):
  """Observation of a fresh model trained serially, or what it raises"""
  m = make()
  try:
    m.fit(x)
  except Exception as e:  # pylint: disable=W0718
    return {"raises": type(e).__name__}
  return models.observe(m)
