"""Threads that use the library at the same time do not affect each other"""
import warnings

from vsim import core, models, subjects, threads

COLD = 0.35
CONFIG = {"runs": 9000, "wall": 75, "thorough_wall": 900, "run_limit": 60,
          "must_probe": ("preemptions", "shared", "own")}
RULE = ("2-4 threads each do a seeded program of operations on an object of "
        "their own (models, trackers, generators, filter banks, losses, beat "
        "models, regressors, storages, tuning losses, functions), made alike "
        "or differently, and reading operations on objects shared between "
        "threads, preempted at seeded lines of the library; each operation "
        "must give what it gives when the program runs alone; non-trivial: a "
        "thread was preempted inside the library")
REAL = ["sample (all analysis, evaluation and tuning modules)"]
STUB = ["thread scheduling", "clock", "cheap regressors in most models"]


def prepare():
  import sample.beatsdrop.sample  # noqa
  import sample.evaluation.metrics  # noqa
  import sample.evaluation.random  # noqa
  import sample.optimize  # noqa
  threads.instrument(["/repo/sample/"])


def scenario(run):
  c = run.c
  n = c.int(2, 4)
  same = c.prob(0.5)
  kinds = (c.choice(subjects.ALL),) if c.prob(0.65) else subjects.ALL
  subs = []
  for k in range(n):
    subs.append(subs[0] if same and subs else subjects.draw(c, kinds))
  shared = None
  if c.prob(0.5):
    shared = subjects.draw(c, kinds)
    so = shared.make()
    prefix = [c.pick(len(shared.ops)) for _ in range(c.int(0, 2))]
    ready = [shared.do(so, k) for k in prefix]
    if not shared.readers():
      shared = None
  progs = []
  for s in subs:
    p = []
    for _ in range(c.int(1, 4)):
      if shared is not None and c.prob(0.5):
        p.append(("shared", c.choice(shared.readers())))
      else:
        p.append(("own", c.pick(len(s.ops))))
    progs.append(p)
  run.case = {"kinds": [s.kind for s in subs], "programs": progs,
              "shared": shared and shared.kind}
  saved = warnings.filters[:]

  def references():
    """What the operations give when nothing else runs"""
    want = [s.history([k for w, k in p if w == "own"])
            for s, p in zip(subs, progs)]
    wshared = None
    if shared is not None:
      ref = shared.make()
      for k, r in zip(prefix, ready):
        again = shared.do(ref, k)
        run.check(models.close(r, again), "not-reproducible",
                  lambda: f"{shared.kind}: {r} != {again}")
      wshared = {k: shared.do(ref, k) for p in progs for w, k in p
                 if w == "shared"}
    return want, wshared

  # What is made once per process may be made by one thread or several
  late = c.prob(0.4)
  try:
    if not late:
      want, wshared = references()

    def work(s, p, out):
      o = s.make()
      for w, k in p:
        out.append(shared.do(so, k) if w == "shared" else s.do(o, k))

    outs = [[] for _ in subs]
    gap = c.choice((20, 60, 200, 5))
    with threads.Sched(run, mean_gap=gap) as sched:
      with core.patched(*threads.seams(sched)):
        ts = [sched.spawn(lambda s=s, p=p, out=out: work(s, p, out), s.kind)
              for s, p, out in zip(subs, progs, outs)]
        sched.join(*ts)
        for t in ts:
          if t.exc is not None:
            raise t.exc
    if late:
      run.probe("late-reference")
      want, wshared = references()
  finally:
    # restoring the process's filters from several threads is not something
    # the warnings module supports, and not part of this property
    warnings.filters[:] = saved
    warnings._filters_mutated()
  for i, (s, p, out) in enumerate(zip(subs, progs, outs)):
    own = iter(want[i])
    for (w, k), got in zip(p, out):
      e = next(own) if w == "own" else wshared[k]
      run.probe(w)
      src = s if w == "own" else shared
      run.check(models.close(e, got), f"{w}-differs",
                lambda: f"{src.kind}.{src.ops[k][0]} in thread {i}: "
                f"{str(got)[:200]} instead of {str(e)[:200]}")
      run.state(w, src.kind, src.ops[k][0])
