"""Copies of objects, also in other processes, behave as the original would"""
import copy
import io
import multiprocessing as mp
import pickle

import joblib

from vsim import models, subjects, threads, train

CONFIG = {"runs": 3000, "wall": 32, "thorough_wall": 900, "run_limit": 60,
          "must_probe": ("copied", "sent", "after-copy")}
RULE = ("seeded histories of operations on objects of the library, with deep "
        "copies, pickles and joblib dumps taken at any moment and objects "
        "sent to worker processes and back under a seeded schedule; every "
        "object must show what a new object with the same history of "
        "operations shows; non-trivial: an object was used after it, or the "
        "one it came from, was copied")
REAL = ["sample (all analysis, evaluation and tuning modules)",
        "worker processes (forked, lockstep)", "pickle boundary"]
STUB = ["multiprocessing.Pool bookkeeping", "clock",
        "cheap regressors in most models"]


def prepare():
  import sample.beatsdrop.sample  # noqa
  import sample.evaluation.metrics  # noqa
  import sample.evaluation.random  # noqa
  import sample.optimize  # noqa


_SUBJECT = [None]


def work(o, ks):
  """In a worker process: operations on the object that was sent"""
  return [_SUBJECT[0].do(o, k) for k in ks], o


def dumped(o):
  f = io.BytesIO()
  joblib.dump(o, f)
  f.seek(0)
  return joblib.load(f)


KINDS = tuple(k for k in subjects.ALL if k not in (subjects.functions,
                                                 subjects.more))
COPIES = {"deepcopy": copy.deepcopy,
          "pickle": lambda o: pickle.loads(pickle.dumps(o)),
          "pickle-2": lambda o: pickle.loads(pickle.dumps(o, protocol=2)),
          "joblib": dumped}


class Item:

  def __init__(self, s, obj, past=()):
    self.obj, self.past = obj, list(past)
    self.shadow = s.shadow()
    self.touched = False


def scenario(run):
  c = run.c
  s = subjects.draw(c, KINDS)
  _SUBJECT[0] = s
  n = c.int(2, 8)
  plan = []
  items = [Item(s, s.make())]
  with train.simulation(run, max_workers=3) as (sched, sim):
    pool = mp.Pool(c.int(1, 3)) if c.prob(0.4) else None
    waiting = []
    for _ in range(n):
      it = c.choice(items)
      op = c.weighted([(4, "use"), (3, "copy")] +
                      ([(3, "send")] if pool is not None else []))
      plan.append(op)
      if op == "use":
        use(run, s, it, [c.pick(len(s.ops))])
      elif op == "copy":
        how = c.choice(sorted(COPIES))
        run.ev("copy", how)
        new, _ = run.sut(COPIES[how], it.obj, what=f"{how} of {s.kind}")
        run.probe("copied")
        run.state(s.kind, how, len(it.past))
        items.append(Item(s, new, it.past))
        items[-1].touched = it.touched = True
        run.check(type(new) is type(it.obj), "type-differs")
      else:
        ks = [c.pick(len(s.ops)) for _ in range(c.int(1, 2))]
        waiting.append((list(it.past), ks, pool.apply_async(
            work, (it.obj, ks))))
        it.touched = True
        run.probe("sent")
        if c.prob(0.5):
          collect(run, s, items, waiting.pop(c.pick(len(waiting))))
    while waiting:
      collect(run, s, items, waiting.pop(c.pick(len(waiting))))
    if pool is not None:
      pool.close()
      pool.join()
    for it in items:
      use(run, s, it, [c.pick(len(s.ops))])
    run.check(not sim.leaks(), "resource-leak", lambda: str(sim.leaks()))
  run.case = {"kind": s.kind, "plan": plan}


def collect(run, s, items, w):
  past, ks, res = w
  r, _ = run.sut(res.get, what=f"sending {s.kind}")
  got, obj = r
  items.append(Item(s, obj, past + ks))
  agree(run, s, items[-1], got, "in a worker process")
  items[-1].touched = True


def use(run, s, it, ks):
  it.past += ks
  if it.touched:
    run.probe("after-copy")
    run.nontrivial = True
  agree(run, s, it, [s.do(it.obj, k) for k in ks], "here")


def agree(run, s, it, got, where):
  past = it.past
  want = it.shadow.after(past, len(got))
  for k, w, g in zip(past[-len(got):], want, got):
    run.check(models.close(w, g), "copy-differs",
              lambda: f"{s.kind}.{s.ops[k][0]} {where}: {str(g)[:200]} "
              f"instead of {str(w)[:200]}")
