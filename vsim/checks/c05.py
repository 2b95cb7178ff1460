"""The storage shared between training processes is linearizable"""
import pickle

from vsim import core, models, procs, threads

CONFIG = {"runs": 6000, "wall": 32, "thorough_wall": 600, "run_limit": 40,
          "must_probe": ("overlap", "preemptions")}
RULE = ("2-4 clients issue seeded appends (positional and indexed), reads, "
        "snapshots and resets on one managed storage; the recorded "
        "invoke/return history is checked for linearizability against a "
        "dictionary of lists, and the final state after all clients ended; "
        "non-trivial: at least two operations overlapped")
REAL = ["sample.utils.learn.OptionalStorage", "sample._training manager",
        "multiprocessing.managers server, proxies and pickling"]
STUB = ["manager transport (in-memory)", "manager process (threads of it are "
        "simulated tasks in this process)"]


def prepare():
  import sample._training  # noqa
  threads.instrument(["/repo/sample/utils/learn.py",
                      "/repo/sample/_training.py"], instructions=True)


MISSING = "KeyError"


def apply(state, op, save):
  """Sequential model. state: tuple of (key, tuple of values); returns
  (state, result)"""
  d = {k: list(v) for k, v in state}
  kind, args = op[0], op[1:]
  r = None
  if kind == "append":
    key, val, idx = args
    r = val
    if save:
      lst = d.setdefault(key, [])
      if idx is None:
        lst.append(val)
      else:
        while len(lst) <= idx:
          lst.append(None)
        lst[idx] = val
  elif kind == "get":
    r = tuple(d[args[0]]) if args[0] in d else MISSING
  elif kind == "state":
    r = tuple(sorted((k, tuple(v)) for k, v in d.items()))
  elif kind == "reset":
    d = {}
  return tuple(sorted((k, tuple(v)) for k, v in d.items())), r


def linearizable(ops, save, final):
  """Wing-Gong search with memoisation. ops: [(inv, ret, op, result)]"""
  n = len(ops)
  seen = set()
  stack = [(0, ())]
  while stack:
    mask, state = stack.pop()
    if (mask, state) in seen:
      continue
    seen.add((mask, state))
    if mask == (1 << n) - 1:
      if state == final:
        return True
      continue
    horizon = min(ops[i][1] for i in range(n) if not mask >> i & 1)
    for i in range(n):
      if mask >> i & 1:
        continue
      if ops[i][0] > horizon:
        continue
      s2, r = apply(state, ops[i][2], save)
      if r == ops[i][3]:
        stack.append((mask | 1 << i, s2))
  return False


def scenario(run):
  import sample._training as tr
  c = run.c
  save = not c.prob(0.05)
  n_cl = c.int(2, 4)
  hist = []
  clock = [0]

  def stamp():
    clock[0] += 1
    return clock[0]

  val = [0]
  plans = []
  with_reset = c.prob(0.25)
  index_only = c.prob(0.5)  # the way training uses it: distinct indices
  nextidx = 0
  for k in range(n_cl):
    plan = []
    for _ in range(c.int(1, 3)):
      kind = c.weighted([(8, "append"), (1.5, "get"), (1, "state"),
                         (0.7 if with_reset else 0.0, "reset")])
      key = c.choice(("a", "b"))
      if kind == "append":
        val[0] += 1
        if index_only:
          idx = nextidx
          nextidx += 1
        else:
          idx = c.choice((None, 0, 1, 3))
        plan.append(("append", key, val[0], idx))
      elif kind == "get":
        plan.append(("get", key))
      else:
        plan.append((kind,))
    plans.append(plan)
  if index_only and c.prob(0.5):
    plans = plans[::-1]
  run.case = {"save": save, "plans": plans}
  gap = c.choice((6, 15, 40, None))
  with threads.Sched(run, mean_gap=gap) as sched:
    with procs.ProcSim(run, sched) as sim:
      with core.patched(*threads.seams(sched), *sim.seams()):
        with tr._OptionalStorageManager() as mgr:
          store = mgr.OptionalStorage(save=save)
          data = pickle.dumps(store)

          def client(plan, k):
            proxy = pickle.loads(data)
            for op in plan:
              t0 = stamp()
              if op[0] == "append":
                r = proxy.append(op[1], op[2], index=op[3])
              elif op[0] == "get":
                try:
                  r = tuple(proxy[op[1]]) if hasattr(
                      type(proxy), "__getitem__") else tuple(
                          proxy.__getitem__(op[1]))
                except KeyError:
                  r = MISSING
              elif op[0] == "state":
                r = tuple(sorted((a, tuple(b))
                                 for a, b in proxy.get_state().items()))
              else:
                r = proxy.reset()
              t1 = stamp()
              hist.append((t0, t1, op, r))
              run.ev("op", k, t0, t1, op, r)
            del proxy

          ts = [sched.spawn(lambda p=p, k=k: client(p, k), f"client{k}")
                for k, p in enumerate(plans)]
          sched.join(*ts)
          for t in ts:
            if t.exc is not None:
              if isinstance(t.exc, (core.SimUnsupported, core.Violation)):
                raise t.exc
              raise core.Violation("operation-failed",
                                   f"{type(t.exc).__name__}: {t.exc}")
          final = tuple(sorted((a, tuple(b))
                               for a, b in store.get_state().items()))
          del store
        run.check(not sim.leaks(), "resource-leak", str(sim.leaks()))
  for a in hist:
    for b in hist:
      if a is not b and a[0] < b[1] and b[0] < a[1]:
        run.probe("overlap")
        run.nontrivial = True
  run.state(final)
  hist.sort()
  run.check(linearizable(hist, save, final), "not-linearizable",
            lambda: f"history {hist} final {final}")
