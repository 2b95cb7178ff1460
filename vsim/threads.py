"""Simulated threads: real threads parked and released one at a time. The
scheduler decides who runs at every blocking point and at seeded preemption
points inside the code under test (sys.monitoring line/instruction events).
Time is virtual: it advances only when nothing can run."""
import _thread
import gc
import sys
import threading
import time
import types
import weakref

from vsim import core

READY, BLOCKED, DONE = "ready", "blocked", "done"


class Task:

  def __init__(self, tid, name, fn):
    self.tid = tid
    self.name = name
    self.fn = fn
    self.state = READY
    self.pred = None
    self.deadline = None
    self.baton = _thread.allocate_lock()
    self.baton.acquire()
    self.inject = None
    self.exc = None
    self.result = None
    self.ident = None
    self.gap = None
    self.mask = 0

  def runnable(self, now):
    if self.state == READY:
      return True
    if self.state == BLOCKED:
      return self.inject is not None or self.pred() or (
          self.deadline is not None and self.deadline <= now)
    return False


_ACTIVE = [None]


def active():
  return _ACTIVE[0]


class Sched:
  """Baton-passing scheduler of one run"""

  STEP_CAP = 400_000

  def __init__(self, run, mean_gap=None, start_time=1.6e9):
    self.run = run
    self.base_time = start_time
    self.tasks = []
    self.killing = False
    self.preempt_mean = mean_gap
    self.steps = 0
    self.deadlocked = False
    main = Task(0, "main", None)
    main.ident = _thread.get_ident()
    self.tasks.append(main)
    self.current = main
    self.on_idle = None
    self.tick_hook = None
    self._new_gap(main)
    self._ident_tls = {main.ident: main}

  # -- life cycle ---------------------------------------------------------
  def __enter__(self):
    assert _ACTIVE[0] is None
    reset_locks()
    _ACTIVE[0] = self
    return self

  def __exit__(self, et, ev, tb):
    try:
      self.shutdown()
    finally:
      _ACTIVE[0] = None

  def shutdown(self):
    self.killing = True
    self.tick_hook = None
    for t in list(self.tasks):
      n = 0
      while t is not self.current and t.state != DONE:
        n += 1
        if n > 50:
          raise core.SimUnsupported(f"task {t.name} refuses to die")
        t.inject = core.SimKilled()
        self._switch(t)

  def is_task(self):
    return _thread.get_ident() in self._ident_tls

  # -- tasks --------------------------------------------------------------
  def spawn(self, fn, name):
    t = Task(len(self.tasks), f"{name}#{len(self.tasks)}", fn)
    self.tasks.append(t)
    self._new_gap(t)
    self.run.ev("spawn", t.name)

    def body():
      t.baton.acquire()
      t.ident = _thread.get_ident()
      self._ident_tls[t.ident] = t
      try:
        if t.inject is not None:
          e, t.inject = t.inject, None
          raise e
        t.result = t.fn()
      except core.SimKilled:
        pass
      except BaseException as e:  # pylint: disable=W0718
        t.exc = e
      t.state = DONE
      self._ident_tls.pop(t.ident, None)
      if not self.killing:
        self.run.ev("exit", t.name, type(t.exc).__name__)
        nxt = self._pick(leaving=t)
      else:
        nxt = self.tasks[0]
      self.current = nxt
      nxt.baton.release()

    _thread.start_new_thread(body, ())
    return t

  def _new_gap(self, t):
    if self.preempt_mean is not None:
      t.gap = self.run.c.gap(self.preempt_mean)

  # -- switching ----------------------------------------------------------
  def _switch(self, nxt):
    me = self.current
    if nxt is not me:
      self.current = nxt
      nxt.baton.release()
      me.baton.acquire()
    if me.inject is not None:
      e, me.inject = me.inject, None
      raise e

  def _pick(self, leaving=None):
    """Choose the next task to run; may advance virtual time"""
    self.steps += 1
    if self.steps > self.STEP_CAP:
      if not self.deadlocked:
        self.deadlocked = True
        self.tasks[0].inject = core.Violation(
            "no-progress", f"no end after {self.STEP_CAP} scheduling steps: "
            + self.dump())
      return self.tasks[0]
    while True:
      cur = self.current
      ready = []
      if cur is not leaving and cur.runnable(self.run.now):
        ready.append(cur)
      ready += [t for t in self.tasks
                if t is not cur and t.runnable(self.run.now)]
      if ready:
        k = self.run.c.pick(len(ready))
        nxt = ready[k]
        if nxt is not cur:
          self.run.sched("run", nxt.tid)
        return nxt
      dls = [t.deadline for t in self.tasks
             if t.state == BLOCKED and t.deadline is not None]
      if dls:
        self.run.now = max(self.run.now, min(dls))
        continue
      if self.on_idle is not None and self.on_idle():
        continue
      self.deadlocked = True
      self.tasks[0].inject = core.Violation("deadlock", self.dump())
      return self.tasks[0]

  def dump(self):
    return "; ".join(f"{t.name}:{t.state}:{getattr(t, 'label', '')}"
                     for t in self.tasks if t.state != DONE)

  def _my_turn(self):
    t = self._ident_tls.get(_thread.get_ident())
    return t is not None and t is self.current

  def point(self, label=""):
    """Voluntary scheduling point"""
    if self.killing:
      raise core.SimKilled()
    if not self._my_turn():
      return
    self.current.label = label
    self._switch(self._pick())

  def block(self, pred, label, timeout=None):
    """Wait until pred() or for `timeout` virtual seconds. Returns pred()"""
    if self.killing:
      raise core.SimKilled()
    me = self.current
    me.label = label
    me.state = BLOCKED
    me.pred = pred
    me.deadline = None if timeout is None else self.run.now + max(0, timeout)
    try:
      self._switch(self._pick())
    finally:
      me.state = READY
      me.pred = None
      me.deadline = None
    return pred()

  def sleep(self, d):
    self.block(lambda: False, "sleep", max(0.0, d))

  def time(self):
    return self.base_time + self.run.now

  def tick(self, code, where):
    """Preemption point, from a monitoring event"""
    if self.killing or not self._my_turn():
      return
    if self.tick_hook is not None:
      self.tick_hook(code, where)
    me = self.current
    if me.mask or me.gap is None:
      return
    me.gap -= 1
    if me.gap > 0:
      return
    self._new_gap(me)
    others = [t for t in self.tasks
              if t is not me and t.runnable(self.run.now)]
    if not others:
      return
    nxt = others[self.run.c.pick(len(others))]
    self.run.probe("preemptions")
    self.run.nontrivial = True
    self.run.sched("preempt", me.tid, nxt.tid, code.co_name)
    self.run.ev("preempt", me.name, "->", nxt.name, "in", code.co_name, where)
    self._switch(nxt)

  def join(self, *tasks):
    self.block(lambda: all(t.state == DONE for t in tasks), "join")


# -- preemption instrumentation -------------------------------------------
_TOOL = 4
_CODES = {}


def instrument(prefixes, instructions=False):
  """Install monitoring on every code object whose file has a prefix. Done
  once per process, before any run"""
  mon = sys.monitoring
  if mon.get_tool(_TOOL) is None:
    mon.use_tool_id(_TOOL, "vsim")
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instr)
  todo = [o.__code__ for o in gc.get_objects()
          if isinstance(o, types.FunctionType)]
  seen = set()
  while todo:
    c = todo.pop()
    if c in seen:
      continue
    seen.add(c)
    if c.co_filename.startswith(tuple(prefixes)):
      mon.set_local_events(
          _TOOL, c,
          mon.events.INSTRUCTION if instructions else mon.events.LINE)
    todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


def _on_line(code, line):
  s = _ACTIVE[0]
  if s is not None:
    s.tick(code, line)


def _on_instr(code, off):
  s = _ACTIVE[0]
  if s is not None:
    s.tick(code, off)


# -- primitives -----------------------------------------------------------
class SimLock:
  """threading.Lock under the simulated scheduler"""

  def __init__(self):
    self.owner = None
    self.held = False

  def acquire(self, blocking=True, timeout=-1):
    s = active()
    if s is None or not s.is_task():
      if self.held:
        if not blocking:
          return False
        raise core.Violation("deadlock", "lock held outside the simulation")
      self.held = True
      return True
    if s.killing:
      return True
    s.point("lock")
    if self.held:
      s.run.probe("lock-contention")
      if not blocking:
        return False
      s.block(lambda: not self.held, "lock",
              None if timeout is None or timeout < 0 else timeout)
      if self.held:
        return False
    self.held = True
    self.owner = s.current
    return True

  def release(self):
    s = active()
    if s is not None and s.killing:
      self.held = False
      return
    if not self.held:
      raise RuntimeError("release unlocked lock")
    self.held = False
    self.owner = None
    if s is not None and s.is_task():
      s.point("unlock")

  def locked(self):
    return self.held

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  def _at_fork_reinit(self):
    self.held = False


class SimRLock(SimLock):

  def __init__(self):
    super().__init__()
    self.count = 0

  def _me(self):
    s = active()
    return s.current if s is not None and s.is_task() else "outside"

  def acquire(self, blocking=True, timeout=-1):
    me = self._me()
    if self.held and self.owner is me:
      self.count += 1
      return True
    if not super().acquire(blocking, timeout):
      return False
    self.owner = me
    self.count = 1
    return True

  def release(self):
    if self.held and self.owner is not self._me():
      s = active()
      if not (s is not None and s.killing):
        raise RuntimeError("cannot release un-acquired lock")
    self.count -= 1
    if self.count <= 0:
      self.count = 0
      super().release()

  def _is_owned(self):
    return self.held and self.owner is self._me()


class SimCondition:

  def __init__(self, lock=None):
    self._lock = lock if lock is not None else SimRLock()
    self.acquire = self._lock.acquire
    self.release = self._lock.release
    self._waiters = []

  def __enter__(self):
    return self._lock.__enter__()

  def __exit__(self, *a):
    return self._lock.__exit__(*a)

  def wait(self, timeout=None):
    s = active()
    tok = [False]
    self._waiters.append(tok)
    n = getattr(self._lock, "count", 1)
    for _ in range(n):
      self._lock.release()
    try:
      s.block(lambda: tok[0], "cond", timeout)
    finally:
      if tok in self._waiters:
        self._waiters.remove(tok)
      for _ in range(n):
        self._lock.acquire()
    return tok[0]

  def wait_for(self, predicate, timeout=None):
    s = active()
    end = None if timeout is None else s.run.now + timeout
    r = predicate()
    while not r:
      left = None if end is None else end - s.run.now
      if left is not None and left <= 0:
        break
      self.wait(left)
      r = predicate()
    return r

  def notify(self, n=1):
    for tok in self._waiters[:n]:
      tok[0] = True
    del self._waiters[:n]

  def notify_all(self):
    self.notify(len(self._waiters))


class SimEvent:

  def __init__(self):
    self._f = False

  def is_set(self):
    return self._f

  isSet = is_set

  def set(self):
    self._f = True
    s = active()
    if s is not None and s.is_task():
      s.point("event")

  def clear(self):
    self._f = False

  def wait(self, timeout=None):
    if self._f:
      return True
    s = active()
    if s is None:
      raise core.Violation("deadlock", "event wait outside the simulation")
    s.block(lambda: self._f, "event", timeout)
    return self._f


class SimThread:
  """threading.Thread started by the code under test"""

  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None,
               *, daemon=None):
    self._target, self._args, self._kwargs = target, args, kwargs or {}
    self.name = name or "Thread"
    self.daemon = bool(daemon)
    self._task = None

  def run(self):
    if self._target is not None:
      self._target(*self._args, **self._kwargs)

  def start(self):
    s = active()
    if s is None:
      raise core.SimUnsupported("thread outside the simulation")
    self._task = s.spawn(self.run, self.name)
    s.point("thread-start")

  def is_alive(self):
    return self._task is not None and self._task.state != DONE

  def join(self, timeout=None):
    active().block(lambda: self._task.state == DONE, "thread-join", timeout)

  @property
  def ident(self):
    return self._task and self._task.tid


def _by_caller(real, sim):
  """Factory: simulated primitive for the code under test, real for others"""

  def make(*args, **kwargs):
    f = sys._getframe(1).f_code.co_filename
    if f.startswith(core.REPO + "/") or f.startswith("<repo"):
      o = sim(*args, **kwargs)
      _LOCKS.add(o)
      return o
    return real(*args, **kwargs)

  make.vsim_real = real
  return make


_LOCKS = weakref.WeakSet()


def install():
  """Before the code under test is imported: locks it creates (also at import
  time, and under names imported from threading) are simulated ones"""
  if not hasattr(threading.Lock, "vsim_real"):
    threading.Lock = _by_caller(threading.Lock, SimLock)
    threading.RLock = _by_caller(threading.RLock, SimRLock)


def reset_locks():
  for o in list(_LOCKS):
    if isinstance(o, SimLock):
      o.held, o.owner = False, None
      if isinstance(o, SimRLock):
        o.count = 0


def seams(sched, clock=True):
  """(obj, name, value) triples that put threads and clocks behind the
  simulator, for core.patched"""
  out = [
      (threading, "Condition", _by_caller(threading.Condition, SimCondition)),
      (threading, "Event", _by_caller(threading.Event, SimEvent)),
      (threading, "Thread", SimThread),
  ]
  if clock:
    out += [
        (time, "sleep", sched.sleep),
        (time, "time", sched.time),
        (time, "monotonic", lambda: 1000.0 + sched.run.now),
        (time, "perf_counter", lambda: 500.0 + sched.run.now),
    ]
  return out
