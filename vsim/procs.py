"""Simulated multiprocessing.

* Pool: the pool's bookkeeping is simulated; every worker is a real forked
  process (so nothing but pickled messages is shared), driven in lockstep by a
  simulated task: it only runs while the scheduler has handed it the baton.
* Managers: the real multiprocessing.managers.Server code and the real proxies
  run over in-memory connections; each server thread is a simulated task, so
  requests of different clients interleave as the scheduler decides, also in
  the middle of a method of the managed object.
"""
import collections
import ctypes
import multiprocessing
import multiprocessing.connection
import multiprocessing.context
import multiprocessing.managers
import multiprocessing.pool
import multiprocessing.process
import multiprocessing.util
import os
import pickle
import signal
import threading
import time
from multiprocessing.reduction import ForkingPickler

from vsim import core
from vsim import threads

mm = multiprocessing.managers
_libc = ctypes.CDLL(None)

_REAL_KILL = os.kill


def dumps(o):
  return bytes(ForkingPickler.dumps(o))


class WorkerGone(Exception):
  """The real process behind a simulated worker ended"""


class SimConn:
  """One end of an in-memory duplex connection"""

  def __init__(self, sim):
    self.sim = sim
    self.peer = None
    self.q = collections.deque()
    self.closed = False

  def send(self, obj):
    self.send_raw(dumps(obj))

  def send_raw(self, data):
    if self.closed:
      raise OSError("handle is closed")
    if self.peer.closed:
      raise BrokenPipeError(32, "Broken pipe")
    self.peer.q.append(data)
    self.sim.sched.point("send")

  def recv(self):
    return pickle.loads(self.recv_raw())

  def recv_raw(self):
    if self.closed:
      raise OSError("handle is closed")
    if not self.q:
      self.sim.sched.block(
          lambda: self.q or self.peer.closed or self.closed, "recv")
    if self.q:
      return self.q.popleft()
    raise EOFError

  def poll(self, timeout=0.0):
    if not self.q and timeout != 0:
      self.sim.sched.block(lambda: self.q or self.peer.closed, "poll",
                           timeout)
    return bool(self.q) or self.peer.closed

  def close(self):
    self.closed = True

  def fileno(self):
    raise core.SimUnsupported("fileno of a simulated connection")

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


class RelayConn:
  """Client end of a simulated connection inside a real worker process"""

  def __init__(self, relay, cid):
    self.relay, self.cid, self.closed = relay, cid, False

  def send(self, obj):
    self.relay("send", self.cid, dumps(obj))

  def recv(self):
    return pickle.loads(self.relay("recv", self.cid))

  def poll(self, timeout=0.0):
    return self.relay("poll", self.cid, timeout)

  def close(self):
    if not self.closed:
      self.closed = True
      self.relay("close", self.cid)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


class SimListener:

  def __init__(self, address=None, backlog=1, **_):
    sim = ProcSim.current
    sim.n_addr += 1
    self.address = address or f"vsim-{sim.n_addr}"

  def close(self):
    pass


class SimAsyncResult:

  def __init__(self, pool, callback=None, error_callback=None):
    self._pool = pool
    self._done = False
    self._value = None
    self._callback, self._error_callback = callback, error_callback

  def _set(self, ok, value):
    self._ok, self._value = ok, value
    if ok and self._callback:
      self._callback(value)
    if not ok and self._error_callback:
      self._error_callback(value)
    self._done = True

  def ready(self):
    self._pool.sim.sched.point("ready")
    return self._done

  def successful(self):
    if not self._done:
      raise ValueError(f"{self!r} not ready")
    return self._ok

  def wait(self, timeout=None):
    if not self._done:
      self._pool.sim.blocking_point("result-wait")
      self._pool.sim.sched.block(lambda: self._done, "result", timeout)

  def get(self, timeout=None):
    self.wait(timeout)
    if not self._done:
      raise multiprocessing.TimeoutError
    if self._ok:
      return self._value
    raise self._value


class SimMapResult(SimAsyncResult):

  def __init__(self, pool, n, callback=None, error_callback=None):
    super().__init__(pool, callback, error_callback)
    self._items = [None] * n
    self._left = n
    self._bad = None
    if n == 0:
      self._set(True, [])

  def _item(self, i, ok, value):
    self._left -= 1
    if ok:
      self._items[i] = value
    elif self._bad is None:
      self._bad = value
    if self._left == 0 and not self._done:
      if self._bad is None:
        self._set(True, self._items)
      else:
        self._set(False, self._bad)


class SimIMap:

  def __init__(self, pool, ordered):
    self._pool, self._ordered = pool, ordered
    self._got = {}
    self._order = collections.deque()
    self._next = 0
    self._length = None
    self._n = 0

  def _item(self, i, ok, value):
    self._got[i] = (ok, value)
    self._order.append(i)

  def __iter__(self):
    return self

  def next(self, timeout=None):
    sim = self._pool.sim

    def avail():
      if self._ordered:
        return self._next in self._got
      return bool(self._order)

    def over():
      return self._length is not None and self._n >= self._length

    if not avail() and not over():
      sim.blocking_point("imap-next")
      if not sim.sched.block(lambda: avail() or over(), "imap", timeout):
        raise multiprocessing.TimeoutError
    if not avail():
      raise StopIteration
    sim.sched.point("imap-item")
    i = self._next if self._ordered else self._order.popleft()
    self._next += 1
    self._n += 1
    ok, value = self._got.pop(i)
    if ok:
      return value
    raise value

  __next__ = next


def _call_star(func, args):
  return func(*args)


class SimPool:
  """multiprocessing.pool.Pool under the simulator"""

  def __init__(self, processes=None, initializer=None, initargs=(),
               maxtasksperchild=None, context=None):
    sim = ProcSim.current
    if sim is None:
      raise core.SimUnsupported("pool outside a simulation")
    self.sim = sim
    if processes is None:
      processes = 4
    if processes < 1:
      raise ValueError("Number of processes must be at least 1")
    sim.maybe_fault("pool-start")
    self._state = "RUN"
    self.n = min(processes, sim.max_workers)
    self._processes = processes
    self.tasks = collections.deque()
    self.inflight = 0
    self.feeders = 0
    self._init = (initializer, initargs)
    self.workers = []
    self.procs = []
    sim.pools.append(self)
    sim.run.ev("pool", processes)
    for w in range(self.n):
      proc = sim.worker_class(sim, w, self._init)
      self.procs.append(proc)
      self.workers.append(
          sim.sched.spawn(lambda p=proc: self._worker(p), f"worker{w}"))

  # worker task
  def _worker(self, proc):
    sched = self.sim.sched
    proc.pump_until_ready()
    while True:
      sched.block(lambda: self._state == "TERM" or self.tasks or
                  (self._state == "CLOSE" and not self.feeders), "idle")
      if self._state == "TERM" or not self.tasks:
        return
      tid, payload, deliver = self.tasks.popleft()
      self.inflight += 1
      self.sim.run.ev("take", proc.wid, "task", tid)
      self.sim.run.sched("take", proc.wid, tid)
      sched.point("taken")
      self.sim.stall()
      if self._state == "TERM":
        return
      try:
        ok, value = proc.execute(payload)
      except WorkerGone:
        # The real pool replaces the process; the task is lost
        self.sim.run.fault("worker-lost", "")
        proc.respawn()
        continue
      finally:
        self.inflight -= 1
      sched.point("done")
      if self._state == "TERM":
        return
      self.sim.run.ev("result", proc.wid, "task", tid, ok)
      self.sim.run.sched("done", tid)
      deliver(ok, value)
      sched.point("delivered")

  def _check_running(self):
    if self._state != "RUN":
      raise ValueError("Pool not running")

  def _submit(self, func, args, kwds, deliver):
    tid = self.sim.next_tid()
    try:
      payload = dumps((func, args, kwds))
    except Exception as e:  # pylint: disable=W0718
      deliver(False, e)  # as the real task handler does
      return
    self.tasks.append((tid, payload, deliver))

  def apply_async(self, func, args=(), kwds=None, callback=None,
                  error_callback=None):
    self._check_running()
    self.sim.sched.point("submit")
    r = SimAsyncResult(self, callback, error_callback)
    self._submit(func, args, kwds or {}, r._set)
    return r

  def apply(self, func, args=(), kwds=None):
    return self.apply_async(func, args, kwds).get()

  def _map_async(self, func, items, callback=None, error_callback=None):
    self._check_running()
    self.sim.sched.point("submit")
    r = SimMapResult(self, len(items), callback, error_callback)
    for i, a in enumerate(items):
      self._submit(func, a, {}, lambda ok, v, i=i: r._item(i, ok, v))
    return r

  def map_async(self, func, iterable, chunksize=None, callback=None,
                error_callback=None):
    return self._map_async(func, [(x,) for x in iterable], callback,
                           error_callback)

  def starmap_async(self, func, iterable, chunksize=None, callback=None,
                    error_callback=None):
    return self._map_async(func, [tuple(x) for x in iterable], callback,
                           error_callback)

  def map(self, func, iterable, chunksize=None):
    return self.map_async(func, iterable).get()

  def starmap(self, func, iterable, chunksize=None):
    return self.starmap_async(func, iterable).get()

  def _imap(self, func, iterable, ordered):
    self._check_running()
    r = SimIMap(self, ordered)
    self.feeders += 1

    def feed():
      i = 0
      try:
        try:
          for x in iterable:
            k = i
            self._submit(func, (x,), {}, lambda ok, v, k=k: r._item(k, ok, v))
            i += 1
            self.sim.sched.point("feed")
        except Exception as e:  # pylint: disable=W0718
          r._item(i, False, e)
          i += 1
        r._length = i
      finally:
        self.feeders -= 1

    self.sim.sched.spawn(feed, "feeder")
    return r

  def imap(self, func, iterable, chunksize=1):
    return self._imap(func, iterable, True)

  def imap_unordered(self, func, iterable, chunksize=1):
    return self._imap(func, iterable, False)

  def close(self):
    if self._state == "RUN":
      self._state = "CLOSE"

  def terminate(self):
    self._state = "TERM"
    self.sim.run.ev("pool-terminate")
    for p in self.procs:
      p.kill()

  def join(self):
    if self._state == "RUN":
      raise ValueError("Pool is still running")
    self.sim.sched.block(
        lambda: all(w.state == threads.DONE for w in self.workers), "join")
    for p in self.procs:
      p.kill()

  def __enter__(self):
    self._check_running()
    return self

  def __exit__(self, *a):
    self.terminate()

  def __reduce__(self):
    raise NotImplementedError(
        "pool objects cannot be passed between processes or pickled")


class RealWorker:
  """A forked process that executes pickled tasks in lockstep"""

  def __init__(self, sim, wid, init):
    self.sim, self.wid, self.init = sim, wid, init
    self.dead = False
    self.conns = {}
    self.spawn()

  def spawn(self):
    sim = self.sim
    sim.n_forks += 1
    sim.run.probe("real-worker-processes")
    me, other = sim.real_pipe()
    act, threads._ACTIVE[0] = threads._ACTIVE[0], None
    pid = os.fork()
    if pid == 0:
      try:
        _libc.prctl(1, signal.SIGKILL)
        me.close()
        for p in sim.real_workers:
          p.ctl.close()
        _child_main(sim, other, self.wid, sim.n_forks, self.init)
      finally:
        os._exit(0)
    threads._ACTIVE[0] = act
    other.close()
    self.ctl, self.pid = me, pid
    sim.real_workers.append(self)

  def respawn(self):
    self.kill()
    self.dead = False
    self.spawn()
    self.pump_until_ready()

  def kill(self):
    if not self.dead:
      self.dead = True
      try:
        _REAL_KILL(self.pid, signal.SIGKILL)
      except ProcessLookupError:
        pass
      os.waitpid(self.pid, 0)
      self.ctl.close()
      if self in self.sim.real_workers:
        self.sim.real_workers.remove(self)
      for c in self.conns.values():
        c.close()

  def _recv(self):
    try:
      return pickle.loads(self.ctl.recv_bytes())
    except (EOFError, OSError) as e:
      if self.dead:
        raise core.SimKilled() from e
      raise WorkerGone from e

  def _send(self, msg):
    if self.dead:
      raise core.SimKilled()
    self.ctl.send_bytes(pickle.dumps(msg))

  def _pump(self, final):
    while True:
      msg = self._recv()
      if msg[0] == final:
        return msg[1:]
      try:
        rep = ("ok", self._serve(*msg))
      except Exception as e:  # pylint: disable=W0718
        rep = ("err", e)
      self._send(rep)

  def _serve(self, op, *args):
    sim = self.sim
    if op == "open":
      c = sim.client(args[0])
      self.conns[len(self.conns)] = c
      return len(self.conns) - 1
    if op == "send":
      sim.maybe_fault("proxy-send")
      return self.conns[args[0]].send_raw(args[1])
    if op == "recv":
      return self.conns[args[0]].recv_raw()
    if op == "poll":
      return self.conns[args[0]].poll(args[1])
    if op == "close":
      return self.conns[args[0]].close()
    if op == "sleep":
      return sim.sched.sleep(args[0])
    if op == "probe":
      return sim.run.probe(args[0])
    if op == "ev":
      return sim.run.ev("worker", self.wid, *args[0])
    raise core.SimUnsupported(op)

  def pump_until_ready(self):
    self._pump("ready")

  def execute(self, payload):
    self._send(("task", payload, self.sim.run.now))
    return self._pump("result")


class InlineWorker:
  """Worker of a pool whose tasks run as simulated tasks of this process, for
  code whose workers share nothing but pickled messages anyway"""

  def __init__(self, sim, wid, init):
    self.sim, self.wid, self.init = sim, wid, init

  def pump_until_ready(self):
    if self.init[0] is not None:
      self.init[0](*self.init[1])

  def kill(self):
    pass

  def respawn(self):
    pass

  def execute(self, payload):
    try:
      func, args, kwds = pickle.loads(payload)
      res = (True, func(*args, **kwds))
    except Exception as e:  # pylint: disable=W0718
      res = (False, multiprocessing.pool.ExceptionWithTraceback(
          e, e.__traceback__))
    try:
      return pickle.loads(dumps(res))
    except Exception as e:  # pylint: disable=W0718
      return False, multiprocessing.pool.MaybeEncodingError(e, res[1])


CHILD = {"relay": None}


def _child_main(sim, ctl, wid, nfork, init):
  """Body of a worker process"""
  threads._ACTIVE[0] = None
  signal.signal(signal.SIGINT, signal.SIG_IGN)

  def relay(op, *args):
    ctl.send_bytes(pickle.dumps((op, *args)))
    st, v = pickle.loads(ctl.recv_bytes())
    if st == "err":
      raise v
    return v

  CHILD["relay"] = relay
  time.sleep = lambda d: relay("sleep", d)
  proc = multiprocessing.context.ForkProcess(name=f"ForkPoolWorker-{nfork}")
  proc._config["daemon"] = True
  multiprocessing.process._current_process = proc

  class MainThread:
    name = "MainThread"
    daemon = False
    ident = 1

  threading.current_thread = MainThread
  core.ENTROPY[0] = 1_000_000 * nfork
  sim.child_client = lambda address: RelayConn(relay, relay("open", address))
  multiprocessing.util._finalizer_registry.clear()
  multiprocessing.util._run_after_forkers()
  if sim.child_init is not None:
    sim.child_init(relay)
  if init[0] is not None:
    init[0](*init[1])
  ctl.send_bytes(pickle.dumps(("ready",)))
  ewt = multiprocessing.pool.ExceptionWithTraceback
  while True:
    try:
      _, payload, now = pickle.loads(ctl.recv_bytes())
    except EOFError:
      return
    sim.run.now = now
    try:
      func, args, kwds = pickle.loads(payload)
      res = (True, func(*args, **kwds))
    except Exception as e:  # pylint: disable=W0718
      res = (False, ewt(e, e.__traceback__))
    try:
      data = dumps(("result", *res))
    except Exception as e:  # pylint: disable=W0718
      data = dumps(("result", False, multiprocessing.pool.MaybeEncodingError(
          e, res[1])))
    func = args = kwds = res = payload = None
    ctl.send_bytes(data)


class TaskThread:
  """threading.current_thread() of a simulated task"""

  def __init__(self, name):
    self.name = name
    self.daemon = True
    self.ident = 0


class ProcSim:
  """Everything multiprocessing, for one run"""
  current = None
  worker_class = RealWorker

  def __init__(self, run, sched, max_workers=4, fault_plan=None):
    self.run, self.sched = run, sched
    self.max_workers = max_workers
    self.fault_plan = fault_plan or {}
    self.fault_seen = collections.Counter()
    self.pools, self.servers, self.managers = [], {}, []
    self.real_workers = []
    self.n_forks = 0
    self.n_addr = 0
    self.tid = 0
    self.child_client = None
    self.child_init = None
    self.interrupt_at = None
    self.n_block = 0
    self._names = {}
    self.slow = None

  def slow_workers(self, c, times):
    """In part of the runs, workers stall before some tasks"""
    if c.prob(0.25):
      self.slow = c, c.choice((0.1, 0.5)), times

  def stall(self):
    if self.slow is not None:
      c, p, times = self.slow
      if c.prob(p):
        d = c.choice(times)
        self.run.fault("slow-worker", d)
        self.sched.sleep(d)

  def next_tid(self):
    self.tid += 1
    return self.tid

  def blocking_point(self, where):
    """The main process is about to wait: a signal can be delivered here"""
    if self.sched.current.tid != 0:
      return
    self.n_block += 1
    if self.interrupt_at is not None and self.n_block == self.interrupt_at:
      self.run.fault("keyboard-interrupt", where)
      raise KeyboardInterrupt

  def maybe_fault(self, site):
    """Raise the planned fault of a site at its planned occurrence"""
    self.fault_seen[site] += 1
    f = self.fault_plan.get(site)
    if f is not None and f[0] == self.fault_seen[site]:
      self.run.fault(site, type(f[1]).__name__)
      raise f[1]

  # -- connections --------------------------------------------------------
  def client(self, address, family=None, authkey=None):
    if self.child_client is not None:
      return self.child_client(address)
    srv = self.servers.get(address)
    if srv is None or self.sched.killing:
      raise ConnectionRefusedError(111, "Connection refused")
    a, b = SimConn(self), SimConn(self)
    a.peer, b.peer = b, a
    self.maybe_fault("proxy-connect")
    self.sched.spawn(lambda: srv.handle_request(b), "server")
    self.sched.point("connect")
    return a

  # -- managers -----------------------------------------------------------
  def start_manager(self, mgr, initializer=None, initargs=()):
    State = mm.State
    if mgr._state.value != State.INITIAL:
      raise multiprocessing.ProcessError("Already started server")
    self.maybe_fault("manager-start")
    if initializer is not None:
      initializer(*initargs)
    srv = mgr._Server(mgr._registry, mgr._address, mgr._authkey,
                      mgr._serializer)
    srv.mutex = threads.SimLock()
    srv.stop_event = threads.SimEvent()
    self.servers[srv.address] = srv
    mgr._address = srv.address
    mgr._process = None
    mgr._state.value = State.STARTED
    self.managers.append(mgr)
    self.run.ev("manager-start", srv.address)
    sim = self

    def shutdown():
      if mgr._state.value == State.SHUTDOWN:
        return
      sim.run.ev("manager-shutdown", srv.address)
      sim.servers.pop(srv.address, None)
      srv.stop_event._f = True
      for c in sim.conns_of(srv):
        c.close()
      mgr._state.value = State.SHUTDOWN
      mm.BaseProxy._address_to_local.pop(srv.address, None)

    mgr.shutdown = shutdown

  def conns_of(self, srv):  # open connections die with their process
    return getattr(srv, "vsim_conns", ())

  def real_pipe(self):
    import socket
    a, b = socket.socketpair()
    C = multiprocessing.connection.Connection
    return C(a.detach()), C(b.detach())

  def current_thread(self):
    s = self.sched
    t = s._ident_tls.get(threads._thread.get_ident())
    if t is None:
      return self._real_current_thread()
    if t.tid not in self._names:
      self._names[t.tid] = TaskThread("MainThread" if t.tid == 0 else t.name)
    return self._names[t.tid]

  # -- seams --------------------------------------------------------------
  def seams(self):
    sim = self
    self._real_current_thread = threading.current_thread

    def pool(*a, **k):
      return SimPool(*a, **k)

    def ctx_pool(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None):
      return SimPool(processes, initializer, initargs, maxtasksperchild)

    def unsupported(*a, **k):
      raise core.SimUnsupported("real process outside the simulator")

    lc = dict(mm.listener_client)
    lc["pickle"] = (SimListener, sim.client)

    def handle_request(srv, conn):
      srv.__dict__.setdefault("vsim_conns", []).append(conn)
      try:
        srv._handle_request(conn)
      except SystemExit:
        pass
      finally:
        conn.close()

    return [
        (multiprocessing, "Pool", pool),
        (multiprocessing.pool, "Pool", SimPool),
        (multiprocessing.context.BaseContext, "Pool", ctx_pool),
        (multiprocessing.context.ForkProcess, "_Popen",
         staticmethod(unsupported)),
        (multiprocessing.context.Process, "_Popen",
         staticmethod(unsupported)),
        (mm, "listener_client", lc),
        (mm.BaseManager, "start",
         lambda m, initializer=None, initargs=(): sim.start_manager(
             m, initializer, initargs)),
        (mm.Server, "handle_request", handle_request),
        (multiprocessing.connection, "deliver_challenge",
         lambda c, k: None),
        (multiprocessing.connection, "answer_challenge", lambda c, k: None),
        (threading, "current_thread", sim.current_thread),
    ]

  def __enter__(self):
    ProcSim.current = self
    return self

  def __exit__(self, *a):
    for w in list(self.real_workers):
      w.kill()
    for srv in list(self.servers):
      mm.BaseProxy._address_to_local.pop(srv, None)
    ProcSim.current = None

  def leaks(self):
    """Pools and managers the code under test left running"""
    return ([f"pool({p._processes})" for p in self.pools
             if p._state == "RUN"] +
            [f"manager({m._address})" for m in self.managers
             if m._state.value == mm.State.STARTED])
