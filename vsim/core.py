"""Core of the simulator: the choice source (one seed decides everything),
the run context (event log, fault counters, reach probes) and the exception
taxonomy that keeps violations, simulated faults and harness bugs apart."""
import collections
import contextlib
import hashlib
import random
import traceback

REPO = "/repo"
ENTROPY = [0]  # stands for OS entropy
RUNAWAY = 200_000  # choices per run before it is cut as a runaway


class Violation(Exception):
  """A property was broken. `cls` identifies the violation class (used while
  minimising, and as the key of the known-findings file)"""

  def __init__(self, cls, msg=""):
    super().__init__(f"{cls}: {msg}")
    self.cls = cls
    self.msg = msg


class Discard(BaseException):
  """The generated case is vacuous: not counted as non-trivial"""


class SimUnsupported(BaseException):
  """Code under test used something the simulator does not model: an error of
  the harness, never a violation"""


class SimCrash(BaseException):
  """The simulated process was killed here"""


class SimKilled(BaseException):
  """Unwinds parked simulated tasks at the end of a run"""


class Chooser:
  """Source of every decision. Value 0 is always the simplest choice"""

  def __init__(self, seed=None, replay=None):
    self.rng = random.Random(seed)
    self.replay = None if replay is None else list(replay)
    self.trace = []

  def _next(self, n, gen):
    k = len(self.trace)
    if k > RUNAWAY:
      raise SimUnsupported("runaway: too many choices in one run")
    if self.replay is None:
      v = gen()
    else:
      v = self.replay[k] if k < len(self.replay) else 0
    if v >= n:
      v = n - 1
    self.trace.append(v)
    return v

  def pick(self, n):
    """Uniform integer in [0, n)"""
    if n <= 1:
      return 0
    return self._next(n, lambda: self.rng.randrange(n))

  def int(self, lo, hi):
    """Uniform integer in [lo, hi]"""
    return lo + self.pick(hi - lo + 1)

  def prob(self, p):
    """True with probability p (False is the simplest outcome)"""
    if p <= 0:
      return False
    return bool(self._next(2, lambda: int(self.rng.random() < p)))

  def choice(self, seq):
    return seq[self.pick(len(seq))]

  def weighted(self, pairs):
    """[(weight, value), ...]; the first is the simplest"""
    tot = sum(w for w, _ in pairs)

    def gen():
      r = self.rng.random() * tot
      for i, (w, _) in enumerate(pairs):
        r -= w
        if r < 0:
          return i
      return len(pairs) - 1

    return pairs[self._next(len(pairs), gen)][1]

  def gap(self, mean):
    """Distance to the next preemption: None (never; the simplest) or >= 1"""

    def gen():
      r = self.rng.random()
      if r < 0.1:
        return 0
      return 1 + min(4000, int(self.rng.expovariate(1.0 / max(1, mean))))

    v = self._next(4002, gen)
    return None if v == 0 else v

  def real(self, lo, hi, steps=1024):
    """Number on a grid between lo and hi"""
    return lo + (hi - lo) * self.pick(steps + 1) / steps

  def shuffle(self, seq):
    s = list(seq)
    out = []
    while s:
      out.append(s.pop(self.pick(len(s))))
    return out

  def subset(self, seq, p=0.5):
    return [x for x in seq if self.prob(p)]


class Run:
  """One simulated execution"""

  def __init__(self, seed=None, replay=None, tier="quick", keep_log=True):
    self.c = Chooser(seed, replay)
    self.seed = seed
    self.tier = tier
    self.log_hash = hashlib.sha256()
    self.scratch = None  # a directory whose name is not part of the run
    self.log = collections.deque(maxlen=4000) if keep_log else None
    self.n_events = 0
    self.faults = collections.Counter()
    self.probes = collections.Counter()
    self.states = set()
    self.schedule_hash = hashlib.sha256()
    self.now = 0.0
    self.nontrivial = False
    self.case = None  # short description of the case for the evidence

  def ev(self, *parts):
    """Append to the event log"""
    s = " ".join(str(p) for p in parts)
    if self.scratch is not None:  # differs from process to process
      s = s.replace(self.scratch, "~")
    self.n_events += 1
    self.log_hash.update(s.encode("utf-8", "replace") + b"\n")
    if self.log is not None:
      self.log.append(s)

  def sched(self, *parts):
    """Record a scheduling/fault decision in the interleaving fingerprint"""
    self.schedule_hash.update(repr(parts).encode())

  def fault(self, kind, where=""):
    self.faults[kind] += 1
    self.nontrivial = True
    self.sched("fault", kind, where)
    self.ev("FAULT", kind, where)

  def probe(self, name, n=1):
    self.probes[name] += n

  def state(self, *key):
    if len(self.states) < 5000:
      self.states.add(hash(key) & 0xffffffffffffffff)

  def check(self, cond, cls, msg=""):
    if not cond:
      raise Violation(cls, msg() if callable(msg) else msg)

  def sut(self, fn, *args, allowed=(), what="", **kwargs):
    """Call the system under test where only `allowed` exceptions may escape.
    Returns (value, exception)"""
    try:
      return fn(*args, **kwargs), None
    except Violation:
      raise
    except allowed as e:
      return None, e
    except Exception as e:  # pylint: disable=W0718
      raise Violation(
          "unexpected-exception",
          f"{what or getattr(fn, '__name__', fn)} raised "
          f"{type(e).__name__}: {e} at {sut_site(e)}") from e


def sut_site(e):
  """Innermost frame of the traceback in the repository"""
  site = None
  for f in traceback.extract_tb(e.__traceback__):
    if f.filename.startswith(REPO + "/"):
      site = f"{f.filename[len(REPO) + 1:]}:{f.name}"
  return site


@contextlib.contextmanager
def patched(*triples):
  """Set attributes for the duration of a run: (obj, name, value)"""
  missing = object()
  saved = []
  try:
    for obj, name, value in triples:
      saved.append((obj, name, obj.__dict__.get(name, missing)
                    if hasattr(obj, "__dict__") and name != "__defaults__"
                    else getattr(obj, name)))
      setattr(obj, name, value)
    yield
  finally:
    for obj, name, value in reversed(saved):
      if value is missing:
        try:
          delattr(obj, name)
        except AttributeError:
          pass
      else:
        setattr(obj, name, value)
