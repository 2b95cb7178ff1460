"""A benchmark that is stopped and resumed measures every case exactly once"""
import errno
import importlib.util
import io
import sys
import timeit
import types

import numpy as np

from vsim import core, fs as vfs, threads, train

EV = None
STATE = types.SimpleNamespace()
SCRIPT = core.REPO + "/scripts/cim22/performance.py"
SETUP = """from vsim.checks import c20 as _h
fbank = _h.bank({fs}, {stride_time}, {dur})
x = None
stride = 1
"""
METHODS = ("auto", "overlap-add", "direct", "fft", "strided")

CONFIG = {"runs": 4000, "wall": 32, "thorough_wall": 500, "run_limit": 60,
          "must_probe": ("finished", "resumed", "interrupted-measuring",
                         "killed", "failed-measuring")}
RULE = ("A run of the benchmark script on a simulated disk is stopped by a "
        "kill or power loss at a disk operation (writes may be torn), an "
        "interrupt at any line or inside a measurement, an exception of the "
        "measured code, a full disk or an I/O error, or not at all, and "
        "restarted with the same arguments, one to five times; then it is run "
        "without faults. A run counts if at least one fault fired; distinct "
        "runs are told apart by the hash of their fault decisions.")
REAL = ["scripts/cim22/performance.py (arguments, case enumeration, resume, "
        "saving, speed-up matrix)", "timeit", "pandas CSV reader/writer"]
STUB = ["measured convolution (advances the virtual clock)", "clock", "disk",
        "plotting"]
ASSUMPTIONS = ["the arguments do not change between the runs of a benchmark"]


class Done(BaseException):
  """The script got to its plot"""


def prepare():
  global EV
  spec = importlib.util.spec_from_file_location("cim22_performance", SCRIPT)
  EV = importlib.util.module_from_spec(spec)
  sys.modules["cim22_performance"] = EV
  spec.loader.exec_module(EV)
  threads.instrument((SCRIPT,))


class Bank:

  def __init__(self, case):
    self.case = case

  def convolve(self, x, method=None, stride=None):
    s = STATE
    k = (*self.case, "strided" if stride is not None else method)
    s.calls += 1
    if s.stop_at is not None and s.calls == s.stop_at[0]:
      kind = s.stop_at[1]
      s.stop_at = None
      s.stopped = kind
      s.run.fault(kind, "in a measurement")
      if kind == "interrupt":
        raise KeyboardInterrupt
      raise (MemoryError if kind == "memory" else train.InjectedError)(
          "measured code")
    dt = 0.001 * (1 + s.run.c.pick(50))
    s.run.now += dt
    if not s.log or s.log[-1][0] != k or len(s.log[-1][1]) == s.n:
      s.log.append((k, []))
    s.log[-1][1].append(dt)
    return np.zeros((1, 1))


def bank(fs, stride_time, dur):
  STATE.run.ev("setup", round(stride_time, 9), round(dur, 9))
  return Bank((dur, stride_time))


def scenario(run):
  c = run.c
  s = STATE
  s.__dict__.clear()
  s.run = run
  n, m = c.int(1, 3), c.int(2, 3)
  s.n = n
  total = m * m * len(METHODS)
  lo, hi = c.choice((0.5, 0.1)), c.choice((5.0, 2.0))
  slo, shi = c.choice((0.0, 0.002)), c.choice((0.01, 0.1))
  durs = np.exp(np.linspace(np.log(lo), np.log(hi), m))
  strides = np.exp(np.linspace(np.log(slo + 1), np.log(shi + 1), m)) - 1
  plan_list = []
  run.case = {"n": n, "cases": m, "lives": plan_list}
  cases = [(d, t, k, i, j, e) for i, d in enumerate(durs)
           for j, t in enumerate(strides) for e, k in enumerate(METHODS)]

  def timer():
    return run.now

  defaults = []
  for f in (timeit.Timer.__init__, timeit.repeat, timeit.timeit):
    defaults.append((f, "__defaults__", tuple(
        timer if x is timeit.default_timer else x for x in f.__defaults__)))

  def speedup_plot(speedup, *a, **k):
    s.speedup = np.array(speedup)
    raise Done()

  with vfs.SimFS(run) as disk:
    disk.put("setup.py.in", SETUP.encode())
    disk.put("out/keep", b"")
    s.recorded = []  # values of the cases in the file

    def verify(end, plan, before, measuring):
      data = disk.read("out/perf.csv")
      if data is None:
        got = []
      else:
        got = parse(run, data, cases, n)
      # what was there stays as it was
      k = min(len(got), len(before))
      for a, b in zip(got[:k], before[:k]):
        run.check(np.allclose(a, b, rtol=1e-9), "recorded-result-changed",
                  lambda: f"{a} was {b}")
      if len(got) < len(before):
        raise core.Violation("recorded-results-lost",
                             f"{len(before)} -> {len(got)} cases after {end}")
      # new ones are what was measured
      blocks = s.log
      full = [b for b in blocks if len(b[1]) == n]
      for i, (k_, vals) in enumerate(blocks):
        j = len(before) + i
        run.check(j < total and k_[2] == cases[j][2] and np.allclose(
            k_[:2], cases[j][:2]), "wrong-case-measured",
                  lambda: f"measured {k_} as case {j} of {total}")
      for i, a in enumerate(got[len(before):]):
        run.check(i < len(full) and np.allclose(a, full[i][1], rtol=1e-6),
                  "wrong-sample-recorded",
                  lambda: f"case {len(before) + i}: {a} measured "
                  f"{full[i][1] if i < len(full) else None}")
      new = len(got) - len(before)
      if end == "ok" and plan == "none":
        run.check(len(got) == total, "incomplete",
                  lambda: f"{len(got)} of {total}")
      if measuring and end in ("ok", "error"):
        run.check(new >= len(full), "measured-results-not-saved",
                  lambda: f"{new} of {len(full)} complete cases saved after "
                  f"{measuring}")
      run.state("C20", plan, end, len(got), n, m)
      return got

    def life(plan):
      s.log, s.calls, s.stop_at, s.stopped = [], 0, None, None
      s.speedup = None
      power = False
      argv = ["-O", disk.path("out", "perf.csv"), "-n", str(n), "-c", str(m),
              "--cochleagram-setup", disk.path("setup.py.in"), "-l",
              "CRITICAL", "--duration-min", str(lo), "--duration-max",
              str(hi), "--stride-min", str(slo), "--stride-max", str(shi)]
      before = s.recorded
      left = [None]
      if plan in ("kill", "power"):
        if c.prob(0.7):
          disk.arm_crash(c.choice((3, 6)), disk.MUTATING)
        else:
          disk.arm_crash(c.choice((3, 12, 60)))
        power = plan == "power"
      elif plan in ("full", "eio"):
        disk.arm_error(errno.ENOSPC if plan == "full" else errno.EIO,
                       c.choice((2, 6)), lasts=50 if plan == "full" else 1,
                       kinds=(*disk.MUTATING, "open", "read"))
      elif plan in ("interrupt", "memory", "raise"):
        s.stop_at = (c.int(1, max(1, (total - len(before)) * n)), plan)
      elif plan == "interrupt-line":
        left[0] = c.choice((30, 200, 900))
        left[0] = c.int(1, left[0])
      elif plan == "short":
        disk.short = 0.3

      def hook(code, where):
        if left[0] is not None and code.co_name != "<module>":
          left[0] -= 1
          if left[0] <= 0:
            left[0] = None
            s.stopped = "line"
            run.fault("interrupt-line", code.co_name)
            raise KeyboardInterrupt

      run.ev("life", plan)
      end = "?"
      with threads.Sched(run) as sched:
        disk.sched = sched
        sched.tick_hook = hook
        with core.patched(*threads.seams(sched), *disk.seams(), *defaults,
                          (EV, "log_speedup_imshow", speedup_plot)):
          try:
            EV.main(*argv)
            end = "ok"
          except Done:
            end = "ok"
          except core.SimCrash:
            end = "crash"
          except KeyboardInterrupt:
            if s.stopped != "line":
              raise core.Violation(
                  "interrupt-not-handled", "interrupted while measuring"
              ) from None
            end = "interrupt"
          except (train.InjectedError, MemoryError):
            run.check(s.stopped in ("memory", "raise"), "unexpected-exception")
            end = "error"
          except OSError as e:
            if e.errno not in (errno.ENOSPC, errno.EIO) or not (
                plan in ("full", "eio")):
              raise core.Violation(
                  "run-fails", f"{e} at {core.sut_site(e)}") from e
            end = "disk"
          except core.Violation:
            raise
          except Exception as e:  # pylint: disable=W0718
            if s.stopped == "line":
              end = "interrupt"  # interrupted in the middle of a library call
            else:
              raise core.Violation(
                  "resume-fails" if before else "run-fails",
                  f"{type(e).__name__}: {e} at {core.sut_site(e)}; disk "
                  f"{disk.listing()}") from e
          sched.tick_hook = None
      disk.restart(power=end == "crash" and power)
      disk.short = 0.0
      plan_list.append((plan, end))
      run.ev("end", end)
      if s.stopped in ("memory", "raise"):
        run.check(end == "error", "error-swallowed", end)
        run.probe("failed-measuring")
      if s.stopped == "interrupt":
        run.probe("interrupted-measuring")
      if end == "crash":
        run.probe("killed")
      if before and s.log:
        run.probe("resumed")
      measuring = s.stopped if s.stopped in ("interrupt", "memory",
                                             "raise") else None
      s.recorded = verify(end, plan, before, measuring)

    for _ in range(c.int(1, 5)):
      life(c.weighted([(3, "interrupt"), (2, "raise"), (1, "memory"),
                       (3, "kill"), (2, "power"), (2, "interrupt-line"),
                       (1, "full"), (1, "eio"), (1, "short")]))
    life("none")
    run.probe("finished")
    # a complete benchmark measures nothing more
    life("none")
    run.check(not s.log, "measured-again", lambda: str(s.log))


def parse(run, data, cases, n):
  """Samples of each recorded case; the file must be a prefix of the cases"""
  import pandas as pd
  try:
    df = pd.read_csv(io.StringIO(data.decode("utf-8")))
    cols = {k: df[k].to_list() for k in (
        "method", "stride", "duration", "method_i", "stride_i", "duration_i",
        "timeit")}
  except Exception as e:  # pylint: disable=W0718
    raise core.Violation("results-unreadable", f"{type(e).__name__}: {e}: "
                         f"{data[-80:]!r}") from e
  rows = len(df)
  run.check(rows % n == 0 and rows <= len(cases) * n, "partial-case-recorded",
            lambda: f"{rows} rows, {n} samples per case")
  out = []
  for i in range(rows // n):
    d, t, k, d_i, s_i, k_i = cases[i]
    for j in range(i * n, i * n + n):
      ok = (cols["method"][j] == k and cols["method_i"][j] == k_i and
            cols["stride_i"][j] == s_i and cols["duration_i"][j] == d_i and
            np.isclose(cols["duration"][j], d) and
            np.isclose(cols["stride"][j], t, atol=1e-12))
      run.check(ok, "wrong-case-recorded",
                lambda: f"row {j}: { {q: v[j] for q, v in cols.items()} }, "
                f"expected case {(d, t, k, d_i, s_i, k_i)}")
      run.check(np.isfinite(cols["timeit"][j]) and cols["timeit"][j] > 0,
                "torn-sample", lambda: str(cols["timeit"][j]))
    out.append([float(cols["timeit"][j]) for j in range(i * n, i * n + n)])
  return out
