"""The example script gives the whole sound, analysed and complete, or an
error, whatever the network, the disk, the workers and the clock do"""
import contextlib
import errno
import importlib.util
import io
import logging
import os
import socket
import sys
import types
import warnings

import numpy as np
import requests
import sklearn.base
import tqdm
from scipy.io import wavfile

from vsim import (core, fs as vfs, guilab, guisim, models, net, threads,
                  train)

EV = None
STATICS = []
SCRIPT = core.REPO + "/scripts/beatsdrop/example.py"
LIB = core.REPO + "/sample/"
URL = "http://sounds.example.org/a/b/glass.wav"
ENCODINGS = ("int16", "float32", "uint8", "int32", "float64")
NET = ("dns", "refused", "connect-timeout", "reset", "stall", "close",
       "status")

CONFIG = {"runs": 4000, "wall": 40, "thorough_wall": 600, "run_limit": 90,
          "must_probe": ("downloaded", "finished", "net-failed",
                         "fit-failed", "disk-failed", "redirected",
                         "modes-found", "repeated")}
RULE = ("The example script analyses a seeded sound (any encoding, mono or "
        "stereo) at a path or a URL, crops it by time or by onset, with one "
        "to six workers under a seeded schedule, and is stopped by a name "
        "that cannot be resolved, a refused, reset, stalled or short "
        "connection, an error status, a reading fault, a full disk, a kill, "
        "an interrupt, or a failing regression, up to three times; then it "
        "is run without faults. A run counts if a fault fired; distinct runs "
        "are told apart by the hash of the faults and the schedule.")
REAL = ["scripts/beatsdrop/example.py", "requests, urllib3, http.client",
        "sample.beatsdrop.sample, sample.sample, sample._training",
        "throttle", "scipy.io.wavfile", "worker processes (forked, lockstep)"]
STUB = ["sockets and name resolution", "disk", "clock", "progress bar display",
        "multiprocessing.Pool bookkeeping, manager transport",
        "beat regressor limited to 3 solver iterations"]
ASSUMPTIONS = ["the server tells the length of what it sends, or sends it in "
               "chunks"]


def prepare():
  global EV
  import throttle
  init = throttle.Static.__init__

  def tracked(self, *a, **k):
    STATICS.append(self)
    return init(self, *a, **k)

  import time
  kwd = init.__kwdefaults__
  kwd["time"] = lambda: time.monotonic()
  throttle.Static.__init__ = tracked
  spec = importlib.util.spec_from_file_location("beatsdrop_example", SCRIPT)
  EV = importlib.util.module_from_spec(spec)
  sys.modules["beatsdrop_example"] = EV
  spec.loader.exec_module(EV)
  throttle.Static.__init__ = init
  threads.instrument((SCRIPT, LIB))
  requests.get  # first use of lazily made parts of the library
  with contextlib.suppress(Exception):
    "x".encode("idna")


class Bar:
  """A progress bar that remembers what was shown"""

  def __init__(self, *a, total=None, **_):
    self.total = total if total is not None else (a[0] if a else None)
    self.n = 0
    self.last_print_n = 0
    self.shown = []

  def refresh(self, *a, **k):
    self.shown.append((self.total, self.n))

  def update(self, n=1):
    self.n += n
    self.refresh()

  def clear(self, *a, **k):
    pass

  def close(self):
    pass

  def reset(self, total=None):
    self.n, self.total = 0, total


def encode(x, kind, stereo):
  """Samples in a file of that kind"""
  if stereo:
    x = np.stack([x, x[::-1] * 0.5], axis=-1)
  if kind.startswith("float"):
    return x.astype(kind)
  if kind == "uint8":
    return np.clip(np.round(x * 127) + 128, 0, 255).astype(np.uint8)
  k = np.iinfo(kind)
  return np.clip(np.round(x * k.max), k.min, k.max).astype(kind)


def region(x, fs, start, end):
  """What is documented to be analysed"""
  from sample.utils import dsp
  i0 = None if start is None else int(start * fs)
  i1 = None if end is None else int(end * fs)
  if i0 is None or i1 is None:
    ons = [int(i) for i in np.flatnonzero(dsp.onset_detection(x))] + [x.size]
    if i0 is None and i1 is None:
      if len(ons) < 2:
        return x
      k = int(np.argmax(np.diff(ons)))
      return x[ons[k]:ons[k + 1]]
    if i1 is None:
      i1 = min([i for i in ons if i > i0], default=x.size)
    else:
      i0 = max([i for i in ons if i < i1], default=0)
  return x[i0:i1]


def scenario(run):
  c = run.c
  fs = c.choice((8000, 11025))
  x, _ = models.signal(c, fs=fs, n_modes=c.int(1, 3),
                       dur=c.choice((0.25, 0.4)))
  x = x / max(1.0, np.max(np.abs(x)) * 1.05)
  if c.prob(0.5):  # two strokes
    k = c.choice((400, 1500))
    x = np.concatenate([np.zeros(k), 0.6 * x[:x.size // 2], x])
  kind = c.weighted([(5, "int16"), (2, "float32"), (1, "uint8"), (1, "int32"),
                     (1, "float64")])
  if kind.startswith("float") and c.prob(0.3):
    x = x * 3  # louder than a file of integers can be
  y = encode(x, kind, c.prob(0.2))
  data = guisim.wav(fs, y)
  dur = len(x) / fs
  start = c.real(0, dur / 2, 40) if c.prob(0.3) else None
  end = c.real(dur * 0.6, dur, 40) if c.prob(0.3) else None
  if c.prob(0.15):  # exactly at an onset
    from sample.utils import dsp
    ons = np.flatnonzero(dsp.onset_detection(guisim.mono(y)))
    if ons.size:
      t = (int(c.choice(ons)) + 0.5) / fs
      start, end = c.choice(((t, None), (None, t), (t, dur), (0.0, t)))
      run.probe("cropped-at-onset")
  online = c.prob(0.6)
  crop, clip, bar = c.prob(0.8), c.prob(0.3), c.prob(0.6)
  named = c.prob(0.5)
  tol = 1e-6 if kind == "float32" else 1e-9
  mono = guisim.mono(y)
  if y.dtype.kind == "f":
    mono = np.mean(y, axis=-1) if y.ndim > 1 else y
  want = {}

  with vfs.SimFS(run) as disk, guilab.quick_beats(), contextlib.ExitStack() \
      as st:
    disk.put("data/glass.wav" if not online else "data/keep", data)
    disk.put("out/keep", b"")
    os.chdir(disk.path("data"))
    st.callback(os.chdir, "/")
    st.callback(logging.captureWarnings, False)
    logging.disable(logging.CRITICAL)
    st.callback(logging.disable, logging.NOTSET)
    argv = ["-l", "CRITICAL"]
    argv += ["-u", URL] if online else ["-i", disk.path("data", "glass.wav")]
    out, cut = "data/glass-output.wav", "data/glass-cropped.wav"
    if named:
      out, cut = "out/o.wav", "out/c.wav"
      argv += ["-o", disk.path(out), "-c", disk.path(cut)]
    argv += [] if crop else ["--no-crop"]
    argv += ["--clip"] if clip else []
    argv += [] if bar else ["--no-tqdm"]
    argv += [] if start is None else ["-s", repr(start)]
    argv += [] if end is None else ["-e", repr(end)]
    run.case = {"argv": argv, "fs": fs, "samples": len(x), "kind": kind}

    def expected():
      """The region, or the error that the library gives"""
      if "x" not in want:
        want["x"] = mono
        if crop:
          want["x"] = region(mono, fs, start, end)
      return want["x"]

    expected()

    def analysed(trained):
      """It is the region that is analysed"""
      r = expected()
      for _, tx, _ in trained:
        run.check(np.shape(tx) == r.shape and np.allclose(tx, r, tol, tol),
                  "wrong-sound-analysed",
                  lambda tx=tx: f"{np.shape(tx)} {r.shape}")

    def right(trained):
      """The files hold what they should"""
      r = expected()
      if crop:
        got = sound(run, disk, cut, fs)
        run.check(got.shape == r.shape and np.allclose(got, r, tol, tol),
                  "wrong-cropped-sound", lambda: f"{got.shape} {r.shape}")
      run.check(len(trained) == 1, "trainings", lambda: str(len(trained)))
      params, tx, model = trained[0]
      run.check(model.sinusoidal.tracker.fs == fs, "wrong-rate",
                lambda: f"{model.sinusoidal.tracker.fs} {fs}")
      key = (repr(sorted((k, str(v)) for k, v in params.get_params().items())),
             tx.tobytes())
      if want.get("key") != key:
        ref = sklearn.base.clone(params)
        ref.fit(tx, sinusoidal__tracker__fs=fs)
        want["key"], want["model"] = key, models.observe(ref)
        want["y"] = ref.predict(np.arange(r.size) / fs)
        if ref.freqs_.size:
          run.probe("modes-found")
      d = models.diff(want["model"], models.observe(model))
      run.check(d is None, "wrong-model", lambda: d)
      w = want["y"]
      peak, top = np.max(np.abs(w)), 10**(-0.3 / 20)
      if peak > top:
        run.probe("loud")
        if not clip:
          w = w * (top / peak)
      got = sound(run, disk, out, fs)
      run.check(got.shape == w.shape and
                np.allclose(got, w, 1e-9, 1e-9 * max(1, peak)),
                "wrong-resynthesis", lambda: f"{got.shape} {w.shape}")

    def library_error(training):
      """The error of the library itself for this sound, if any"""
      params, tx, _ = training
      try:
        sklearn.base.clone(params).fit(tx, sinusoidal__tracker__fs=fs)
      except Exception as e:  # pylint: disable=W0718
        return type(e).__name__
      return None

    def life(plan):
      for v in STATICS:  # a new process
        v._bucket.clear()
        v._memory.clear()
      threads.reset_locks()
      trained, bars = [], []
      s = types.SimpleNamespace(sent=0)
      injected = None
      n_fault = train.harm(run)
      power = False
      before = disk.read(out)
      request, connect = server(run, c, data, plan, s)
      if plan == "kill":
        disk.arm_crash(c.choice((2, 5, 10)), disk.MUTATING)
        power = c.prob(0.5)
      elif plan == "full":
        disk.arm_error(errno.ENOSPC, c.choice((2, 5)), lasts=99,
                       kinds=disk.MUTATING)
      elif plan == "read":
        disk.arm_error(errno.EIO, c.choice((1, 3)), kinds=("open", "read"))
      elif plan == "short":
        disk.short = 0.4
      stage = [0]  # before, in and after the training
      stop = None
      if plan == "interrupt":
        stop = c.choice((0, 1, 2, 2))
      left = [c.int(1, (200, c.choice((300, 3000)), 60)[stop])
              if plan == "interrupt" else None]
      failing = [c.int(1, 6) if plan == "fit" else None]
      run.ev("life", plan)
      with train.simulation(run) as (sched, sim):
        sim.slow_workers(c, (0.05, 0.5))
        disk.sched = sched
        main = sched.current
        wire = net.Net(run, sched, request, connect)

        def hook(code, line):
          if left[0] is not None and sched.current is main and (
              stage[0] == stop):
            left[0] -= 1
            if left[0] <= 0:
              left[0] = None
              run.fault("interrupt", code.co_name)
              raise KeyboardInterrupt

        if plan == "parallel":
          site = c.choice(("pool-start", "manager-start", "proxy-connect",
                           "proxy-send", "proxy-recv"))
          injected = OSError(errno.EAGAIN, "no resources")
          sim.fault_plan = {site: (c.int(1, 3), injected)}
        import sample.sample
        fit = sample.sample.SAMPLE.fit

        def recorded(self, x, y=None, **k):
          trained.append((sklearn.base.clone(self), np.array(x), self))
          stage[0] = 1
          r = fit(self, x, y, **k)
          stage[0] = 2
          return r

        from sample import hinge
        reg = hinge.HingeRegression.fit

        def regress(self, *a, **k):
          if failing[0] is not None:
            failing[0] -= 1
            if failing[0] <= 0:
              raise train.InjectedError("regressor")
          return reg(self, *a, **k)

        def new_bar(*a, **k):
          bars.append(Bar(*a, **k))
          return bars[-1]

        sched.tick_hook = hook
        end, err = "ok", None
        with core.patched(
            *disk.seams(), *wire.seams(), (tqdm, "trange", new_bar),
            (tqdm, "tqdm", new_bar), (sample.sample.SAMPLE, "fit", recorded),
            (hinge.HingeRegression, "fit", regress)):
          try:
            EV.main(*argv)
          except core.SimCrash:
            end = "crash"
          except core.Violation:
            raise
          except (Exception, KeyboardInterrupt) as e:  # pylint: disable=W0718
            end, err = "error", e
        sched.tick_hook = None
        if end != "crash":
          leaks = sim.leaks()
          run.check(not leaks, "resource-leak", lambda: str(leaks))
      disk.disarm()
      disk.restart(power=power and end == "crash")
      disk.short = 0.0
      analysed(trained)
      if plan == "fit" and err is not None:
        run.faults["fit-fails"] += 1
      fired = train.harm(run) > n_fault
      run.ev("end", end, type(err).__name__)
      run.state("C23", plan, end, type(err).__name__, online)
      if end == "ok":
        run.probe("finished")
        run.check(plan not in NET or not s.failed, "error-swallowed",
                  lambda: f"network: {plan}")
        if plan == "interrupt":
          run.check(not fired, "error-swallowed", plan)
        right(trained)
        for b in bars:
          shown = [(t, min(n, t)) for t, n in b.shown]
          for (t, n), (t1, n1) in zip(shown, shown[1:]):
            run.check(t != t1 or n1 >= n or n1 == 0, "progress-goes-back",
                      lambda t=t, n=n, n1=n1: f"{n} to {n1} of {t}")
          run.check(not shown or shown[-1][0] == shown[-1][1],
                    "progress-not-full", lambda: str(shown[-3:]))
        return True
      if end == "crash":
        return False
      if trained and library_error(trained[0]) == type(err).__name__:
        raise core.Discard("the library cannot analyse this sound")
      run.check(fired, "spurious-error", lambda: f"{err!r} at "
                f"{core.sut_site(err)}")
      chain = train.chain(err)
      if plan in NET:
        run.probe("net-failed")
        ok = isinstance(err, requests.RequestException)
      elif plan in ("full", "read"):
        run.probe("disk-failed")
        ok = any(isinstance(e, OSError) for e in chain)
      elif plan == "fit":
        run.probe("fit-failed")
        ok = any(isinstance(e, train.InjectedError) for e in chain)
      elif plan == "interrupt":
        ok = isinstance(err, KeyboardInterrupt)
      else:
        ok = any(type(e) is type(injected) or "no resources" in str(e)
                 for e in chain)
      run.check(ok, "error-replaced", lambda: f"{plan}: {err!r} at "
                f"{core.sut_site(err)}")
      if plan not in ("full",) and disk.read(out) != before:
        right(trained)  # not presented unless complete
      return False

    n = c.int(0, 3)
    for _ in range(n):
      plans = [(2, "kill"), (2, "full"), (2, "interrupt"), (2, "fit"),
               (1, "parallel"), (1, "short"), (1, "none")]
      plans += [(2, p) for p in NET] if online else [(2, "read")]
      life(c.weighted(plans))
    run.check(life("none"), "does-not-recover")
    if n:
      run.probe("repeated")
    if online:
      run.probe("downloaded")


def server(run, c, data, plan, s):
  """What answers to the script: (request, connect)"""
  s.failed = False
  s.left = c.weighted([(4, 99), (1, 1), (1, 2)])  # attempts that fail
  hops = c.weighted([(6, 0), (1, 1), (1, 3)])

  def request(method, host, path):
    run.check(method == "GET", "not-a-download", method)
    if s.sent < hops:
      s.sent += 1
      run.probe("redirected")
      to = c.choice((f"/moved/{s.sent}.wav",
                     f"http://mirror{s.sent}.example.org/m.wav"))
      return net.Plan(status=c.choice((301, 302, 307)), headers=[
          f"Location: {to}"], body=b"moved")
    ctype = ["Content-Type: audio/x-wav"]
    chunked = c.prob(0.3)
    if plan in ("reset", "stall", "close", "status"):
      s.left -= 1
    s.failed = s.left >= 0 and plan in NET
    if not s.failed:
      return net.Plan(headers=ctype, body=data, chunked=chunked)
    if plan in ("reset", "stall", "close"):
      return net.Plan(plan, headers=ctype, body=data, chunked=chunked,
                      at=c.choice((0.0, 0.0005, 0.01, 0.3, 0.7, 0.99)))
    run.fault("net-status")
    return net.Plan(status=c.choice((404, 403, 500, 503, 429)),
                    headers=ctype, body=c.choice((
                        b"<html>no such sound</html>", b"",
                        guisim.wav(8000, np.zeros(4000, np.int16)))))

  def connect(host, timeout):
    if plan in ("dns", "refused", "connect-timeout"):
      s.left -= 1
      if s.left < 0:
        s.failed = False
        return
    if plan == "dns":
      s.failed = True
      run.fault("net-dns")
      raise socket.gaierror(-3, "Temporary failure in name resolution")
    if plan == "refused":
      s.failed = True
      run.fault("net-refused")
      raise ConnectionRefusedError(111, "Connection refused")
    if plan == "connect-timeout":
      s.failed = True
      run.fault("net-connect-timeout")
      if not isinstance(timeout, (int, float)):
        raise core.Violation("waits-for-ever", f"time limit {timeout}")
      threads.active().sleep(timeout)
      raise socket.timeout("timed out")

  return request, connect


def sound(run, disk, rel, fs):
  """Samples of a written file, checked to be complete"""
  data = disk.read(rel)
  run.check(data is not None, "file-missing", rel)
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("error")
      rate, x = wavfile.read(io.BytesIO(data))
  except Exception as e:  # pylint: disable=W0718
    raise core.Violation("file-unreadable", f"{rel}: {e!r}") from e
  run.check(rate == fs, "wrong-rate", lambda: f"{rel}: {rate} of {fs}")
  return np.asarray(x, dtype=float)
