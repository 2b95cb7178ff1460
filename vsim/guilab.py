"""A simulated user that analyses sounds with the application. Shared by the
checks of the analysis, of its results, and of playback"""
import contextlib
import copy
import errno
import io
import json
import warnings

import numpy as np
from scipy.io import wavfile

from vsim import core, guisim, models, train
from vsim.train import InjectedError

# label -> (parameter, values that make a fast analysis)
NUMBERS = {
    "n modes": ("max_n_modes", (1, 2, 8)),
    "n sines": ("sinusoidal__tracker__max_n_sines", (2, 6, 12)),
    "fft size": ("sinusoidal__n", (256, 512, 1024)),
    "hop size": ("sinusoidal__tracker__h", (64, 100, 128)),
    "frequency deviation offset": ("sinusoidal__tracker__freq_dev_offset",
                                   (5.0, 20.0, 60.0)),
    "frequency deviation slope": ("sinusoidal__tracker__freq_dev_slope",
                                  (0.0, 0.0025, 0.02)),
    "onset threshold": ("sinusoidal__tracker__peak_threshold",
                        (-66.0, -30.0, -90.0)),
    "peak detection threshold": ("sinusoidal__t", (-60.0, -80.0, -90.0)),
    "minimum sine duration": ("sinusoidal__tracker__min_sine_dur",
                              (0.05, 0.02, 0.1)),
    "strip time": ("sinusoidal__tracker__strip_t", (0.5, 0.08, 2.0)),
    "lower frequency bound": (None, (20, 300)),
    "upper frequency bound": (None, (3500, 16000)),
    "window size": (None, (128, 200, 256)),
    "threshold": ("beat_decisor__th", (4.0, 0.5)),
    "lpf": ("beatsdrop__lpf", (12.0, 30.0)),
}
TOGGLES = {"reverse": "sinusoidal__tracker__reverse",
           "zero-padding": "sinusoidal__padded", "BeatsDROP": "beatsdrop"}


@contextlib.contextmanager
def quick_beats():
  """The real beat regressor with few solver iterations"""
  from sample.beatsdrop import regression
  fit = regression.DualBeatRegression.fit
  with core.patched((regression.DualBeatRegression, "fit",
                     lambda s, *a, **k: fit(s, *a, **dict(k, max_nfev=3)))):
    yield


class Done:
  """A finished analysis"""

  def __init__(self, model):
    self.model = model
    self.lengths = set()  # of the regions since it was started


class Lab:

  def __init__(self, run, busy=0.3, faults=True, parallel=False):
    self.run, self.c = run, run.c
    self.busy_p = busy
    self.faults = faults
    self.parallel = parallel
    self.done = []  # analyses that may be the current one; None: no analysis
    self.running = False
    self.n_busy = 0
    self.depth = 0
    self.phase = None
    self.typed = {}
    self.hinge_left = None
    self.violation = None

  def start(self, g):
    """A new process of the application"""
    self.g = g
    self.done = [None]
    self.running = False
    self.phase = None
    self.typed = {}

  # -- the sound ----------------------------------------------------------
  def sound(self):
    """A seeded WAV file: path, rate, samples as presented"""
    c, g = self.c, self.g
    fs = c.choice((8000, 4000, 11025))
    if c.prob(0.12):
      x = np.zeros(c.choice((1, 40, 300)))
      x[0] = 0.5
      self.run.probe("tiny-sound")
    else:
      x, _ = models.signal(c, fs=fs, n_modes=c.int(1, 3),
                           dur=c.choice((0.15, 0.25)))
      x = x / max(1.0, np.max(np.abs(x)) * 1.05)
    y = np.round(x * 32767).astype(np.int16)
    rel = f"home/s{c.int(0, 2)}.wav"
    g.fs.put(rel, guisim.wav(fs, y))
    return g.fs.path(rel), fs, guisim.mono(y)

  def load(self):
    g, run = self.g, self.run
    path, fs, x = self.sound()
    g.answers["askopenfilename"] = path
    n = len(g.dialogs)
    g.press("Load")
    self.no_errors("load")
    run.check(len(g.dialogs) == n, "error-shown", lambda: repr(g.dialogs))
    t = g.tab(0)
    run.check(t.audio_sr == fs and np.allclose(t.audio_x, x, 1e-6, 1e-7),
              "wrong-sound")
    self.note()

  def trim(self):
    g, c = self.g, self.c
    x, sr, a, b = self.state()
    which = c.choice(("start", "stop"))
    del a, b
    if x is not None:
      g.app.type(g.entry(which), f"{c.real(0, x.size / sr, 40):.5f}")
    self.no_errors("trim")
    self.note()

  def state(self):
    t = self.g.tab(0)
    return t.audio_x, t.audio_sr, t.audio_trim_start, t.audio_trim_stop

  def region(self):
    x, _, a, b = self.state()
    return None if x is None else np.array(x[a:b])

  def note(self):
    r = self.region()
    for d in self.done:
      if d is not None and r is not None:
        d.lengths.add(r.size)
    if self.running and r is not None:
      self.pending.lengths.add(r.size)

  def no_errors(self, what):
    e = self.g.display.errors
    self.run.check(not e, "callback-error", lambda: f"in {what}: {e[0]!r} at "
                   f"{core.sut_site(e[0])}")

  # -- settings -----------------------------------------------------------
  def tune(self, first=False):
    """Change and apply some settings"""
    g, c, run = self.g, self.c, self.run
    for k, (_, vs) in NUMBERS.items():
      if first and k in ("fft size", "hop size", "window size", "n sines",
                         "minimum sine duration") or c.prob(0.15):
        v = c.choice(vs)
        g.app.type(g.entry(k), str(v))
        self.typed[k] = v
    for k in TOGGLES:
      if c.prob(0.3 if k != "BeatsDROP" else 0.15):
        g.app.toggle(g.entry(k))
    if self.parallel and (first or c.prob(0.1)):
      g.app.toggle(g.entry("multiprocessing"))
      g.app.type(g.entry("n jobs"), str(c.int(1, 3)))
    g.press("Apply")
    self.no_errors("apply")
    kw = self.kwargs()
    for k, v in self.typed.items():
      p = NUMBERS[k][0]
      run.check(p is None or kw[p] == v, "wrong-setting-in-force",
                lambda k=k, v=v, p=p: f"{k} {v}: {kw[p]}")
    for k, p in TOGGLES.items():
      run.check(bool(kw[p]) == (str(g.text(k)).lower() in ("1", "true")),
                "wrong-setting-in-force", lambda k=k: k)
    n, w = self.typed.get("fft size"), self.typed.get("window size")
    if n and w:
      run.check(len(kw["sinusoidal__w"]) == min(n, w),
                "wrong-setting-in-force", "window size")
    lo, hi = (self.typed.get("lower frequency bound"),
              self.typed.get("upper frequency bound"))
    if lo and hi:
      run.check(tuple(kw["sinusoidal__tracker__frequency_bounds"]) == (lo, hi),
                "wrong-setting-in-force", "frequency bounds")

  def kwargs(self):
    return copy.deepcopy(self.g.tab(1).sample_object_kwargs)

  # -- analysis -----------------------------------------------------------
  def reference(self):
    """The model that the library gives for what is selected now"""
    import sample.beatsdrop.sample as bs
    import sample.sample as ss
    kw = self.kwargs()
    m = bs.SAMPLEBeatsDROP() if kw["beatsdrop"] else ss.SAMPLE()
    p = m.get_params()
    a = {k: v for k, v in kw.items() if k in p and k != "beatsdrop"}
    a["sinusoidal__intermediate__save"] = True
    if kw["beatsdrop"]:
      a["beat_decisor__intermediate__save"] = True
    a["sinusoidal__tracker__fs"] = self.state()[1]
    m.set_params(**a)
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      try:
        m.fit(self.region())
      except Exception as e:  # pylint: disable=W0718
        return None, e
    return m, None

  def analyze(self):
    """Press the button and wait for the end of the analysis"""
    g, run, c = self.g, self.run, self.c
    from sample import hinge
    n = len(g.dialogs)
    x = self.region()
    if x is None:
      before = self.g.tab(2).sample_object
      g.press("Analyze")
      self.no_errors("analysis")
      run.check(len(g.dialogs) == n + 1 and
                g.dialogs[-1][0] == "showerror" and
                self.g.tab(2).sample_object is before,
                "error-not-shown-once", lambda: repr(g.dialogs[n:]))
      return
    ref, err = self.reference()
    self.pending = Done(ref)
    self.pending.lengths.add(x.size)
    fail = self.faults and c.prob(0.15)
    self.hinge_left = c.int(1, 4) if fail else None
    self.failed = False
    fit = hinge.HingeRegression.fit
    lab = self

    def broken(s, *a, **k):
      if lab.hinge_left is not None:
        lab.hinge_left -= 1
        if lab.hinge_left <= 0:
          lab.failed = True
          run.fault("analysis-error")
          raise InjectedError("injected")
      return fit(s, *a, **k)

    self.running = True
    self.shown = []  # dialogs of the other actions
    self.phase = None
    with core.patched((hinge.HingeRegression, "fit", broken)):
      g.press("Analyze")
    self.running = False
    if self.violation is not None:
      raise self.violation
    self.no_errors("analysis")
    mine = [d for i, d in enumerate(g.dialogs) if i >= n and
            i not in self.shown]
    if (self.parallel and fail and mine and
        mine[0][:2] == ("showerror", "InjectedError")):
      self.failed = True  # in another process
      run.fault("worker-error")
    if err is not None or self.failed:
      run.probe("analysis-fails")
      run.check(len(mine) == 1 and mine[0][0] == "showerror",
                "error-not-shown-once", lambda: repr((mine, err)))
      return
    run.check(not mine, "error-shown", lambda: repr(mine))
    m = g.tab(2).sample_object
    run.check(m is not None and hasattr(m, "param_matrix_"), "no-result")
    d = models.diff(models.observe(ref), models.observe(m))
    run.check(d is None, "wrong-analysis", lambda: d)
    run.check(type(m) is type(ref), "wrong-analysis", lambda: type(m).__name__)
    pb = self.progress()
    run.check(pb[0] == pb[1], "progress-not-full", lambda: repr(pb))
    self.done = [self.pending]
    run.probe("analyzed")
    if ref.param_matrix_.shape[1]:
      run.probe("modes-found")

  def progress(self):
    w = self.g.app.widgets[self.g.tab(2).progressbar._w]
    return float(w.opts.get("value", 0)), float(w.opts.get("maximum", 100))

  def on_update(self, g):
    """The application handles events in the middle of an analysis"""
    if not self.running:
      return
    try:
      self.event(g)
    except core.Violation as e:  # the application may swallow it
      self.violation = self.violation or e
      raise

  def event(self, g):
    run, c = self.run, self.c
    v, m = self.progress()
    run.check(m >= 0 and v >= 0, "wrong-progress", lambda: f"{v}/{m}")
    f = min(v / m, 1) if m else 0
    if self.phase is not None and self.phase[0] == m and v != 0:
      run.check(f >= self.phase[1], "progress-goes-back",
                lambda: f"{self.phase[1]} to {f}")
    self.phase = m, f
    if self.depth >= 2 or not c.prob(self.busy_p):
      return
    self.depth += 1
    try:
      self.interfere()
    finally:
      self.depth -= 1

  def interfere(self):
    c, run, g = self.c, self.run, self.g
    kind = c.weighted([(3, "again"), (2, "trim"), (2, "load"), (2, "settings"),
                       (2, "original"), (2, "resynthesis"), (1, "json"),
                       (1, "wav")] + [(0.3, "close")] * bool(self.faults))
    run.sched("busy", kind)
    run.nontrivial = True
    run.probe("while-analyzing")
    n = len(g.dialogs)
    if kind == "again":
      before = g.tab(2).sample_object
      g.press("Analyze")
      run.check(g.tab(2).sample_object is before, "analyses-overlap")
      run.check(len(g.dialogs) == n, "error-shown",
                lambda: repr(g.dialogs[n:]))
      self.no_errors("second analysis")
    elif kind == "trim":
      self.trim()
    elif kind == "load":
      self.load()
    elif kind == "settings":
      self.tune()
    elif kind == "close":
      run.probe("closed-while-analyzing")
      g.app.close()
    else:
      self.result(kind)
    self.shown += range(n, len(g.dialogs))

  # -- results ------------------------------------------------------------
  def result(self, kind):
    if kind in ("original", "resynthesis"):
      self.play(kind)
    else:
      self.export(kind)

  def play(self, kind, fault=False):
    g, run = self.g, self.run
    n, k = len(g.dialogs), len(g.played)
    if fault:
      g.device_fails = self.c.int(1, 3)
    nf = run.faults["audio-device"]
    g.press("Play Original" if kind == "original" else "Play Resynthesis")
    g.device_fails = None
    if run.faults["audio-device"] > nf:
      run.probe("audio-fails")
      e = g.display.errors[:]
      del g.display.errors[:]
      run.check(len(e) <= 1 and all(isinstance(v, guisim.M.pygame.error)
                                    for v in e), "callback-error",
                lambda: repr(e))
      run.check(len(g.played) == k, "played-nothing")
      return
    self.no_errors("playing")
    x = self.region()
    if x is None:
      run.check(len(g.played) == k and len(g.dialogs) == n + 1,
                "error-not-shown-once", lambda: repr(g.dialogs[n:]))
      return
    if kind == "resynthesis" and self.refused(n):
      run.check(len(g.played) == k, "played-nothing")
      return
    run.check(len(g.played) == k + 1, "not-played")
    run.check(len(g.dialogs) == n, "error-shown", lambda: repr(g.dialogs[n:]))
    r, y = g.played[-1]
    sr = self.state()[1]
    run.check(r == sr and g.mixer["init"] is not None and
              g.mixer["init"].get("frequency") == sr, "wrong-rate",
              lambda: f"{r} {sr} {g.mixer['init']}")
    if kind == "original":
      run.check(np.array_equal(y, x), "wrong-sound-played")
      run.probe("original-played")
    else:
      self.is_resynthesis(r, y, "wrong-sound-played")
      run.probe("resynthesis-played")

  def refused(self, n):
    """The application said that there is no analysis"""
    g, run = self.g, self.run
    new = g.dialogs[n:]
    if len(new) == 1 and new[0][:2] == ("showerror", "Not analyzed"):
      run.check(not self.current(), "result-lost")
      run.probe("not-analyzed")
      return True
    return False

  def current(self):
    return [d for d in self.done if d is not None]

  def is_resynthesis(self, r, y, cls):
    y = np.atleast_1d(y)
    why = "of no analysis"
    for d in self.current():
      if y.size not in d.lengths:
        why = f"length {y.size} not in {sorted(d.lengths)}"
        continue
      want = np.clip(np.atleast_1d(d.model.predict(np.arange(y.size) / r)),
                     -1, 1)
      if want.shape == y.shape and np.allclose(want, y, 1e-6, 1e-9,
                                               equal_nan=True):
        return
      why = f"{y[:5]} instead of {want[:5]} at {r}"
    raise core.Violation(cls, why)

  def export(self, kind, fault=None):
    g, run, c = self.g, self.run, self.c
    n = len(g.dialogs)
    x = self.region()
    rel = f"home/out{c.int(0, 1)}.{kind}"
    g.answers["asksaveasfilename"] = (None if c.prob(0.1) else
                                      g.fs.path(rel))
    old = g.fs.read(rel)
    asked = [0]
    path = g.answers["asksaveasfilename"]

    def ask(k):
      asked[0] += 1
      return path

    g.answers["asksaveasfilename"] = ask
    if fault in ("ENOSPC", "EIO"):
      g.fs.arm_error(getattr(errno, fault), 3, c.choice((1, 9)),
                     kinds=("create", "write", "rename", "fsync"))
    elif fault == "short":
      g.fs.short = 0.7
    nf = run.faults["ENOSPC"] + run.faults["EIO"]
    g.press("Export JSON" if kind == "json" else "Export WAV")
    failed = run.faults["ENOSPC"] + run.faults["EIO"] > nf
    g.fs.disarm()
    g.fs.short = 0.0
    self.no_errors("export")
    new = g.dialogs[n:]
    if x is None and kind == "wav":
      run.check(len(new) == 1 and new[0][0] == "showerror" and not asked[0],
                "error-not-shown-once", lambda: repr(new))
      return
    if self.refused(n):
      run.check(g.fs.read(rel) == old and not asked[0], "exported-nothing")
      return
    if path is None:
      run.check(not new and g.fs.read(rel) == old, "exported-nothing")
      return
    run.check(len(new) == 1 and new[0][0] in ("showinfo", "showerror"),
              "outcome-not-shown", lambda: repr(new))
    if new[0][0] == "showerror":
      run.check(failed, "export-fails", lambda: repr(new))
      run.probe("export-fails")
      return
    run.probe(f"exported-{kind}")
    run.check(path in new[0][2], "outcome-not-shown", lambda: repr(new))
    data = g.fs.read(rel)
    run.check(data is not None, "not-saved", rel)
    if kind == "wav":
      try:
        r, y = wavfile.read(io.BytesIO(data))
      except Exception as e:  # pylint: disable=W0718
        raise core.Violation("not-saved", f"unreadable: {e!r}")
      run.check(r == self.state()[1], "wrong-rate", lambda: f"{r}")
      self.is_resynthesis(r, y, "not-saved")
      return
    try:
      j = json.loads(data.decode("utf-8"))
    except ValueError as e:
      raise core.Violation("not-saved", f"unreadable: {e!r}")
    ok = any(models.close(d.model.sdt_params_(), j) for d in self.current())
    run.check(ok, "not-saved", lambda: str(j)[:300])


@contextlib.contextmanager
def machine(run, user, drift, parallel):
  """The machine, with simulated worker processes"""
  with contextlib.ExitStack() as s:
    sim = None
    if parallel:
      _, sim = s.enter_context(train.simulation(run))
      sim.slow_workers(run.c, (0.05, 0.5))
    s.enter_context(quick_beats())
    g = s.enter_context(guisim.machine(run, user, drift))
    yield g, sim
