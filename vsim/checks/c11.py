"""Settings survive whatever happens to the application"""
import copy
import errno
import os

import numpy as np

from vsim import core, guisim, models

CONFIG = {"runs": 4000, "wall": 32, "thorough_wall": 500, "run_limit": 60,
          "must_probe": ("applied", "restarted", "crash-applying",
                         "power-lost", "odd-text", "disk-error")}
RULE = ("One to four sessions of the application on a simulated machine: a "
        "user types, toggles and chooses seeded settings and applies them; "
        "sessions end by closing the window, a kill or power loss while "
        "applying or later, or a full or failing disk while applying. A run "
        "counts if settings were applied and at least one fault fired or one "
        "odd text was typed; distinct runs are told apart by the hash of "
        "their fault and input decisions.")
REAL = ["sample.gui launcher", "sample.widgets (main, settings, userfiles, "
        "utils, audioload, analysis)", "tkinter, ttk, ttkthemes Python code"]
STUB = ["Tcl/Tk interpreter", "matplotlib canvas and toolbar", "disk",
        "process creation", "dialogs"]
ASSUMPTIONS = ["no hand-edited settings file"]

prepare = guisim.prepare

NUMBERS = ("n modes", "n sines", "fft size", "hop size", "window size",
           "frequency deviation offset", "frequency deviation slope",
           "lower frequency bound", "upper frequency bound",
           "onset threshold", "peak detection threshold",
           "minimum sine duration", "strip time", "n jobs", "threshold",
           "lpf")
ODD = ("", " ", "abc", "None", "nan", "inf", "-inf", "1e3", "-5", "0", "0.5",
       "1,5", "0x10", "12 ", "1_000", "two", "-1e-9", "{", "a b", "\u0663",
       "True")


def snapshot(g):
  """What is in force and what is shown"""
  t = g.tab(1)
  return {"params": copy.deepcopy(t.sample_object_kwargs),
          "texts": [shown(g.app.vars.get(str(
              w.opts.get("textvariable") or w.opts.get("variable"))))
              for w in inputs(g)],
          "theme": theme(g)}


def shown(v):
  """20 and 20.0 are the same to a user"""
  try:
    return repr(float(v))
  except (TypeError, ValueError):
    return str(v)


def inputs(g):
  return [w for w in g.app.widgets.values()
          if ".!settingstab" in w.path and w.cls.rpartition("::")[2] in
          ("entry", "checkbutton", "menubutton")]


def theme(g):
  return str(g.app.vars.get(str(g.entry("gui theme").opts["textvariable"])))


def same(a, b, parts=("params", "texts")):
  return all(models.close(a[k], b[k], 0, 0) if k == "params" else
             a[k] == b[k] for k in parts)


def edits(run):
  """Seeded changes of the settings: list of (kind, which, value)"""
  c = run.c
  out = []
  for _ in range(c.int(1, 5)):
    kind = c.weighted([(6, "num"), (2, "odd"), (2, "toggle"), (1, "wtype"),
                       (1, "theme")])
    if kind == "num":
      k = c.choice(NUMBERS)
      v = c.choice(("1", "3", "64", "100", "512", "1000", "2048", "0.25",
                    "7.9", "-66.5", "16000", "1e-3"))
      out.append(("type", k, v))
    elif kind == "odd":
      out.append(("type", c.choice(NUMBERS), c.choice(ODD)))
      run.probe("odd-text")
    elif kind == "toggle":
      out.append(("toggle", c.pick(5), None))
    else:
      out.append(("choose", "window type" if kind == "wtype" else
                  "gui theme", c.pick(30)))
  return out


def perform(g, es):
  a = g.app
  for kind, k, v in es:
    if kind == "type":
      a.type(g.entry(k), v)
    elif kind == "toggle":
      boxes = [w for w in inputs(g) if w.cls.endswith("checkbutton")]
      a.toggle(boxes[k % len(boxes)])
    else:
      w = g.entry(k)
      o = a.options(w)
      a.choose(w, o[v % len(o)])


def valid(run, s):
  """The parameters in force can be used"""
  p = s["params"]
  n, h = p["sinusoidal__n"], p["sinusoidal__tracker__h"]
  run.check(isinstance(n, int) and n >= 1 and n & (n - 1) == 0,
            "unusable-setting", f"fft size {n!r}")
  run.check(isinstance(h, int) and h >= 1, "unusable-setting",
            f"hop size {h!r}")
  w = p["sinusoidal__w"]
  run.check(1 <= len(w) <= n and np.all(np.isfinite(w)), "unusable-setting",
            f"window of {len(w)} for {n}")
  lo, hi = p["sinusoidal__tracker__frequency_bounds"]
  run.check(not lo >= hi, "unusable-setting", f"bounds {lo} {hi}")
  for k in ("max_n_modes", "sinusoidal__tracker__max_n_sines"):
    run.check(p[k] is None or isinstance(p[k], int) and p[k] >= 1,
              "unusable-setting", f"{k} {p[k]!r}")
  run.check(isinstance(p["n_jobs"], int) and p["n_jobs"] >= 0,
            "unusable-setting", f"n_jobs {p['n_jobs']!r}")


class State:

  def __init__(self):
    self.acceptable = None  # what the next session may start with
    self.lasting = None  # the same after a power loss
    self.base = None  # stored settings at the start of the session
    self.history = []  # changes applied in the session
    self.applying = False
    self.uncertain = False  # the last change may or may not be stored


FILE = "home/.lim-sample/settings.json"


def scenario(run):
  c = run.c
  st = State()
  n = c.int(2, 4)
  run.case = []
  user = guisim.Script(run, None)
  with guisim.machine(run, user) as g:
    g.answers["askyesno"] = False
    for _ in range(n):
      session(run, g, st, user)
    # the last word: a plain start
    user.session = lambda gui: begin(run, gui, st)
    launch(run, g, user)
  run.nontrivial = run.nontrivial or run.probes["odd-text"] > 0


def launch(run, g, user):
  """Start the application, wait until it ended for good"""
  n0 = g.n_started

  def started(gui):
    if g.n_started > n0 + 10:
      raise core.Violation("start-fails", "never stops relaunching")
    guisim.Script.started(user, gui)

  def ended(gui, code, exc):
    if exc is not None:
      raise core.Violation("start-fails", f"{type(exc).__name__}: {exc} at "
                           f"{core.sut_site(exc)}")
    user.session = lambda gui: iter(())  # if relaunched, just close

  user.started, user.on_end = started, ended
  g.launch()


def begin(run, g, st):
  """The application is up: what is in force must be what was stored"""
  now = snapshot(g)
  if st.acceptable is not None:
    run.probe("restarted")
    run.check(any(same(now, s) for s in st.acceptable), "settings-lost",
              lambda: show(st.acceptable[0], now))
  valid(run, now)
  run.check(g.app.theme == now["theme"], "wrong-theme",
            lambda: f"{g.app.theme} {now['theme']}")
  st.acceptable = [now]
  st.lasting = [now]
  st.history = []
  st.uncertain = False
  st.base = g.fs.read(FILE)
  yield


def session(run, g, st, user):
  c = run.c
  fault = c.weighted([(3, None), (3, "crash"), (1, "error"), (1, "short")])
  end = c.weighted([(3, "close"), (1, "kill"), (1, "power")])
  power = c.prob(0.4)
  n_apply = c.int(1, 3)
  run.case.append((n_apply, fault, end, power))

  def steps(gui):
    yield from begin(run, gui, st)
    for i in range(n_apply):
      es = edits(run)
      perform(gui, es)
      yield
      st.history.append(es)
      last = i == n_apply - 1
      gui.power = power
      apply(run, gui, st, fault if last else None)
      yield
    if end != "close":
      gui.power = end == "power"
      gui.fs.crash("idle")

  user.session = steps
  g.power = False
  try:
    launch(run, g, user)
  except core.SimCrash:
    g.fs.restart(power=True)
    run.probe("power-lost")
    st.acceptable = list(st.lasting)
  if st.applying:
    st.applying = False
    st.uncertain = True
    run.probe("crash-applying")
  if st.uncertain:
    st.acceptable = st.acceptable + twin(run, g, st, user)


def apply(run, g, st, fault):
  c = run.c
  n_err = len(g.display.errors)
  if fault == "crash":
    g.fs.arm_crash(8)
  elif fault == "error":
    g.fs.arm_error(c.choice((errno.ENOSPC, errno.EIO)), 6, c.choice((1, 9)),
                   kinds=("create", "write", "rename", "fsync"))
  elif fault == "short":
    g.fs.short = 0.7
  n_faults = run.faults["ENOSPC"] + run.faults["EIO"]
  st.applying = True
  g.press("Apply")
  st.applying = False
  failed = run.faults["ENOSPC"] + run.faults["EIO"] > n_faults
  g.fs.disarm()
  g.fs.short = 0.0
  errs = g.display.errors[n_err:]
  after = snapshot(g)
  if failed:
    run.probe("disk-error")
    run.check(all(isinstance(e, OSError) for e in errs), "apply-fails",
              lambda: repr(errs))
    st.uncertain = True
    return
  run.check(not errs, "apply-fails", lambda: repr(errs))
  run.probe("applied")
  valid(run, after)
  st.acceptable = [after]
  st.lasting = st.lasting + [after]
  if c.prob(0.3):  # applying what is shown changes nothing
    g.press("Apply")
    again = snapshot(g)
    run.check(same(after, again), "apply-not-idempotent",
              lambda: show(after, again))


def twin(run, g, st, user):
  """What the interrupted change would have given: the same inputs from the
  same stored settings, without faults"""
  post = g.fs.read(FILE)
  store(g, st.base)
  out = []

  def steps(gui):
    for es in st.history:
      perform(gui, es)
      yield
      gui.press("Apply")
      out[:] = [snapshot(gui)]

  user.session = steps
  g.power = False
  launch(run, g, user)
  store(g, post)
  return out


def store(g, data):
  if data is None:
    if g.fs.read(FILE) is not None:
      os.remove(g.fs.path(FILE))
      g.fs.sync_all()
  else:
    g.fs.put(FILE, data)


def show(a, b):
  for p, v in a["params"].items():
    if p not in b["params"] or not models.close(v, b["params"][p], 0, 0):
      return f"{p}: {v!r} != {b['params'].get(p)!r}"[:300]
  return f"{a['texts']} != {b['texts']}"
