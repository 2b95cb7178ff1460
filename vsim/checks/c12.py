"""Reloading for a new theme brings back the sound and the selected region"""
import errno

import numpy as np

from vsim import core, guisim

CONFIG = {"runs": 4000, "wall": 32, "thorough_wall": 400, "run_limit": 60,
          "must_probe": ("restored", "crash-caching", "crash-starting",
                         "power-lost", "cache-error", "reload-without-sound")}
RULE = ("A user loads seeded WAV files, changes the region, changes the theme "
        "and accepts or declines the reload, several times; the process is "
        "killed, the machine loses power or the disk fills up or fails "
        "while the state is being cached, while the application is starting "
        "again, or at rest. A run counts if a reload was accepted or a fault "
        "fired; distinct runs are told apart by the hash of those decisions.")
REAL = ["sample.gui launcher", "sample.widgets (main, settings, userfiles, "
        "utils, audioload, analysis)", "tkinter, ttk, ttkthemes Python code",
        "pickle, scipy WAV reader"]
STUB = ["Tcl/Tk interpreter", "matplotlib canvas and toolbar", "disk",
        "process creation and exit codes", "dialogs", "audio device"]
ASSUMPTIONS = []

prepare = guisim.prepare


def sound(run, g):
  """A seeded WAV file. Returns (path, rate, samples as presented)"""
  c = run.c
  sr = c.choice((8000, 11025, 44100))
  n = c.choice((200, 1500, 4000))
  rng = np.random.default_rng(c.int(0, 999))
  x = rng.normal(size=n) * np.exp(-np.arange(n) / (n / 4)) * 8000
  x = np.clip(x, -32000, 32000).astype(np.int16)
  if c.prob(0.3):
    x = np.stack((x, x[::-1]), axis=-1)
  p = f"home/sound{c.int(0, 3)}.wav"
  g.fs.put(p, guisim.wav(sr, x))
  return g.fs.path(p), sr, guisim.mono(x)


def state(g):
  t = g.tab(0)
  if not t.audio_loaded:
    return None
  return {"x": np.array(t.audio_x), "sr": t.audio_sr,
          "start": int(t.audio_trim_start), "stop": int(t.audio_trim_stop)}


def same(a, b):
  if a is None or b is None:
    return a is b
  return np.array_equal(a["x"], b["x"]) and all(
      a[k] == b[k] for k in ("sr", "start", "stop"))


def brief(a):
  return None if a is None else (a["x"].shape, a["sr"], a["start"], a["stop"])


class State:
  expect = None  # states the next start may show
  reloading = False
  starting = False
  n_proc = 0


def scenario(run):
  c = run.c
  st = State()
  st.expect = [None]
  n_launch = c.int(1, 3)
  case = []
  run.case = case

  def session(g):
    st.starting = False
    g.fs.disarm()
    now = state(g)
    run.check(any(same(now, e) for e in st.expect), "sound-not-restored",
              lambda: f"{brief(now)}, expected one of "
              f"{[brief(e) for e in st.expect]}")
    if now is not None:
      run.probe("restored")
      shown(run, g, now)
    run.check(not g.display.errors, "start-fails",
              lambda: repr(g.display.errors))
    # used once: whatever happens now, it is not restored again
    st.expect = [None]
    st.lasting = [None] if now is None else [None, now]
    yield
    for _ in range(c.int(0, 4)):
      kind = c.weighted([(3, "load"), (3, "trim"), (2, "mouse"),
                         (1, "decline")])
      if kind == "load":
        path, sr, x = sound(run, g)
        g.answers["askopenfilename"] = path
        g.press("Load")
        now = state(g)
        run.check(now is not None and now["sr"] == sr and
                  now["x"].shape == x.shape and
                  np.allclose(now["x"], x, 1e-6, 1e-7), "wrong-sound")
      elif kind == "trim" and state(g) is not None:
        w = c.choice(("start", "stop"))
        g.app.type(g.entry(w), str(c.real(0, 0.4, 50)))
      elif kind == "mouse" and state(g) is not None:
        t = c.real(0, state(g)["x"].size / state(g)["sr"], 50)
        g.mouse(0, "button_press_event", t)
        g.mouse(0, "button_release_event", t)
      elif kind == "decline":
        g.answers["askyesno"] = False
        choose_theme(run, g)
        g.press("Apply")
      run.check(not g.display.errors, "callback-error",
                lambda: repr(g.display.errors))
      yield
    if c.prob(0.75) and st.n_proc < 6:
      yield from reload(run, g, st, case)
    end = c.weighted([(3, "close"), (1, "kill"), (1, "power")])
    case.append(end)
    if end != "close":
      g.power = end == "power"
      g.fs.crash("idle")

  def starting(gui):
    guisim.Script.started(user, gui)
    st.n_proc += 1
    run.check(st.n_proc < 40, "start-fails", "never stops relaunching")
    if c.prob(0.2):  # the start itself may be cut short
      st.starting = True
      gui.power = c.prob(0.3)
      gui.fs.arm_crash(20)

  def ended(gui, code, exc):
    if exc is not None:
      raise core.Violation("start-fails", f"{type(exc).__name__}: {exc} at "
                           f"{core.sut_site(exc)}")
    after(run, st)
    gui.fs.disarm()

  user = guisim.Script(run, session)
  user.started, user.on_end = starting, ended
  with guisim.machine(run, user) as g:
    for i in range(n_launch + 1):
      if i == n_launch:  # the last word: a start without faults
        user.started = lambda gui: guisim.Script.started(user, gui)
        user.session = last(run, st)
      g.power = False
      try:
        g.launch()
      except core.SimCrash:
        g.fs.restart(power=True)
        run.probe("power-lost")
        st.power = True
        after(run, st)
  run.nontrivial = run.nontrivial or run.probes["restored"] > 0


def after(run, st):
  """The process ended: what may the next one find?"""
  if st.starting:
    run.probe("crash-starting")
    # the cache may have been used up or not
    st.expect = st.expect + [None]
    st.starting = False
  if st.reloading:
    run.probe("crash-caching")
    st.expect = st.maybe
    st.reloading = False
  if getattr(st, "power", False):
    st.expect = st.expect + getattr(st, "lasting", [])
    st.power = False


def reload(run, g, st, case):
  c = run.c
  now = state(g)
  if now is None:
    run.probe("reload-without-sound")
  fault = c.weighted([(4, None), (2, "crash"), (2, "error"), (1, "short")])
  case.append(("reload", fault))
  power = g.power = c.prob(0.3)
  if fault == "short":
    g.fs.short = 0.7
  armed = []

  def yes(title, message):
    armed.append(1)
    if fault == "crash":
      g.fs.arm_crash(8)
    elif fault == "error":
      g.fs.arm_error(c.choice((errno.ENOSPC, errno.EIO)), 4, 9,
                     kinds=("create", "write", "rename", "fsync", "mkdir"))
    st.reloading = True
    st.maybe = [None, now]
    return True

  g.answers["askyesno"] = yes
  choose_theme(run, g)
  n = sum(run.faults[k] for k in ("ENOSPC", "EIO"))
  g.press("Apply")
  g.power = False
  run.check(armed, "reload-not-offered")
  failed = sum(run.faults[k] for k in ("ENOSPC", "EIO")) > n
  g.fs.disarm()
  g.fs.short = 0.0
  st.reloading = False
  st.lasting = st.lasting + [now]
  if not failed:
    run.check(not g.display.errors, "reload-fails",
              lambda: repr(g.display.errors))
    st.expect = [now]
    run.nontrivial = True
    yield
    raise core.Violation("reload-ignored", "the window is still open")
  # could not be cached: the window stays, and a later start has nothing
  # partial to show
  run.probe("cache-error")
  del power
  run.check(all(isinstance(e, OSError) for e in g.display.errors),
            "reload-fails", lambda: repr(g.display.errors))
  g.display.errors.clear()
  st.expect = [None, now]
  run.check(same(state(g), now), "sound-lost")


def last(run, st):

  def session(g):
    now = state(g)
    run.check(any(same(now, e) for e in st.expect), "sound-not-restored",
              lambda: f"{brief(now)}, expected one of "
              f"{[brief(e) for e in st.expect]}")
    run.check(not g.display.errors, "start-fails",
              lambda: repr(g.display.errors))
    return
    yield

  return session


def shown(run, g, now):
  """The windows show and play the restored region"""
  for k in ("start", "stop"):
    v = g.text(k)
    run.check(abs(float(v) - now[k] / now["sr"]) < 1e-9, "wrong-region-shown",
              f"{k} {v}")
  n = len(g.played)
  g.press("Play")
  run.check(len(g.played) == n + 1, "not-played")
  sr, x = g.played[-1]
  run.check(sr == now["sr"] and np.array_equal(
      x, now["x"][now["start"]:now["stop"]]), "wrong-sound-played")


def choose_theme(run, g):
  w = g.entry("gui theme")
  cur = str(g.app.vars.get(str(w.opts["textvariable"])))
  g.app.choose(w, run.c.choice([x for x in g.app.options(w) if x != cur]))
