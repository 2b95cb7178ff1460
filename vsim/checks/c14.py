"""The region to analyse is always a valid part of the loaded sound"""
import errno
import warnings

import numpy as np
from scipy.io import wavfile

from vsim import core, fs as vfs, guisim

CONFIG = {"runs": 4000, "wall": 32, "thorough_wall": 400, "run_limit": 60,
          "must_probe": ("loaded", "load-fails", "silent", "typed", "dragged",
                         "outside", "toolbar", "odd-text", "read-error",
                         "float-file", "played")}
RULE = ("One session of the application: a seeded sequence of loading good, "
        "silent, short, empty, broken and missing WAV files (also with "
        "reading faults and cancelled dialogs), typing bounds key by key, "
        "pressing and releasing the mouse in and out of the plot with the "
        "toolbar on and off, and playing. A run counts if a bound was typed "
        "or dragged; distinct runs are told apart by the hash of the event "
        "kinds and outcomes.")
REAL = ["sample.widgets (audioload, audio, main, pyplot, utils)",
        "onset detection", "tkinter, ttk, ttkthemes Python code",
        "matplotlib events", "scipy WAV reader and writer"]
STUB = ["Tcl/Tk interpreter", "matplotlib drawing", "disk", "dialogs",
        "audio device"]
ASSUMPTIONS = ["typed times may be rounded to a sample in either direction"]

prepare = guisim.prepare

ODD = ("", "-", "abc", "nan", "inf", "-inf", "1e309", "-1", "1e6", ".", "0,1",
       "1e", "None", "0x1", "1e300")


def make_file(run, g, i):
  """A seeded file. Returns (path, bytes)"""
  c = run.c
  kind = c.weighted([(6, "hits"), (2, "noise"), (2, "silent"), (2, "short"),
                     (1, "empty"), (1, "text"), (1, "cut"), (1, "missing"),
                     (1, "folder")])
  sr = c.choice((8000, 11025, 22050, 44100))
  rng = np.random.default_rng(c.int(0, 9999))
  n = c.choice((4000, 9000, 2500))
  if kind == "short":
    n = c.choice((1, 2, 50, 500, 1200))
  x = rng.normal(size=n) * 0.001
  if kind == "hits":
    for _ in range(c.int(1, 4)):
      k = c.int(0, n - 1)
      m = n - k
      x[k:] += np.exp(-np.arange(m) / 300) * np.cos(
          np.arange(m) * c.real(0.1, 2, 16)) * 0.4
  elif kind == "noise":
    x = rng.normal(size=n) * 0.2
  elif kind == "silent":
    x = np.zeros(n)
    run.probe("silent")
  elif kind == "empty":
    x = np.zeros(0)
  x = np.clip(x, -1, 0.999)
  dt = c.choice(("int16", "int16", "uint8", "int32", "float32", "float64"))
  if dt == "uint8":
    x = np.round(x * 127 + 128).astype(dt)
  elif dt.startswith("int"):
    x = (x * np.iinfo(dt).max).astype(dt)
  else:
    x = x.astype(dt)
    run.probe("float-file")
  if c.prob(0.25):
    x = np.stack([x] + [x // 2 if dt != "float32" and dt != "float64" else
                        x / 2] * c.int(1, 2), axis=-1)
  data = guisim.wav(sr, x)
  if kind == "text":
    data = b"hello, this is not a sound\n" * 3
  elif kind == "cut":
    data = data[:c.int(0, len(data) - 1)]
  rel = f"home/f{i}.wav"
  if kind == "missing":
    return g.fs.path("home/nothing.wav"), None
  if kind == "folder":
    return g.fs.path("home"), None
  g.fs.put(rel, data)
  return g.fs.path(rel), data


def expected(path, data):
  """(rate, samples) of a file, None if it cannot be read"""
  if data is None:
    return None
  try:
    with vfs._REAL["io_open"](path, "rb") as f, warnings.catch_warnings():
      warnings.simplefilter("ignore")
      sr, x = wavfile.read(f)
    x = guisim.mono(x)
  except Exception:  # pylint: disable=W0718
    return None
  return (sr, x) if x.size else None


def region(g):
  t = g.tab(0)
  return t.audio_trim_start, t.audio_trim_stop


def state(g):
  t = g.tab(0)
  return (t.audio_x, t.audio_sr, t.audio_trim_start, t.audio_trim_stop)


def valid(run, g):
  x, sr, a, b = state(g)
  run.check(not g.display.errors, "callback-error",
            lambda: f"{g.display.errors!r} at "
            f"{core.sut_site(g.display.errors[0])}")
  if x is None:
    run.check(not g.tab(0).audio_loaded, "half-loaded")
    return
  run.check(g.tab(0).audio_loaded and sr is not None, "half-loaded",
            lambda: f"{x.shape} {sr} {a} {b}")
  run.check(0 <= a < b <= x.size and int(a) == a and int(b) == b,
            "invalid-region", lambda: f"{a}:{b} of {x.size}")


def entries(g):
  return g.text("start"), g.text("stop")


def shown(run, g):
  x, sr, a, b = state(g)
  del x
  for s, v in zip(entries(g), (a, b)):
    run.check(abs(float(s) * sr - v) < 1e-3, "wrong-region-shown",
              f"{s} for {v} at {sr}")


class Model:
  regions = None  # file content -> region after loading
  press = None  # where the mouse went down: None, "off" or the side


def load(run, g, m, i, reuse):
  c = run.c
  before, texts = state(g), entries(g)
  n = len(g.dialogs)
  if c.prob(0.1):
    g.answers["askopenfilename"] = c.choice(("", ()))
    g.press("Load")
    run.check(len(g.dialogs) == n, "error-shown", "after a cancelled dialog")
    same(run, g, before, texts, "cancelled load")
    return
  if reuse and c.prob(0.3):
    path, data = c.choice(reuse)
  else:
    path, data = make_file(run, g, i)
    reuse.append((path, data))
  want = expected(path, data)
  fault = data is not None and c.prob(0.1)
  if fault:
    g.fs.arm_error(errno.EIO, 3, 1, kinds=("read",))
  nf = run.faults["EIO"]
  g.answers["askopenfilename"] = path
  g.press("Load")
  fault = run.faults["EIO"] > nf
  g.fs.disarm()
  valid(run, g)
  dialogs = g.dialogs[n:]
  if fault:
    run.probe("read-error")
    if not dialogs:  # the fault was of no consequence
      fault = False
  if want is None or fault:
    run.probe("load-fails")
    run.check(len(dialogs) == 1 and dialogs[0][0] == "showerror" and
              dialogs[0][2], "error-not-shown-once", lambda: repr(dialogs))
    same(run, g, before, texts, "failed load")
    return
  run.check(not dialogs, "error-shown", lambda: repr(dialogs))
  x, sr, a, b = state(g)
  run.check(sr == want[0] and x is not None and x.shape == want[1].shape and
            np.allclose(x, want[1], 1e-6, 1e-7), "wrong-sound",
            lambda: f"{sr} {x!r} instead of {want!r}")
  shown(run, g)
  k = hash(data)
  run.check(m.regions.setdefault(k, (a, b)) == (a, b), "region-from-history",
            lambda: f"{(a, b)} after {m.regions[k]}")
  run.probe("loaded")
  m.press = "stale" if m.press not in (None, "off") else m.press


def same(run, g, before, texts, what):
  now = state(g)
  run.check(all(p is q or np.array_equal(p, q) for p, q in zip(before, now)),
            "changed", f"by a {what}")
  run.check(entries(g) == texts, "changed", f"entries, by a {what}")


def typing(run, g):
  """Type a time, key by key or at once"""
  c = run.c
  x, sr, a, b = state(g)
  which = c.choice(("start", "stop"))
  odd = c.prob(0.3)
  if odd:
    run.probe("odd-text")
    text = c.choice(ODD)
  else:
    end = 0.3 if x is None else x.size / sr
    text = str(round(c.real(-0.1 * end, 1.3 * end, 400), 5))
  keys = [text[:k] for k in range(1, len(text))] if c.prob(0.3) else []
  other = entries(g)[which == "start"]
  for t in (*keys, text):
    g.app.type(g.entry(which), t)
    valid(run, g)
    run.check(entries(g)[which != "start"] == t, "typed-text-changed")
  run.check(entries(g)[which == "start"] == other, "other-entry-changed")
  if x is None:
    return
  run.probe("typed")
  run.nontrivial = True
  _, _, a2, b2 = state(g)
  run.check((b2 == b) if which == "start" else (a2 == a),
            "other-bound-moved", lambda: f"{a}:{b} -> {a2}:{b2}")
  if not odd:
    moved(run, which == "start", float(text) * sr, (a, b), (a2, b2), x.size)


def moved(run, start, want, old, new, size):
  """The bound moved to the wanted position, as far as possible"""
  lo, hi = (0, old[1] - 1) if start else (old[0] + 1, size)
  want = min(max(want, lo), hi)
  got = new[0] if start else new[1]
  run.check(abs(got - want) <= 1, "bound-not-set",
            lambda: f"{'start' if start else 'stop'} {got}, wanted {want}, "
            f"{old} of {size}")


def tools(g):
  """The buttons of the toolbar that stay pressed"""
  return [w for w in g.app.find("checkbutton")
          if w.path.startswith(g.tab(0).plt.toolbar._w)]


def pressed(g, w):
  return str(g.app.vars.get(str(w.opts.get("variable")))).lower() in ("1",
                                                                     "true")


def mouse(run, g, m):
  c = run.c
  x, sr, a, b = state(g)
  end = 0.3 if x is None else x.size / sr
  t = None if c.prob(0.12) else c.real(-0.05 * end, 1.05 * end, 300)
  toolbar = any(pressed(g, w) for w in tools(g))
  before, texts = state(g), entries(g)
  if t is None:
    run.probe("outside")
  if c.prob(0.5):
    g.mouse(0, "button_press_event", t)
    valid(run, g)
    same(run, g, before, texts, "mouse press")
    if toolbar or t is None or x is None:
      m.press = "off"
    else:
      d = abs(t * sr - a) - abs(t * sr - b)
      m.press = "tie" if abs(d) <= 2 else ("start" if d < 0 else "stop")
    return
  g.mouse(0, "button_release_event", t)
  valid(run, g)
  p, m.press = m.press, None
  if p in (None, "off") or toolbar or t is None or x is None:
    same(run, g, before, texts, "mouse release")
    return
  run.probe("dragged")
  run.nontrivial = True
  _, _, a2, b2 = state(g)
  if p == "stale":
    run.check(a2 == a or b2 == b, "both-bounds-moved")
  elif p == "tie":
    run.check(a2 == a or b2 == b, "both-bounds-moved")
  else:
    run.check((b2 == b) if p == "start" else (a2 == a), "other-bound-moved",
              lambda: f"{p}: {a}:{b} -> {a2}:{b2}")
    moved(run, p == "start", t * sr, (a, b), (a2, b2), x.size)
  shown(run, g)


def play(run, g):
  n = len(g.played)
  g.press("Play")
  valid(run, g)
  x, sr, a, b = state(g)
  if x is None:
    run.check(len(g.played) == n, "played-nothing")
    return
  run.check(len(g.played) == n + 1, "not-played")
  r, y = g.played[-1]
  run.check(r == sr and np.array_equal(y, x[a:b]), "wrong-sound-played")
  run.probe("played")


def scenario(run):
  c = run.c
  m = Model()
  m.regions = {}
  reuse = []
  n = c.int(3, 25)

  def session(g):
    valid(run, g)
    for i in range(n):
      kind = c.weighted([(4, "load"), (5, "type"), (8, "mouse"), (1, "tool"),
                         (2, "play")]) if i else "load"
      run.sched(kind)
      if kind == "load":
        load(run, g, m, i, reuse)
      elif kind == "type":
        typing(run, g)
      elif kind == "mouse":
        mouse(run, g, m)
      elif kind == "tool":
        g.app.toggle(c.choice(tools(g)))
        run.probe("toolbar")
      else:
        play(run, g)
      valid(run, g)
      x, _, a, b = state(g)
      run.state(x is None or x.size, a, b, m.press)
      yield

  def ended(g, code, exc):
    if exc is not None:
      raise core.Violation("start-fails", f"{type(exc).__name__}: {exc} at "
                           f"{core.sut_site(exc)}")

  user = guisim.Script(run, session)
  user.on_end = ended
  with guisim.machine(run, user) as g:
    g.launch()
  run.check(g.n_started == 1, "relaunched")
