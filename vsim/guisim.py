"""The SAMPLE GUI in one process: the real launcher, windows, tabs and widgets
on a simulated Tk, disk, clock and mixer, driven by a simulated user"""
import contextlib
import gc
import io
import logging
import multiprocessing
import os
import time
import tkinter
import tkinter.filedialog
import tkinter.messagebox
import types

import numpy as np
from scipy.io import wavfile

from vsim import core, fs as vfs, threads, tksim

M = types.SimpleNamespace()
STATICS = []


def prepare():
  """Import the code under test, with its clocks behind the simulator"""
  import throttle
  init = throttle.Static.__init__
  init.__kwdefaults__["time"] = lambda: time.monotonic()

  def tracked(self, *a, **k):
    STATICS.append(self)
    return init(self, *a, **k)

  throttle.Static.__init__ = tracked
  from sample import gui
  from sample.widgets import analysis, audio, audioload, images, main, pyplot
  from sample.widgets import sample as wsample
  from sample.widgets import settings, userfiles
  throttle.Static.__init__ = init
  M.gui, M.analysis, M.audio, M.audioload = gui, analysis, audio, audioload
  M.images, M.main, M.pyplot, M.wsample = images, main, pyplot, wsample
  M.settings, M.userfiles = settings, userfiles
  import pygame
  M.pygame = pygame
  from matplotlib.backends import backend_agg
  M.agg = backend_agg
  M.canvas, M.toolbar = _stubs()


def _stubs():
  """Stand-ins for the drawing widgets of matplotlib"""

  class Canvas(M.agg.FigureCanvasAgg):

    def __init__(self, figure=None, master=None):
      super().__init__(figure)
      self._w = tkinter.Canvas(master)
      self.master = master
      self.n_draw = 0
      self.callbacks.exception_handler = master.winfo_toplevel_error

    def draw(self):
      self.n_draw += 1

    draw_idle = draw

    def get_tk_widget(self):
      return self._w

  class Toolbar(tkinter.Frame):

    def __init__(self, canvas, window=None, *, pack_toolbar=True):
      super().__init__(window)
      self.canvas = canvas
      self._buttons = {k: tkinter.Checkbutton(self, text=k)
                       for k in ("Pan", "Zoom")}
      self._buttons["Home"] = tkinter.Button(self, text="Home")

    def update(self):
      pass

  return Canvas, Toolbar


class Process:
  """multiprocessing.Process of the launcher, run inline"""

  def __init__(self, gui, target=None, args=(), kwargs=None, **_):
    self.gui, self.target = gui, target
    self.args, self.kwargs = args, kwargs or {}
    self.code = None
    self.pid = 4242

  def start(self):
    self.gui.late = False
    self.code = self.gui.spawn(self.target, self.args, self.kwargs)

  @property
  def exitcode(self):
    return None if self.gui.late else self.code

  def join(self, timeout=None):
    """A window may stay open for longer than any time limit"""
    g = self.gui
    g.late = timeout is not None and g.run.c.prob(0.5)
    if g.late:
      g.run.sched("late")

  def is_alive(self):
    return self.gui.late

  def close(self):
    pass


class Queue:

  def __init__(self, gui):
    self.gui, self.items = gui, []

  def put(self, x):
    self.items.append(x)

  def get(self):
    if not self.items:
      raise core.Violation("launcher-blocked", "reading from an empty queue")
    return self.items.pop(0)

  def empty(self):
    return self.gui.late or not self.items

  def close(self):
    pass


class Gui:
  """One user's machine"""

  def __init__(self, run, fs, user):
    self.run, self.fs, self.user = run, fs, user
    self.display = None
    self.dialogs = []  # (kind, title, message) of the current process
    self.answers = {}
    self.played = []
    self.mixer = {"init": None, "music": None}
    self.n_started = 0
    self.last_exit = None
    self.drift = 0.0
    self.late = False  # the launcher looks before the window was closed
    self.device_fails = None  # number of uses of the audio device to the fault
    self.power = False  # a crash takes the whole machine down

  # -- the launcher -------------------------------------------------------
  def launch(self, *argv):
    """Start the application from the command line; returns when it ended"""
    return M.gui.run("--dir", self.fs.path("home/.lim-sample"),
                     "--splash-time", "0", "--log-level", "CRITICAL", *argv)

  def spawn(self, target, args, kwargs):
    """Run a process of the application. Returns its exit code"""
    self.n_started += 1
    self.run.ev("process", self.n_started)
    threads.reset_locks()
    for s in STATICS:
      s._bucket.clear()
      s._memory.clear()
    self.display = tksim.Display(self.run, self.user)
    self.dialogs, self.mixer = [], {"init": None, "music": None}
    self.killed = False
    self.user.started(self)
    exc = None
    code = 0
    try:
      with core.patched(*self.display.seams()):
        try:
          target(*args, **kwargs)
        finally:
          tkinter._default_root = None
    except tksim.ProcEnd:
      code = -9
    except core.SimCrash:
      code = -9
      if self.power:
        raise
      self.fs.restart()
    except SystemExit as e:
      code = e.code if isinstance(e.code, int) else int(e.code is not None)
    except (core.Violation, core.SimUnsupported, core.Discard):
      raise
    except Exception as e:  # pylint: disable=W0718
      if core.sut_site(e) is None:
        raise
      if self.killed:
        code = -9
      else:
        exc, code = e, 1
    finally:
      logging.captureWarnings(False)
      gc.collect()
    self.last_exit = code, exc
    self.run.ev("process ended", code, type(exc).__name__)
    self.user.ended(self, code, exc)
    return code

  # -- dialogs ------------------------------------------------------------
  def _box(self, kind):

    def f(title=None, message=None, *a, **k):
      self.run.ev("dialog", kind, str(title),
                  str(message).replace(str(self.fs.root), "~")[:120])
      self.dialogs.append((kind, str(title), str(message)))
      a = self.answers.get(kind)
      return a(title, message) if callable(a) else a

    return f

  def _file(self, kind):

    def f(*_, **k):
      a = self.answers.get(kind)
      r = a(k) if callable(a) else a
      self.run.ev("filedialog", kind, r and str(r).replace(
          str(self.fs.root), "~"))
      return r or ""

    return f

  # -- seams --------------------------------------------------------------
  def _kill(self, pid, sig):
    if pid != os.getpid():
      raise core.SimUnsupported(f"kill {pid}")
    self.killed = True
    self.display.killed = True
    raise tksim.ProcEnd(sig)

  def _device(self, what):
    """The audio device may fail"""
    if self.device_fails is not None:
      self.device_fails -= 1
      if self.device_fails <= 0:
        self.device_fails = None
        self.run.fault("audio-device", what)
        raise M.pygame.error(f"{what}: device or resource busy")

  def _mixer_init(self, *a, **k):
    self._device("init")
    self.mixer["init"] = k

  def _music_load(self, f, *a, **k):
    self._device("load")
    if self.mixer["init"] is None:
      raise M.pygame.error("mixer not initialized")
    data = f.read()
    self.mixer["music"] = wavfile.read(io.BytesIO(data))

  def _music_play(self, *a, **k):
    self._device("play")
    if self.mixer["music"] is None:
      raise M.pygame.error("no music")
    self.played.append(self.mixer["music"])
    self.run.ev("play", len(self.mixer["music"][1]))

  def _music_unload(self):
    if self.mixer["init"] is None:
      raise M.pygame.error("mixer not initialized")
    self.mixer["music"] = None

  def _clock(self):
    self.run.now += self.drift
    return 1000.0 + self.run.now

  def seams(self):
    pg = M.pygame
    out = [
        (os, "environ", _Env(os.environ, HOME=self.fs.path("home"))),
        (os, "kill", self._kill),
        (time, "monotonic", self._clock),
        (logging, "basicConfig", lambda *a, **k: None),
        (multiprocessing, "Process",
         lambda *a, **k: Process(self, *a[1:], **k)),
        (multiprocessing, "get_context", lambda m=None: _Ctx(self)),
        (multiprocessing, "SimpleQueue", lambda: Queue(self)),
        (M.pyplot.backend_tkagg, "FigureCanvasTkAgg", M.canvas),
        (M.pyplot.backend_tkagg, "NavigationToolbar2Tk", M.toolbar),
        (M.images, "LogoIcon", lambda *a, **k: "icon"),
        (M.images, "LogoImage", lambda *a, **k: "logo"),
        (tkinter.Misc, "winfo_toplevel_error",
         property(lambda w: self.display.error)),
        (pg, "init", lambda: (1, 0)),
        (pg, "quit", lambda: None),
        (pg.mixer, "init", self._mixer_init),
        (pg.mixer, "quit", lambda: self.mixer.update(init=None, music=None)),
        (pg.mixer.music, "load", self._music_load),
        (pg.mixer.music, "play", self._music_play),
        (pg.mixer.music, "unload", self._music_unload),
        (pg.mixer.music, "stop", lambda: None),
    ]
    for k in ("showinfo", "showwarning", "showerror", "askquestion",
              "askokcancel", "askyesno", "askyesnocancel", "askretrycancel"):
      out.append((tkinter.messagebox, k, self._box(k)))
    for k in ("askopenfilename", "asksaveasfilename", "askdirectory"):
      out.append((tkinter.filedialog, k, self._file(k)))
    return out

  # -- reading the windows ------------------------------------------------
  @property
  def root(self):
    return tkinter._default_root

  @property
  def app(self):
    r = self.root
    return None if r is None else r.tk

  def ready(self):
    """The main window is there"""
    return self.root is not None and hasattr(self.root, "notebook") and len(
        getattr(self.root, "tabs", ())) == 3

  def tab(self, i):
    return self.root.tabs[i]

  def button(self, text):
    ws = self.app.find("button", text)
    if len(ws) != 1:
      raise core.SimUnsupported(f"{len(ws)} buttons '{text}'")
    return ws[0]

  def press(self, text):
    self.app.click(self.button(text))

  def entry(self, label):
    """The input widget to the right of a label"""
    for lab in self.app.find("label", label):
      up = lab.path.rpartition(".")[0]
      row, col = int(lab.grid.get("row", 0)), int(lab.grid.get("column", 0))
      best = None
      for w in self.app.widgets.values():
        if w.path.rpartition(".")[0] == up and w is not lab and w.grid:
          if int(w.grid.get("row", -1)) == row and w.cls.rpartition(
              "::")[2] in ("entry", "checkbutton", "menubutton"):
            k = int(w.grid.get("column", 0))
            if k > col and (best is None or k < best[0]):
              best = k, w
      if best is not None:
        return best[1]
    raise core.SimUnsupported(f"no entry '{label}'")

  def text(self, label):
    w = self.entry(label)
    return self.app.vars.get(
        str(w.opts.get("textvariable") or w.opts.get("variable")))

  def settings_labels(self):
    """Labels of all settings, with the kind of their input"""
    out = []
    for lab in self.app.find("label"):
      if int(lab.grid.get("column", -1)) != 0 or "scroll" not in lab.path and (
          "canvas" not in lab.path):
        continue
      try:
        w = self.entry(str(lab.opts.get("text")))
      except core.SimUnsupported:
        continue
      out.append((str(lab.opts.get("text")), w.cls.rpartition("::")[2]))
    return out

  def mouse(self, tab, kind, xdata, button=1):
    """A mouse event over the axes of a tab (None: outside)"""
    from matplotlib import backend_bases
    canvas = self.tab(tab).plt.canvas
    e = backend_bases.MouseEvent(kind, canvas, 0, 0, button)
    e.xdata, e.ydata = xdata, None if xdata is None else 0.0
    e.inaxes = None if xdata is None else self.tab(tab).plt.fig.axes[0]
    self.run.ev("mouse", kind, xdata)
    canvas.callbacks.process(kind, e)


class _Env(dict):
  """os.environ with some values replaced"""

  def __init__(self, base, **kw):
    super().__init__(base)
    self.update(kw)

  def copy(self):
    return dict(self)


class _Ctx:

  def __init__(self, gui):
    self.gui = gui
    self.SimpleQueue = lambda *a: Queue(gui)
    self.Queue = self.SimpleQueue

  def Process(self, *a, **k):
    return Process(self.gui, *a[1:], **k)

  def __getattr__(self, k):
    return getattr(multiprocessing, k)


class User:
  """Does nothing and closes the window"""

  def __init__(self, run):
    self.run = run
    self.gui = None

  def started(self, gui):
    self.gui = gui

  def ended(self, gui, code, exc):
    pass

  def mainloop(self, display):
    if not self.gui.ready():
      return False
    return self.act()

  def act(self):
    self.gui.app.close()
    return True

  def update(self, display):
    pass


class Script(User):
  """A user that follows a generator, one step per turn of the main loop, and
  then closes the window"""

  def __init__(self, run, session):
    super().__init__(run)
    self.session = session  # called with the Gui in every process
    self.gen = None
    self.on_end = None
    self.on_update = None

  def started(self, gui):
    super().started(gui)
    self.gen = None

  def ended(self, gui, code, exc):
    if self.on_end is not None:
      self.on_end(gui, code, exc)

  def act(self):
    if self.gen is None:
      self.gen = self.session(self.gui)
    try:
      next(self.gen)
    except StopIteration:
      self.gui.app.close()
    return True

  def update(self, display):
    if self.on_update is not None and self.gui.ready():
      self.on_update(self.gui)


@contextlib.contextmanager
def machine(run, user, drift=0.0):
  """A machine with the application installed"""
  with vfs.SimFS(run) as fs:
    gui = Gui(run, fs, user)
    gui.drift = drift
    fs.put("home/.keep", b"")
    with core.patched(*fs.seams(), *gui.seams()):
      yield gui


def wav(sr, x):
  b = io.BytesIO()
  wavfile.write(b, sr, x)
  return b.getvalue()


def mono(x):
  """Samples of a WAV file as the application presents them"""
  x = np.asarray(x)
  if x.dtype.kind == "u":
    h = 2.0**(8 * x.dtype.itemsize - 1)
    x = (x - h) / h
  elif x.dtype.kind == "i":
    x = x / 2.0**(8 * x.dtype.itemsize - 1)
  x = x.astype(float)
  return np.mean(x, axis=-1) if x.ndim > 1 else x
