"""The application is started again exactly when the user asked for a reload"""
import errno

from vsim import core, guilab, guisim, models, tksim

CONFIG = {"runs": 4000, "wall": 32, "thorough_wall": 400, "run_limit": 60,
          "must_probe": ("reloaded", "reload-declined", "closed", "killed",
                         "reload-while-analyzing", "closed-after-reload",
                         "no-display", "broken-start", "closed-splash")}
RULE = ("The launcher is started on a simulated machine; in every process it "
        "starts, a seeded user changes settings and the theme, accepts or "
        "declines the reload, closes the window (also while the application "
        "is still starting), or does all that in the middle of an analysis, "
        "several times, or the process is killed, or the display or "
        "the disk fails at start. A run counts if a fault fired or a reload "
        "was offered; distinct runs are told apart by the hash of those "
        "decisions.")
REAL = ["sample.gui launcher", "sample.widgets (main, settings, userfiles, "
        "utils, audioload, analysis)", "tkinter, ttk, ttkthemes Python code"]
STUB = ["Tcl/Tk interpreter", "matplotlib canvas and toolbar", "disk",
        "process creation and exit codes", "dialogs"]
ASSUMPTIONS = []

prepare = guisim.prepare


class Plan:
  """What happens in one process, and whether another one should follow"""

  def __init__(self, run):
    c = run.c
    self.kind = c.weighted([(4, "close"), (5, "reload"), (2, "decline"),
                            (2, "kill"), (1, "no-display"), (2, "disk"),
                            (1, "splash"), (1.5, "busy")])
    self.edits = c.int(0, 2)
    self.again = None


def scenario(run):
  c = run.c
  plans = []
  st = {"theme": None, "answer": None, "asked": 0, "running": False,
        "bad": None}

  def ask(title, message):
    st["asked"] += 1
    run.nontrivial = True
    return st["answer"]

  def choose_theme(g):
    w = g.entry("gui theme")
    cur = str(g.app.vars.get(str(w.opts["textvariable"])))
    o = [x for x in g.app.options(w) if x != cur]
    g.app.choose(w, c.choice(o))

  def analysis(g):
    """Start an analysis of a short sound"""
    x, fs = models.signal(c, fs=4000, n_modes=1, dur=0.15)[0], 4000
    g.fs.put("home/s.wav", guisim.wav(fs, x / (1 + abs(x).max())))
    g.answers["askopenfilename"] = g.fs.path("home/s.wav")
    g.press("Load")
    for k, v in (("fft size", 256), ("hop size", 128), ("window size", 256)):
      g.app.type(g.entry(k), str(v))
    g.press("Apply")
    st["running"] = True
    try:
      g.press("Analyze")
    finally:
      st["running"] = False
    if st["bad"] is not None:  # the application may have swallowed it
      raise st["bad"]

  def during(g):
    """The application handles events in the middle of the analysis"""
    if not st["running"] or not c.prob(0.5):
      return
    p = plans[-1]
    kind = c.weighted([(3, "reload"), (1, "decline"), (2, "close"),
                       (2, "wait")])
    run.sched("busy", kind)
    st["running"] = False
    try:
      if kind in ("reload", "decline"):
        st["answer"] = kind == "reload"
        n = st["asked"]
        choose_theme(g)
        p.again = p.again or kind == "reload"
        g.press("Apply")
        run.check(st["asked"] == n + 1, "reload-not-offered")
        run.probe(f"{kind}-while-analyzing")
      elif kind == "close":
        run.probe("closed-after-reload" if p.again else
                  "closed-while-analyzing")
        g.app.close()
        raise core.Violation("close-ignored", "the process goes on")
    except core.Violation as e:
      st["bad"] = st["bad"] or e
      raise
    finally:
      st["running"] = True

  def session(g):
    p = plans[-1]
    for _ in range(p.edits):
      g.app.type(g.entry("hop size"), str(c.int(1, 4000)))
      g.press("Apply")
      yield
    while p.kind == "decline":
      st["answer"] = False
      n = st["asked"]
      choose_theme(g)
      g.press("Apply")
      run.check(st["asked"] == n + 1, "reload-not-offered")
      run.probe("reload-declined")
      yield
      p.kind = c.weighted([(2, "close"), (2, "reload"), (1, "decline"),
                           (1, "kill")])
    p.again = False
    if p.kind == "busy":
      analysis(g)
      run.check(not p.again or not g.display.errors, "callback-error",
                lambda: repr(g.display.errors))
      yield
      run.check(not p.again, "reload-ignored", "the window is still open")
    if p.kind == "reload":
      st["answer"] = True
      n = st["asked"]
      choose_theme(g)
      p.again = True
      g.press("Apply")
      run.check(st["asked"] == n + 1, "reload-not-offered")
      run.probe("reloaded")
      yield
      raise core.Violation("reload-ignored", "the window is still open")
    if p.kind == "kill":
      run.probe("killed")
      g.fs.crash("idle")
    run.probe("closed")

  class Someone(guisim.Script):

    def started(self, gui):
      super().started(gui)
      run.check(not plans or plans[-1].again, "launched-again",
                lambda: f"after {plans[-1].kind}")
      run.check(len(plans) < 12, "launched-again", "too often")
      p = Plan(run)
      if len(plans) >= 8:
        p.kind = "close"
      p.again = False
      plans.append(p)
      run.sched(p.kind)
      if p.kind == "no-display":
        gui.display.create = no_display
        run.fault("no-display")
        run.probe("no-display")
      elif p.kind == "disk":
        gui.fs.arm_error(c.choice((errno.EIO, errno.EACCES, errno.ENOSPC)),
                         4, 30, kinds=("open", "read", "create", "write",
                                       "mkdir"))

    def mainloop(self, display):
      p = plans[-1]
      if p.kind == "splash" and not self.gui.ready() and display.apps:
        run.probe("closed-splash")
        display.apps[0].close()
        return True
      if p.kind == "disk" and not self.gui.ready() and display.errors:
        # it failed half way: the user gives up
        for a in display.windows():
          a.close()
        return True
      return super().mainloop(display)

    def ended(self, gui, code, exc):
      if plans[-1].kind == "disk" and (exc is not None or gui.display.errors):
        run.probe("broken-start")
      gui.fs.disarm()

  def no_display(*a):
    raise tksim.TclError("no display name and no $DISPLAY environment "
                         "variable")

  user = Someone(run, session)
  user.on_update = during
  with guilab.machine(run, user, c.choice((0.0, 0.3)), False) as (g, _):
    g.answers["askyesno"] = ask
    if c.prob(0.5):
      g.fs.put("home/.lim-sample/settings.json", b'{"gui_theme": "arc"}')
    r, _ = run.sut(g.launch, "--splash-time", c.choice(("0", "3000")),
                   what="launcher")
    run.check(r == 0, "launcher-exit-code", repr(r))
  run.check(not plans[-1].again, "not-launched-again",
            lambda: f"after {plans[-1].kind}")
  run.case = [p.kind for p in plans]
