"""An analysis analyses what was selected when it was started"""
from vsim import core, guilab, guisim

CONFIG = {"runs": 4000, "wall": 32, "thorough_wall": 600, "run_limit": 90,
          "must_probe": ("analyzed", "modes-found", "while-analyzing",
                         "analysis-fails", "closed-while-analyzing",
                         "parallel")}
RULE = ("A user loads and trims seeded sounds, applies seeded settings and "
        "analyses, up to 4 times, while a slow clock makes the progress bar "
        "handle events in the middle of the analysis, where the user starts "
        "another one, loads, trims, changes the settings, plays, exports or "
        "closes the window; analyses fail at seeded points; part of the runs "
        "analyse with worker processes under a seeded schedule. A run counts "
        "if an event was handled during an analysis or one failed; distinct "
        "runs are told apart by the hash of the events, faults and "
        "schedule.")
REAL = ["sample.widgets (analysis, sample, settings, audioload, audio)",
        "sample.sample, sample.sms, sample.hinge, sample.beatsdrop",
        "sample._training", "throttle", "tkinter, ttk Python code",
        "matplotlib plotting"]
STUB = ["Tcl/Tk interpreter", "matplotlib canvas", "disk", "clock", "dialogs",
        "audio device", "multiprocessing.Pool bookkeeping, manager transport",
        "beat regressor limited to 3 solver iterations"]
ASSUMPTIONS = ["an analysis that fails may leave the previous result or none"]

prepare = guisim.prepare


def scenario(run):
  c = run.c
  parallel = c.prob(0.15)
  lab = guilab.Lab(run, busy=c.choice((0.05, 0.3, 0.6)), parallel=parallel)
  n = c.int(1, 4)
  if parallel:
    run.probe("parallel")

  def session(g):
    lab.start(g)
    if c.prob(0.05):
      lab.analyze()
    lab.tune(first=True)
    yield
    lab.load()
    yield
    for i in range(n):
      for _ in range(c.int(0, 2)):
        c.choice((lab.trim, lab.tune, lab.load))()
        yield
      lab.analyze()
      run.state(i, len(lab.done), lab.region().size)
      yield
      for k in c.subset(("original", "resynthesis", "json", "wav"), 0.25):
        lab.result(k)
        yield

  def ended(g, code, exc):
    if exc is not None:
      raise core.Violation("start-fails", f"{type(exc).__name__}: {exc} at "
                           f"{core.sut_site(exc)}")

  user = guisim.Script(run, session)
  user.on_end, user.on_update = ended, lab.on_update
  with guilab.machine(run, user, c.choice((0.0, 0.01, 0.05, 0.3)),
                      parallel) as (g, sim):
    g.launch()
    run.check(g.n_started == 1, "relaunched")
    if sim is not None and not lab.running:
      run.check(not sim.leaks(), "resource-leak", lambda: str(sim.leaks()))
