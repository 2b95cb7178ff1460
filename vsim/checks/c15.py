"""What is played and saved is the last analysis, and 'Saved' is true"""
from vsim import core, guilab, guisim

CONFIG = {"runs": 4000, "wall": 32, "thorough_wall": 400, "run_limit": 90,
          "must_probe": ("exported-json", "exported-wav", "export-fails",
                         "resynthesis-played", "original-played",
                         "not-analyzed", "audio-fails", "analysis-fails")}
RULE = ("A user loads, trims, analyses (with failures), changes settings, and "
        "between all that plays and exports results, cancels the dialogs, "
        "writes over earlier files, on a disk that is full, fails or writes "
        "short, and with an audio device that fails. A run counts if a fault "
        "fired or a result was asked for without one to give; distinct runs "
        "are told apart by the hash of actions and faults.")
REAL = ["sample.widgets (analysis, sample, settings, audioload, audio)",
        "sample.sample, sample.sms, sample.hinge, sample.beatsdrop",
        "scipy WAV writer and reader, json", "tkinter, ttk Python code"]
STUB = ["Tcl/Tk interpreter", "matplotlib canvas", "disk", "clock", "dialogs",
        "audio device", "beat regressor limited to 3 solver iterations"]
ASSUMPTIONS = ["a failed export may leave a partial file, as it is reported",
               "the resynthesis may cover any region selected since the "
               "analysis"]

prepare = guisim.prepare


def scenario(run):
  c = run.c
  lab = guilab.Lab(run, busy=c.choice((0.0, 0.1)))
  n = c.int(3, 14)

  def session(g):
    lab.start(g)
    lab.tune(first=True)
    yield
    for i in range(n):
      kind = c.weighted([(3, "result"), (2, "analyze"), (1, "trim"),
                         (1, "load"), (0.5, "tune")])
      if i == 0 and c.prob(0.8):
        kind = "load"
      elif i == 1 and c.prob(0.7):
        kind = "analyze"
      run.sched(kind)
      if kind == "result":
        k = c.choice(("json", "wav", "resynthesis", "original"))
        f = c.weighted([(3, None), (1, "ENOSPC"), (1, "EIO"), (1, "short")])
        run.sched(k, f)
        if k in ("json", "wav"):
          lab.export(k, f)
        else:
          lab.play(k, f is not None)
      else:
        getattr(lab, kind)()
      x = lab.region()
      run.state(kind, len(lab.current()), x is None or x.size)
      yield
    # after all faults everything works
    lab.faults = False
    for k in c.shuffle(("json", "wav", "resynthesis", "original")):
      lab.result(k)

  def ended(g, code, exc):
    if exc is not None:
      raise core.Violation("start-fails", f"{type(exc).__name__}: {exc} at "
                           f"{core.sut_site(exc)}")

  user = guisim.Script(run, session)
  user.on_end, user.on_update = ended, lab.on_update
  with guilab.machine(run, user, c.choice((0.0, 0.05)), False) as (g, _):
    g.launch()
    run.check(g.n_started == 1, "relaunched")
  run.nontrivial = run.nontrivial or run.probes["not-analyzed"] > 0
