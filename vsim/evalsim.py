"""The evaluation script (checkpoints, resume, failing test cases) under
crashes, disk errors and interrupts. Shared by C08, C09 and C10"""
import copy
import errno
import importlib.util
import io
import math
import os
import re
import types

import numpy as np
from scipy.io import wavfile

from vsim import core, fs as vfs, procs, runner, threads, train

EV = None
DECISION_REPORT = None
STATE = types.SimpleNamespace(run=None, sched=None)


def prepare():
  global EV
  spec = importlib.util.spec_from_file_location(
      "beatsdrop_evaluation", "/repo/scripts/beatsdrop/evaluation.py")
  import sys
  EV = importlib.util.module_from_spec(spec)
  sys.modules["beatsdrop_evaluation"] = EV
  spec.loader.exec_module(EV)
  global DECISION_REPORT
  DECISION_REPORT = EV.decision_report
  for mode in CLS:
    BODY[mode] = getattr(EV, BODY_NAME[mode])
    for seed in range(REAL_SEEDS):
      REF[mode, seed] = runner.isolated(lambda m=mode, k=seed: alone(m, k), 60)


CLS = {"eval": "BeatsDROPEvalResult", "decision": "BeatsDROPDecisionResult",
       "fft": "BeatsDROPFFTResult"}
# The script's own test cases, and what each one gives alone in a new process
BODY = {}
BODY_NAME = {"eval": "test_case", "decision": "test_case_decision",
             "fft": "test_case_fft"}
REF = {}
REAL_SEEDS = 8
FFT = 11


def small_generator(on_audio=None):
  """The real generator, of sounds that are quick to analyse"""

  class SmallGenerator(EV.random.BeatsGenerator):

    def __init__(self, seed=None, onlybeat=False, **_):
      super().__init__(seed=seed, onlybeat=onlybeat, f_min=100, f_max=400,
                       decay=0.5, decay_min=0.3)
      self.case_seed = seed

    def audio(self, *_, **__):
      if on_audio is not None:
        on_audio(self.case_seed)
      return super().audio(dur=1, fs=4000)

  return SmallGenerator


def alone(mode, seed):
  """Result of a real test case in a process of its own"""
  real = small_generator()
  truth_ = real(seed=seed, onlybeat=mode != "decision").audio()[2]
  out = {"truth": [[float(v) for v in k] for k in truth_]}
  kw = {"n": 1 << FFT} if mode == "fft" else {}
  with core.patched((EV.random, "BeatsGenerator", real),
                    (EV.logger, "disabled", True)):
    try:
      r = BODY[mode](seed, **kw)
    except Exception as e:  # pylint: disable=W0718
      return dict(out, raises=type(e).__name__, msg=str(e))
  return dict(out, row={k: getattr(v, "item", lambda v=v: v)()
                        for k, v in r._asdict().items()})


def value(seed, name):
  """The result of a test case: any function of seed and field will do"""
  k = sum(map(ord, name)) % 97
  v = math.sin(seed * 12.9898 + k * 78.233) * 43758.5453
  v = v - math.floor(v) + 0.001
  return v * 10.0 ** (k % 9 - 4)


def truth(seed):
  """Ground truth parameters, already in canonical order"""
  if STATE.real:
    return REF[STATE.mode, seed]["truth"]
  f = sorted(value(seed, f"f{i}") for i in range(3))
  a = sorted((value(seed, f"a{i}") for i in range(3)), reverse=True)
  d = [value(seed, f"d{i}") for i in range(3)]
  p = [value(seed, f"p{i}") for i in range(3)]
  return f, d, a, p


class Generator:
  """Stands for the generator of random sounds"""

  def __init__(self, seed=None, onlybeat=False, **_):
    self.seed = seed

  def audio(self):
    f, d, a, p = truth(self.seed)
    return np.full(8, self.seed, dtype=np.int16), 8000, (f, d, a, p)


def ground_truth(mode, seed):
  """Fields of the true parameters, the beating partials in order"""
  f, d, a, p = truth(seed)
  a0, a1, f0, f1, d0, d1, p0, p1 = EV.beatsdrop.regression.sort_params(
      (a[0], a[1], f[0], f[1], d[0], d[1], p[0], p[1]))
  row = {"a0": a0, "a1": a1, "f0": f0, "f1": f1, "d0": d0, "d1": d1,
         "p0": p0, "p1": p1}
  if mode == "decision":
    row.update(f2=f[2], d2=d[2], a2=a[2], p2=p[2])
  return row


def expected(mode, seed):
  """Row of a test case in the final results"""
  truth_ = ground_truth(mode, seed)
  if STATE.real:
    return dict(REF[mode, seed]["row"], **truth_)
  row = dict(truth_, seed=seed)
  if mode == "decision":
    row.update(beat=bool(seed % 2), single=bool(seed % 3))
  elif mode == "fft":
    row["count"] = seed % 4
    row.update({k: value(seed, k) for k in EV.fft_param_names})
  else:
    row.update({k: value(seed, k)
                for k in (*EV.br_param_names, *EV.dbr_param_names)})
  return row


def case(mode, seed, log_level=None, log_path=None, wav_path=None):
  s = STATE
  s.attempts[seed] = s.attempts.get(seed, 0) + 1
  s.started.append(seed)
  s.run.ev("test", seed)
  s.sched.sleep(0.001 * (1 + (seed * 7 + s.life * 3) % 5))
  with EV.test_case_context(seed=seed, log_level=log_level, log_path=log_path,
                            wav_path=wav_path,
                            onlybeat=mode != "decision") as (_, gt):
    if s.failing.get(seed, 0) >= s.attempts[seed]:
      s.run.fault("test-case-fails", str(seed))
      s.failed.add(seed)
      s.failed_now.append(seed)
      raise train.InjectedError(f"case {seed} failed")
    row = expected(mode, seed)
    row.update({k: v for k, v in gt.items()})
    s.succeeded.add(seed)
    return getattr(EV, CLS[mode])(**row)


def case_real(mode, seed, **kw):
  """The script's test case, with the same accounts as above"""
  s = STATE
  s.attempts[seed] = s.attempts.get(seed, 0) + 1
  s.started.append(seed)
  s.run.ev("test", seed)
  s.run.probe("real-test-case")
  s.sched.sleep(0.001 * (1 + (seed * 7 + s.life * 3) % 5))
  s.running_case[s.sched.current] = seed
  try:
    r = BODY[mode](seed, **kw)
  except Exception as e:
    if not isinstance(e, OSError):  # faults of the disk are not its own
      s.failed.add(seed)
      s.failed_now.append(seed)
    raise
  if r is None:
    s.failed.add(seed)
    s.failed_now.append(seed)
  else:
    s.succeeded.add(seed)
  return r


def failing_fit(fit):
  """Fitting a model, of a test case that may have to fail"""

  def fit_(self, *args, **kwargs):
    s = STATE
    seed = s.running_case[s.sched.current]
    if seed not in s.natural and s.failing.get(seed, 0) >= s.attempts[seed]:
      s.run.fault("test-case-fails", str(seed))
      raise train.InjectedError(f"case {seed} failed")
    return fit(self, *args, **kwargs)

  return fit_


def case_eval(seed, **kw):
  return (case_real if STATE.real else case)("eval", seed, **kw)


def case_decision(seed, **kw):
  return (case_real if STATE.real else case)("decision", seed, **kw)


def case_fft(seed, n=None, **kw):
  if STATE.real:
    return case_real("fft", seed, n=n, **kw)
  return case("fft", seed, **kw)


def report(args):
  """Stands for the decision report, or runs it with a simple tree"""
  STATE.reported = args.df.copy()
  if STATE.full_report:
    STATE.run.probe("decision-report")
    return DECISION_REPORT(args)
  return args


class Tree:
  """Stands for a decision tree: importances are any function of the data"""

  def __init__(self, **_):
    pass

  def fit(self, x, y):
    self.feature_names_in_ = np.array(x.columns)
    self.feature_importances_ = importance(x.to_numpy(), y.to_numpy())
    return self


def importance(x, y):
  v = np.abs(np.dot(np.asarray(y, dtype=float) + 0.25, x))
  return v / (1 + v)


class Axes:
  """Stands for a set of axes of a plot"""

  def hist(self, x, **_):
    bins = np.histogram_bin_edges(np.concatenate(x), 10)
    return np.array([np.histogram(v, bins)[0] for v in x]), bins, None

  cla = grid = legend = bar = boxplot = lambda *_, **__: None
  set_title = set_xlabel = set_yticklabels = cla


class Plots:
  """Stands for matplotlib.pyplot"""

  def subplots(self, *shape, **_):
    axs = np.empty(shape[0] * shape[1], dtype=object)
    for i in range(axs.size):
      axs[i] = Axes()
    return None, axs

  def savefig(self, fname):
    with open(fname, "wb") as f:
      f.write(b"figure")

  def clf(self):
    pass


class Bar:
  """Stands for a progress bar"""

  def __init__(self, it, **_):
    self.it = it

  def __iter__(self):
    return iter(self.it)

  def set_description(self, *_):
    pass


def importances(want):
  """What the analysis of decision errors of these cases gives"""
  import sklearn.model_selection
  rows = [expected("decision", k) for k in sorted(want)]
  cols = {k: np.array([float(r[k]) for r in rows]) for k in rows[0]}
  for k in "afdp":
    lo, hi = (cols[f"{k}{i}"] for i in range(2))
    cols[f"{k}_delta"] = abs(lo - hi)
    cols[f"{k}_avg"] = (lo + hi) / 2
    cols[f"{k}_log_delta"] = abs(np.log(lo) - np.log(hi))
    cols[f"{k}_log_avg"] = (np.log(lo) + np.log(hi)) / 2
  out = []
  names = [k for k in cols if k not in ("beat", "single")]
  x = np.stack([cols[k] for k in names], axis=1)
  for train_, _ in sklearn.model_selection.RepeatedKFold(
      n_splits=16, n_repeats=64, random_state=42).split(x):
    for t in ("beat", "single"):
      out.append((t, dict(zip(names, importance(x[train_],
                                                cols[t][train_])))))
  return out


def check_decision_report(run, disk, want):
  import pandas as pd
  import sklearn.metrics
  rows = [expected("decision", k) for k in sorted(want)]
  n = len(rows)
  text = (disk.read("out/res_report.txt") or b"").decode()
  exp = sklearn.metrics.classification_report(
      [True] * n + [False] * n,
      [r["beat"] for r in rows] + [r["single"] for r in rows])
  chk(run, text.split() == exp.split(), "wrong-report",
      lambda: f"{text} expected {exp}")
  data = disk.read("out/res_errors_feature_importance.csv")
  chk(run, data is not None, "wrong-report", "no importances")
  df = pd.read_csv(io.BytesIO(data))
  exp = importances(want)
  chk(run, len(df) == len(exp), "wrong-report",
      lambda: f"{len(df)} importances, expected {len(exp)}")
  chk(run, list(df["target"]) == [t for t, _ in exp], "wrong-report",
      "targets of the importances")
  for k in df.columns:
    if k in exp[0][1]:
      e = np.array([v[k] for _, v in exp])
      got = pd.to_numeric(df[k], errors="coerce").to_numpy()
      chk(run, np.allclose(got, e, rtol=1e-6, atol=1e-12), "wrong-report",
          lambda: f"importance of {k}: {got[:4]}, expected {e[:4]}")


def autorank(data, **kwargs):
  """Stands for the statistical tests: what they were given"""
  STATE.run.probe("statistics")
  return {k: [float(v) for v in data[k]] for k in data.columns}


def print_report(rank_result):
  for k in sorted(rank_result):
    print(k, *map(repr, rank_result[k]))


def populations(want):
  """Absolute errors that the statistical tests are about"""
  out = {}
  maps = {"f": EV.psycho.hz2mel, "a": EV.dsp_utils.a2db, "d": np.asarray}
  for k in ("f0", "f1", "a0", "a1", "d0", "d1"):
    for m in ("br", "dbr"):
      out[f"{k}_{m}_ar"] = [
          float(abs(maps[k[0]](np.float64(e[k])) -
                    maps[k[0]](np.float64(e[f"{m}_{k}"]))))
          for e in (expected("eval", s) for s in sorted(want))]
  return out


def parse(mode, data):
  """Rows of a results file by seed, or what is wrong with it"""
  import pandas as pd
  try:
    df = pd.read_csv(io.StringIO(data.decode("utf-8")))
  except Exception as e:  # pylint: disable=W0718
    return None, f"unreadable: {type(e).__name__}: {e}"
  return rows_of(mode, df)


def rows_of(mode, df):
  out = {}
  cols = [c for c in df.columns if not str(c).startswith("Unnamed")]
  want_cols = list(getattr(EV, CLS[mode])._fields)
  if cols != want_cols:
    return None, f"columns {cols}"
  for _, r in df.iterrows():
    s = r["seed"]
    if s != s or int(s) != s or int(s) in out:
      return None, f"seed {s}"
    if STATE.real and "row" not in REF.get((mode, int(s)), ()):
      return None, f"seed {s} cannot have results"
    want = expected(mode, int(s))
    for k in want_cols:
      w, g = want[k], r[k]
      if isinstance(w, bool):
        ok = g in (w, str(w)) and isinstance(g, (bool, np.bool_, str))
      else:
        try:
          ok = abs(float(g) - w) <= 1e-9 * abs(w) + 1e-300
        except (TypeError, ValueError):
          ok = False
      if not ok:
        return None, f"seed {int(s)} {k}: {g!r}, expected {w!r}"
    out[int(s)] = True
  return set(out), None


def ckpts(disk):
  return [f for f in disk.listing()
          if re.fullmatch(r"out/res\.ckpt-\d+", f)]


# which of the three properties a violation is about
ABOUT = {
    "wrong-results": ("C08", "C10"), "results-missing": ("C08", "C09"),
    "wrong-report": ("C08",), "sound-missing": ("C08",),
    "wrong-sound": ("C08",), "resume-fails": ("C08", "C09"),
    "run-fails": ("C08", "C10"), "no-progress": ("C08", "C10"),
    "case-not-run": ("C08", "C10"), "saved-result-recomputed": ("C09",),
    "saved-result-lost": ("C09",), "checkpoint-removed-early": ("C09",), "checkpoints-left": ("C09",),
    "case-error-not-isolated": ("C10",), "failure-not-logged": ("C10",),
    "failed-case-not-retried": ("C10",), "resource-leak": ("C10",),
    "error-swallowed": ("C10",),
}


def chk(run, cond, cls, msg=""):
  if not cond and STATE.focus in ABOUT[cls]:
    raise core.Violation(cls, msg() if callable(msg) else msg)
  if not cond:
    raise core.Discard(f"{cls}: another property")


def best_file(disk):
  """The file that an evaluation resumes from"""
  best = ckpts(disk) or (
      ["out/res.csv"] if disk.read("out/res.csv") is not None else [])
  best.sort(key=lambda f: int(f.rsplit("-", 1)[-1]) if "ckpt" in f else -1)
  return best[-1] if best else None


def life(run, disk, argv, plan, mode):
  """One process: runs the script's main. Returns how it ended"""
  c = run.c
  s = STATE
  s.started = []
  s.failed_now = []
  s.reported = None
  s.life += 1
  run.ev("life", s.life, [a.replace(disk.root, "") for a in argv], plan)
  end = "ok"
  with threads.Sched(run) as sched:
    s.sched = disk.sched = sched
    with procs.ProcSim(run, sched, max_workers=3) as sim:
      sim.worker_class = procs.InlineWorker
      sim.slow_workers(c, (0.05, 2, 600))
      power = False
      if plan == "interrupt":
        sim.interrupt_at = c.int(1, 8)
      elif plan in ("kill", "power"):
        power = plan == "power"
        disk.arm_crash(c.choice((8, 25, 60)))
      elif plan == "full":
        disk.arm_error(errno.ENOSPC, c.choice((6, 20)), lasts=50)
      elif plan == "eio":
        disk.arm_error(errno.EIO, c.choice((6, 20, 40)), lasts=1,
                       kinds=(*disk.MUTATING, "open", "read"))
      disk.short = 0.1 if plan == "short" else 0.0
      with core.patched(*threads.seams(sched), *sim.seams(), *disk.seams(),
                        (EV.random, "BeatsGenerator",
                         s.generator),
                        (EV.sample.SAMPLE, "fit",
                         failing_fit(EV.sample.SAMPLE.fit)),
                        (EV, "base_model", copy.deepcopy(EV.base_model)),
                        (EV, "test_case", case_eval),
                        (EV, "test_case_decision", case_decision),
                        (EV, "test_case_fft", case_fft),
                        (EV.autorank, "autorank", autorank),
                        (EV, "print_report", print_report),
                        (EV, "decision_report", report),
                        (EV, "plt", Plots()), (EV.tqdm, "tqdm", Bar),
                        (EV.sklearn.tree, "DecisionTreeClassifier", Tree)):
        try:
          EV.main(*argv)
        except core.SimCrash:
          end = "crash"
        except KeyboardInterrupt:
          if not run.faults["keyboard-interrupt"]:
            raise
          end = "interrupt"
        except train.InjectedError:
          end = "case"
        except OSError as e:
          if plan not in ("full", "eio") or e.errno not in (
              errno.ENOSPC, errno.EIO):
            raise
          end = "disk"
        except core.Violation:
          raise
        except Exception as e:  # pylint: disable=W0718
          if any(REF[mode, k].get("raises") == type(e).__name__
                 for k in s.natural.intersection(s.failed_now)):
            end = "case"
          chk(run, end == "case", "resume-fails" if s.life > 1 else "run-fails",
              f"{type(e).__name__}: {e} at {core.sut_site(e)}; disk: "
              f"{disk.listing()}")
        if end in ("ok", "case", "disk"):
          chk(run, end == "crash" or not sim.leaks(), "resource-leak",
                    lambda: str(sim.leaks()))
  was_crash = end == "crash"
  disk.restart(power=was_crash and power)
  run.ev("end", end, sorted(disk.listing()))
  if was_crash and power:
    end = "power"
  return end


def scenario(run, focus):
  c = run.c
  s = STATE
  s.__dict__.clear()
  s.run = run
  s.focus = focus
  s.life = 0
  s.attempts, s.failing = {}, {}
  s.running_case = {}
  s.real = c.prob(0.1)
  s.failed, s.succeeded = set(), set()
  mode = c.choice(("eval", "decision", "fft"))
  s.mode = mode
  n = c.int(10, 16) if c.prob(0.2) else c.int(1, 7)
  if s.real:
    n = min(n, REAL_SEEDS)
  s.full_report = mode == "decision" and not s.real and c.prob(0.1)
  if s.full_report:  # its analysis needs 16 cases
    n = 18
  s.natural = {k for k in range(REAL_SEEDS)
               if s.real and "raises" in REF[mode, k]}
  logexc = c.prob(0.8 if focus == "C10" else 0.4)
  s.wav = c.prob(0.2)
  s.generator = small_generator() if s.real else Generator
  for k in range(18):
    if c.prob(0.35 if focus == "C10" else 0.08) and (
        not s.full_report or len(s.failing) < 2):
      s.failing[k] = c.choice((1, 2, 99))
  if mode == "fft":
    s.failing.pop(0, None)  # no report without any result
  chk(run, len(s.natural) < REAL_SEEDS, "run-fails",
      lambda: "each case alone: " + str(REF[mode, 0]))
  s.failing.update({k: 99 for k in s.natural})
  n_lives = c.int(1, 4)
  saved = set()  # what must not be lost by a crash of the process
  run.case = {"mode": mode, "n": n, "log": logexc, "failing": s.failing,
              "lives": []}
  with vfs.SimFS(run) as disk:

    def closed(rel):
      """A file was completely handed to the system"""
      m = re.fullmatch(r"out/res\.ckpt-\d+", rel)
      if not m and rel != "out/res.csv":
        return
      got, _ = parse(mode, disk.read(rel) or b"")
      if got is None:
        return
      if m:
        run.probe("checkpoint-written")
        s.newest = got
      elif not ckpts(disk):
        s.newest = got
      else:
        s.csv = got

    def removed(rel):
      """A file is about to be deleted"""
      if rel not in ckpts(disk):
        return
      lost = parse(mode, disk.read(rel) or b"")[0]
      if lost:
        kept = parse(mode, disk.read("out/res.csv") or b"")[0]
        run.probe("checkpoint-removed")
        if not lost <= (kept or set()):
          s.early.append(f"{rel} of cases {sorted(lost)}, results of cases "
                         f"{kept and sorted(kept)}")

    disk.on_closed = closed
    disk.on_remove = removed
    s.early = []
    s.newest = None
    s.csv = None

    def step(plan, final=False):
      nonlocal n, saved
      argv = ["-O", disk.path("out", "res"), "-l", "CRITICAL",
              "-n", str(n), "-j", str(c.int(1, 3))]
      ck = c.choice((1, 1, 2, 3, None, 5))
      if ck is not None:
        argv += ["--checkpoint", str(ck)]
      if mode == "decision":
        argv.append("--test-decision")
      elif mode == "fft":
        argv += ["--test-fft", str(FFT)]
      if logexc:
        argv += ["--log-exception", disk.path("logs")]
      if c.prob(0.2):
        argv.append("--tqdm")
      wav = s.wav and (final or c.prob(0.7))
      if wav:
        argv += ["--wav", disk.path("wav")]
      fresh = not final and s.life > 0 and c.prob(0.08)
      if fresh:
        argv.append("--no-resume")
      s.newest = None
      s.early = []
      had_ckpt = bool(ckpts(disk))
      end = life(run, disk, argv, plan, mode)
      run.case["lives"].append((plan, end))
      run.state(focus, mode, plan, end, len(ckpts(disk)),
                disk.read("out/res.csv") is not None)
      if s.life > 1 and had_ckpt:
        run.probe("resumed-from-checkpoint")
      chk(run, fresh or not s.early, "checkpoint-removed-early",
          lambda: "; ".join(s.early))
      if fresh:
        saved = set()
      elif not wav:
        again = saved & set(s.started)
        chk(run, not again, "saved-result-recomputed",
                  lambda: f"cases {sorted(again)} had been saved; disk "
                  f"{disk.listing()}")
      if end == "power":
        saved = set()  # judged by what is found on the disk, below
        best = best_file(disk)
        if best:
          saved = parse(mode, disk.read(best))[0] or set()
      elif s.newest is not None:
        saved = set(s.newest) if not fresh or end == "ok" else set()
      if end == "ok" and s.csv is not None:
        saved = s.csv
      if end == "ok" and not logexc:
        chk(run, not s.failed_now, "error-swallowed",
            lambda: f"cases {s.failed_now} failed, without logging")
      # cases that failed before are tried again, if nothing stops the run
      if end == "ok":
        again = {k for k in s.failed if k < n and k not in s.succeeded}
        chk(run, again <= set(s.started), "failed-case-not-retried",
            lambda: f"{sorted(again)}, run {s.started}")
        finished(run, disk, mode, n, logexc, wav)
      elif end == "case":
        chk(run, not logexc, "case-error-not-isolated",
                  "a logged failure ended the evaluation")
      if not fresh and end in ("crash", "interrupt", "disk", "case"):
        best = best_file(disk)
        got = parse(mode, disk.read(best))[0] if best else set()
        chk(run, saved <= (got or set()), "saved-result-lost",
            lambda: f"{sorted(saved - (got or set()))} were saved, {best} has "
            f"{sorted(got or ())}; disk {disk.listing()}")
      return end

    for _ in range(n_lives):
      plan = c.weighted([(5, "kill"), (2, "power"), (1.5, "interrupt"),
                         (1.5, "full"), (1, "eio"), (1, "none"),
                         (0.5, "short")])
      step(plan)
      if c.prob(0.15):
        n = max(n, min(REAL_SEEDS if s.real else 18, n + c.int(1, 2)))
    # Faults stop: the evaluation ends within as many runs as cases fail
    left = 3 + sum(v for v in s.failing.values() if v < 99)
    while True:
      before = {k: s.attempts.get(k, 0) for k in s.failing if k < n}
      end = step("none", final=True)
      if end == "ok":
        break
      chk(run, end == "case", "no-progress", end)
      if any(s.failing[k] >= 99 for k in before):
        return  # it can never end: nothing logs the failure away
      left -= 1
      chk(run, left > 0, "no-progress", "still not finished")
    run.probe("finished")


def finished(run, disk, mode, n, logexc, wav):
  """A run that ended well leaves complete results"""
  s = STATE
  data = disk.read("out/res.csv")
  chk(run, data is not None, "results-missing")
  got, why = parse(mode, data)
  chk(run, got is not None, "wrong-results", lambda: why)
  bad = {k for k, v in s.failing.items()
         if v >= s.attempts.get(k, 0) and k < n}
  want = {k for k in range(n)} - bad
  chk(run, {k for k in got if k < n} == want, "wrong-results",
            lambda: f"cases {sorted(got)}, expected {sorted(want)}")
  chk(run, not ckpts(disk), "checkpoints-left", lambda: str(ckpts(disk)))
  if mode == "decision":
    rep, why = rows_of(mode, s.reported) if s.reported is not None else (
        None, "no report")
    chk(run, rep is not None, "wrong-report", lambda: why)
    chk(run, {k for k in rep if k < n} == want, "wrong-report",
              lambda: f"cases {sorted(rep)}, expected {sorted(want)}")
    if s.full_report:
      check_decision_report(run, disk, want)
  elif mode == "fft":
    text = (disk.read("out/res_report.txt") or b"").decode()
    two = sum(expected(mode, k)["count"] >= 2 for k in want)
    chk(run, f" {two}/{len(want)} " in text, "wrong-report",
              lambda: f"{text!r}, expected {two}/{len(want)}")
  else:
    text = (disk.read("out/res_report.tex") or b"").decode()
    got = {ln.split()[0]: list(map(float, ln.split()[1:]))
           for ln in text.splitlines() if ln}
    exp = populations(want)
    chk(run, set(got) == set(exp) and all(
        len(got[k]) == len(v) and np.allclose(got[k], v, rtol=1e-6, atol=1e-9)
        for k, v in exp.items()), "wrong-report",
              lambda: f"statistics of {sorted(map(len, got.values()))[:1]} "
              f"cases, expected cases {sorted(want)}")
  if wav:
    for k in range(n):
      data = disk.read(f"wav/{k}.wav")
      chk(run, data is not None, "sound-missing", lambda: str(k))
      try:
        rate, x = wavfile.read(io.BytesIO(data))
      except Exception as e:  # pylint: disable=W0718
        chk(run, False, "wrong-sound", f"case {k}: {len(data)} bytes, {e}")
      want_x, want_rate, _ = s.generator(
          seed=k, onlybeat=mode != "decision").audio()
      chk(run, rate == want_rate and np.array_equal(x, want_x), "wrong-sound",
          lambda: f"case {k}: {rate} Hz, {x.size} samples")
    run.probe("sounds")
  for k in sorted(s.failed):
    if k in bad and k in s.started:
      log = disk.read(f"logs/{k}.log") or b""
      kind, msg = "InjectedError", f"case {k} failed"
      if k in s.natural:
        kind, msg = REF[mode, k]["raises"], REF[mode, k]["msg"]
      text = log.decode("utf-8", "replace")
      chk(run, f"Seed: {k}\n" in text and text.count(msg) > 1 and
          f"{kind}: {msg}" in text, "failure-not-logged",
                lambda: f"case {k}: {log[:200]!r}")
      run.probe("failure-logged")
  for k in range(n):
    if k not in bad and s.attempts.get(k, 0) == 0:
      chk(run, False, "case-not-run", str(k))
