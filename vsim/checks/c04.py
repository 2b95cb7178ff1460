"""Streaming partial tracking follows the documented rules on any stream"""
import copy
import math
import pickle

import numpy as np

from vsim import core, models, threads

CONFIG = {"runs": 20000, "wall": 32, "thorough_wall": 600, "run_limit": 30,
          "must_probe": ("merged", "capped", "observed", "restarted",
                         "rejected")}
RULE = ("a seeded stream of spectral-peak frames (drifting, crossing, dying, "
        "returning partials, dropped and duplicated frames) with "
        "observations, checkpoint/restore, interruption and reset events is "
        "fed to a tracker and to a reference model; non-trivial: a track was "
        "saved and one was rejected, merged or cut off")
REAL = ["sample.sms.sm.SineTracker", "sample.sms.mm.ModalTracker"]
STUB = ["the spectral analysis in front of the tracker"]


class Ambiguous(Exception):
  pass


class Ref:
  """Reference model of the two trackers"""

  def __init__(self, modal, p):
    self.modal, self.p = modal, p
    self.done, self.act, self.n = [], [], 0
    self.merged = self.rejected = self.capped = 0

  def ok(self, t, count=True):
    p = self.p
    f, m = t["freq"], t["mag"]
    r = len(f) >= max(2, math.ceil(p["min_sine_dur"] * (p["fs"] / p["h"])))
    if r and self.modal:
      mf = sum(f) / len(f)
      lo, hi = p["frequency_bounds"]
      for b in (lo, hi):
        if b is not None and abs(mf - b) < 1e-9 * b and not all(
            z == b for z in f):
          raise Ambiguous
      r = (lo is None or mf >= lo) and (hi is None or mf <= hi)
      if r:
        n = len(m)
        xs = list(range(n))
        if p["reverse"]:
          xs.reverse()
        mx, my = sum(xs) / n, sum(m) / n
        k = sum((a - mx) * (b - my) for a, b in zip(xs, m)) / sum(
            (a - mx)**2 for a in xs)
        q = my - k * mx
        if abs(k) < 1e-9 or abs(q - p["peak_threshold"]) < 1e-7:
          raise Ambiguous
        r = k <= 0 and q >= p["peak_threshold"]
    if not r and count:
      self.rejected += 1
    return r

  def df(self, f):
    return self.p["freq_dev_offset"] + self.p["freq_dev_slope"] * f

  def end(self, t):
    if not self.ok(t):
      return
    if self.modal:
      best = None
      for u in self.done:
        if u["start"] + len(u["mag"]) < t["start"]:
          if self.p["merge_strategy"] == "single":
            d = abs(u["freq"][-1] - t["freq"][0])
          else:
            g = [z for z in u["freq"] if z == z]
            d = abs(sum(g) / len(g) - sum(t["freq"]) / len(t["freq"]))
          if best is not None and abs(d - best[0]) < 1e-7:
            raise Ambiguous
          if best is None or d < best[0]:
            best = (d, u)
      if best is not None and abs(best[0] - self.df(t["freq"][0])) < 1e-7:
        raise Ambiguous
      if best is not None and best[0] < self.df(t["freq"][0]):
        u = best[1]
        gap = [math.nan] * (t["start"] - u["start"] - len(u["mag"]))
        for k in ("freq", "mag", "phase"):
          u[k] = u[k] + gap + t[k]
        self.merged += 1
        return
    self.done.append(t)

  def feed(self, fr, mg, ph):
    free = set(range(len(fr)))
    open_ = set(range(len(self.act)))
    for p in sorted(free, key=lambda i: -mg[i]):
      if not open_:
        break
      t = min(open_, key=lambda i: (abs(self.act[i]["freq"][-1] - fr[p]), i))
      if abs(self.act[t]["freq"][-1] - fr[p]) < self.df(fr[p]):
        self.act[t]["freq"].append(fr[p])
        self.act[t]["mag"].append(mg[p])
        self.act[t]["phase"].append(ph[p])
        open_.discard(t)
        free.discard(p)
    for t in sorted(open_, reverse=True):
      self.end(self.act.pop(t))
    for p in sorted(free):
      if len(self.act) >= self.p["max_n_sines"]:
        self.capped += 1
        break
      self.act.append({"start": self.n, "freq": [fr[p]], "mag": [mg[p]],
                       "phase": [ph[p]]})
    self.n += 1

  def tracks(self):
    out = self.done + [t for t in self.act if self.ok(t, count=False)]
    s = self.p.get("strip_t")
    if self.modal and s is not None:
      sn = math.ceil(s * (self.p["fs"] / self.p["h"]))

      def onset(t):
        return (self.n - (t["start"] + len(t["mag"]))
                if self.p["reverse"] else t["start"])

      out = [t for t in out if onset(t) <= sn]
    return [{"start_frame": t["start"], "freq": list(t["freq"]),
             "mag": list(t["mag"]), "phase": list(t["phase"])} for t in out]


def prepare():
  import sample.sms.mm  # noqa
  threads.instrument(["/repo/sample/sms/"])


def same(run, real, ref, what):
  run.check(len(real) == len(ref), "tracks-differ",
            lambda: f"{what}: {len(real)} tracks, expected {len(ref)}: "
            f"{brief(real)} vs {brief(ref)}")
  for a, b in zip(real, ref):
    for k in b:
      run.check(models.close(np.asarray(a[k], dtype=float),
                             np.asarray(b[k], dtype=float), rtol=0, atol=0),
                "tracks-differ",
                lambda: f"{what}: {k}: {brief(real)} vs {brief(ref)}")


def brief(ts):
  return [(int(t["start_frame"]), len(t["freq"]),
           [round(float(f), 1) for f in t["freq"]][:6]) for t in ts][:12]


def scenario(run):
  import sample.sms.mm as mm
  import sample.sms.sm as sm
  c = run.c
  modal = not c.prob(0.3)
  p = dict(fs=1000, h=c.choice((10, 20, 25)),
           max_n_sines=c.choice((100, 2, 3, 5, 1)),
           min_sine_dur=c.choice((0.04, 0.0, 0.1, 0.15)),
           freq_dev_offset=c.choice((20, 3, 8)),
           freq_dev_slope=c.choice((0.01, 0.0, 0.05, 0.3)))
  if modal:
    p.update(reverse=c.prob(0.4),
             frequency_bounds=c.choice(((20, 16000), (None, None), (20, 16000), (None, 1e4),
                                        (100, 300), (None, 250), (150, None),
                                        (200, 300), (100, 200))),
             peak_threshold=c.choice((-90, -90, -60, -30, -12)),
             merge_strategy=c.choice(("average", "single")),
             strip_t=c.choice((None, None, 0.05, 0.2)))
  tr = (mm.ModalTracker if modal else sm.SineTracker)(**p)
  ref = Ref(modal, p)
  tr.reset()
  n_frames = c.int(3, 60)
  # in a reversed stream partials grow
  sign = -1 if modal and p["reverse"] and c.prob(0.8) else 1
  parts = [dict(f=c.real(60, 480, 512), a=c.real(-40, -2, 64),
                k=c.real(-1.0, 0.1, 64) * sign, drift=c.choice((0, 0, 1.7, -2.9, 9.5, -9.5, None)),
                on=c.int(0, n_frames // 3), off=c.int(n_frames // 3, n_frames),
                hole=c.choice((None, c.int(2, n_frames))),
                again=c.choice((0, 0, 8, 13)),  # more holes
                len=c.int(1, 6))
           for _ in range(c.int(1, 5))]
  run.case = {"modal": modal, "params": p, "frames": n_frames, "partials":
              len(parts)}
  left = [None]

  def hook(code, line):
    if left[0] is not None:
      left[0] -= 1
      if left[0] == 0:
        left[0] = None
        run.fault("interrupt-update", code.co_name)
        raise KeyboardInterrupt

  uniq = 0
  try:
    with threads.Sched(run) as sched:
      sched.tick_hook = hook
      for i in range(n_frames):
        peaks = []
        drop = c.prob(0.06)
        for q in parts:
          if q["on"] <= i < q["off"] and not drop:
            if q["hole"] is not None and q["hole"] <= i and (
                (i - q["hole"]) % q["again"] if q["again"] else
                i - q["hole"]) < q["len"]:
              continue
            uniq += 1
            # the same frequency always, or one that drifts and trembles
            f = 200.0 if q["drift"] is None else (
                q["f"] + q["drift"] * i + uniq * 1e-4 + c.choice(
                    (0, 0, 1.3, -2.1)))
            peaks.append((f, q["a"] + q["k"] * i + uniq * 1e-5,
                          0.001 * uniq))
        if drop:
          run.fault("frame-lost")
        if c.prob(0.05) and peaks:
          uniq += 1
          peaks.append((peaks[0][0] + 0.7, peaks[0][1] - 0.3, 0.001 * uniq))
          run.fault("spurious-peak")
        peaks = c.shuffle(peaks) if c.prob(0.2) else sorted(peaks)
        fr, mg, ph = (np.array([x[j] for x in peaks]) for j in range(3))
        ev = c.weighted([(20, None), (2, "observe"), (1, "checkpoint"),
                         (0.2, "reset"), (0.2, "interrupt")])
        if ev == "interrupt":
          # A training run was interrupted in the middle of an update; the
          # tracker is reset for the next one
          left[0] = c.int(1, 60)
          try:
            tr(fr.copy(), mg.copy(), ph.copy())
          except KeyboardInterrupt:
            pass
          left[0] = None
          ev = "reset"
        if ev == "reset":
          run.probe("restarted")
          tr.reset()
          ref = Ref(modal, p)
          same(run, list(tr.all_tracks_), [], "after reset")
        if ev == "checkpoint":
          run.fault("checkpoint-restore")
          tr = pickle.loads(pickle.dumps(tr)) if c.prob(0.5) else \
              copy.deepcopy(tr)
        before = fr.copy(), mg.copy(), ph.copy()
        r = tr(fr, mg, ph)
        run.check(r is tr, "return-value")
        run.check(all(np.array_equal(a, b) for a, b in
                      zip(before, (fr, mg, ph))), "input-modified")
        ref.feed(fr.tolist(), mg.tolist(), ph.tolist())
        run.ev("frame", i, ev, len(fr), tr.n_active_tracks)
        if any(z and z[0] == 200.0 for z in (t["freq"] for t in ref.done)):
          run.probe("constant-frequency")
        run.check(tr.n_active_tracks <= p["max_n_sines"], "too-many-tracks")
        run.check(tr.n_active_tracks == len(ref.act), "active-tracks-differ",
                  lambda: f"{tr.n_active_tracks} vs {len(ref.act)}")
        run.state(tr.n_active_tracks, len(ref.done), ref.merged)
        if ev == "observe":
          run.probe("observed")
          same(run, list(tr.all_tracks_), ref.tracks(), f"at frame {i}")
      sched.tick_hook = None
    got = list(tr.all_tracks_)
    same(run, got, ref.tracks(), "at the end")
    same(run, list(tr.all_tracks_), ref.tracks(), "at the end, again")
    # every peak is used at most once, gaps are all-or-none
    seen = set()
    for t in got:
      n = [len(t[k]) for k in ("freq", "mag", "phase")]
      run.check(len(set(n)) == 1, "ragged-track", str(n))
      nan = [np.isnan(t[k]) for k in ("freq", "mag", "phase")]
      run.check(all(np.array_equal(nan[0], z) for z in nan), "ragged-track")
      for z in t["phase"][~nan[0]]:
        run.check(float(z) not in seen, "peak-used-twice")
        seen.add(float(z))
  except Ambiguous:
    raise core.Discard("ambiguous tie") from None
  run.probe("merged", ref.merged)
  run.probe("rejected", ref.rejected)
  run.probe("capped", ref.capped)
  if got and (ref.merged or ref.rejected or ref.capped):
    run.nontrivial = True
