"""Workload generation: small modal signals and small SAMPLE models"""
import functools
from multiprocessing import managers

import numpy as np
import sample
import sample.beatsdrop.regression
import sample.beatsdrop.sample
import sample.sample
import sample.utils.learn
from sample import hinge
from sample.beatsdrop import decision
from sample.sms import mm, sm
from vsim import core


class MeanBeat(sample.beatsdrop.regression.BeatRegression):
  """Cheap deterministic stand-in for the beat regressor"""

  def fit(self, t, a, f=None, **kwargs):
    m = float(np.mean(a))
    g = float(np.mean(f)) if f is not None else 100.0
    beat = int(np.size(a)) % 2
    self.params_ = (abs(m) / 100, abs(m) / 200 * beat, g, g + 3 * beat, 0.1,
                    0.2, 0.0, 1.0)
    return self


class QuickBeat(sample.beatsdrop.regression.DualBeatRegression):
  """The real beat regressor with few solver iterations"""

  def fit(self, t, a, f, **kwargs):
    return super().fit(t, a, f, max_nfev=3, **kwargs)


class LineRegression(hinge.HingeRegression):
  """Cheap deterministic stand-in for the hinge regressor"""

  def fit(self, x, y, **kwargs):
    x = np.ravel(x)
    k, q = np.polyfit(x, y, 1)
    self.coeffs_ = (float(x[-1]), float(k), float(q))
    return self


def signal(c, fs=4000, n_modes=None, dur=None):
  """Seeded modal sound: decaying partials, optional noise, silence gaps"""
  dur = dur or c.choice((0.2, 0.3, 0.45))
  n = int(fs * dur)
  t = np.arange(n) / fs
  n_modes = c.int(1, 5) if n_modes is None else n_modes
  x = np.zeros(n)
  used = []
  for k in range(n_modes):
    f = c.real(120, fs * 0.42, 64)
    d = c.real(0.05, 0.6, 32)
    a = c.real(0.05, 1.0, 32)
    used.append((round(f, 1), round(d, 3), round(a, 3)))
    m = a * np.cos(2 * np.pi * f * t + k) * np.exp(-2 * t / d)
    if c.prob(0.2):  # beating partial
      m = m + a * 0.7 * np.cos(2 * np.pi * (f + 12) * t) * np.exp(-2 * t / d)
    x += m
  kind = c.weighted([(6, "clean"), (2, "noise"), (1, "gap"), (0.4, "silence"),
                     (0.4, "spike")])
  if kind == "noise":
    x += 10.0**-c.int(1, 4) * np.random.default_rng(c.int(0, 999)).normal(
        size=n)
  elif kind == "gap":
    x[n // 3:n // 3 + n // 8] = 0
  elif kind == "silence":
    x[:] = 0
  elif kind == "spike":
    x[:] = 0
    x[n // 2] = 1.0
  return x, {"fs": fs, "n": n, "kind": kind, "modes": used}


def model_params(c, fs=4000, cheap=0.7, kinds=("plain", "beats"), quick=14,
                 real=1):
  """Returns (factory, description). `quick`: weight of the real beat
  regressor with few iterations; `real`: with all of them"""
  beats = c.choice(kinds) == "beats"
  n = c.choice((256, 512))
  w = c.choice((129, 201, 251))
  h = c.choice((40, 64, 100))
  kw = dict(sinusoidal__n=n,
            sinusoidal__tracker__fs=fs,
            sinusoidal__tracker__h=h,
            sinusoidal__t=c.choice((-90, -60)),
            sinusoidal__tracker__max_n_sines=c.choice((20, 5, 60)),
            sinusoidal__tracker__min_sine_dur=c.choice((0.04, 0.02, 0.1)),
            sinusoidal__tracker__peak_threshold=c.choice((-90, -40)),
            sinusoidal__tracker__reverse=c.prob(0.3),
            sinusoidal__tracker__merge_strategy=c.choice(
                ("average", "single")),
            sinusoidal__tracker__strip_t=c.choice((None, None, 0.1)),
            sinusoidal__tracker__freq_dev_offset=c.choice((20, 8)),
            sinusoidal__padded=c.prob(0.3),
            sinusoidal__intermediate__save=c.prob(0.5),
            max_n_modes=c.choice((None, 3)))
  mk_reg = not c.prob(1 - cheap)
  mk_beat = c.weighted([(85, MeanBeat), (quick, QuickBeat), (real, None)])
  model_kind = c.weighted([(5, "modal"), (1, "sine")])
  if model_kind == "sine":
    for k in ("peak_threshold", "reverse", "merge_strategy", "strip_t"):
      kw.pop(f"sinusoidal__tracker__{k}")
  if beats:
    kw["beat_decisor__intermediate__save"] = c.prob(0.7)
  dec = c.choice(("notalmost", "never"))

  def make():
    a = {}
    if mk_reg:
      a["regressor"] = LineRegression()
    if model_kind == "sine":
      a["sinusoidal"] = sm.SinusoidalModel()
    if beats:
      if mk_beat is not None:
        a["beatsdrop"] = mk_beat()
      a["beat_decisor"] = (decision.AlmostNotABeatDecisor()
                           if dec == "notalmost" else decision.BeatDecisor())
      cls = sample.beatsdrop.sample.SAMPLEBeatsDROP
    else:
      cls = sample.SAMPLE
    m = cls(**a, **kw)
    m.set_params(sinusoidal__w=np.hamming(w))
    return m

  desc = dict(kw, beats=beats, cheap_regressor=mk_reg, w=w,
              sinusoidal=model_kind)
  return make, desc


def plain(o):
  """Canonical comparable form of nested results"""
  if isinstance(o, dict):
    return {k: plain(v) for k, v in sorted(o.items())}
  if isinstance(o, (list, tuple)):
    return [plain(v) for v in o]
  if isinstance(o, np.ndarray):
    return ("array", str(o.dtype), o.shape, o.tobytes())
  if isinstance(o, (np.floating, np.integer, np.bool_)):
    return o.item()
  return o


def frozen(o):
  """A copy of nested results that later changes cannot reach"""
  if isinstance(o, dict):
    return {k: frozen(v) for k, v in o.items()}
  if isinstance(o, (list, tuple)):
    return [frozen(v) for v in o]
  if isinstance(o, np.ndarray):
    return o.copy()
  return o


def close(a, b, rtol=1e-9, atol=1e-12):
  """Structural comparison, floats within tolerance, NaN equal"""
  if isinstance(a, dict):
    return isinstance(b, dict) and a.keys() == b.keys() and all(
        close(a[k], b[k], rtol, atol) for k in a)
  if isinstance(a, (list, tuple)):
    return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
        close(x, y, rtol, atol) for x, y in zip(a, b))
  if a is None or b is None or isinstance(a, str):
    return a is b or a == b
  a, b = np.asarray(a), np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype == object or b.dtype == object:
    return all(close(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel()))
  return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def reading(f):
  """The results of a model are its own: reading them cannot fail because
  another process is gone"""

  @functools.wraps(f)
  def g(*a, **k):
    try:
      return f(*a, **k)
    except (OSError, EOFError, managers.RemoteError) as e:
      raise core.Violation("model-unreadable",
                           f"{type(e).__name__}: {e}") from e

  return g


@reading
def params(m):
  return m.get_params(deep=True)


@reading
def observe(m):
  """Everything a user can see of a fitted model"""
  o = {"param_matrix": np.array(m.param_matrix_),
       "freqs": np.array(m.freqs_), "decays": np.array(m.decays_),
       "amps": np.array(m.amps_),
       "tracks": [{k: np.array(v) for k, v in t.items()}
                  for t in m.sinusoidal.tracks_]}
  st = m.sinusoidal.intermediate.get_state()
  o["intermediate"] = st
  if hasattr(m, "beat_decisor"):
    o["decisions"] = m.beat_decisor.intermediate.get_state()
  return o


def diff(a, b):
  """First difference between two observations"""
  if "raises" in a or "raises" in b:
    return None if a == b else f"{list(a.items())[:1]} != {list(b.items())[:1]}"
  for k in a:
    if k not in b:
      return f"{k} missing"
    if not close(a[k], b[k]):
      return f"{k}: {str(a[k])[:300]} != {str(b[k])[:300]}"
  return None
