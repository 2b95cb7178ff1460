"""Objects of the library with operations whose results depend only on how the
object was made and on the operations done on it before: what the checks of
isolation between threads, processes, copies and histories use"""
import numpy as np

from vsim import models, threads


class Subject:
  """One kind of object, with drawn parameters.

  make() returns a new object. ops is a list of (name, function of the object,
  changes) where `changes` tells whether the operation may change the object:
  the others can be done by several threads on a shared object. "anew": it
  voids what earlier operations did, except for those that are marked "keep"
  (settings)"""

  def __init__(self, kind, make, ops):
    self.kind, self.make, self.ops = kind, make, ops

  def do(self, o, k):
    """Operation k on the object: what the user sees"""
    try:
      return {"value": models.frozen(self.ops[k][1](o))}
    except Exception as e:  # pylint: disable=W0718
      return {"raises": type(e).__name__, "text": str(e)[:200]}

  def history(self, ks):
    """What a new object shows when it is used alone"""
    o = self.make()
    return [self.do(o, k) for k in ks]

  def shadow(self):
    """A new object to be used alone, in step with another"""
    return Shadow(self)

  def needed(self, past):
    """What is left of a history when the object starts anew"""
    return [k for k in past if self.ops[k][2] == "keep"]

  def readers(self):
    return [k for k, (_, _, ch) in enumerate(self.ops) if not ch]


class Shadow:
  """What a new object shows that has the history of another one"""

  def __init__(self, subject):
    self.s, self.obj, self.n = subject, subject.make(), 0

  def after(self, past, last):
    """What it shows in the last operations of a history that extends the one
    so far"""
    out = [self.s.do(self.obj, k) for k in past[self.n:]]
    self.n = len(past)
    return out[len(out) - last:]


def _noise(c, n):
  return np.random.default_rng(c.int(0, 999)).normal(size=n) * 0.3


class Refill:
  """An array of the caller that is filled again for each use: one per object
  and thread"""

  def __init__(self):
    self.bufs = {}

  def __call__(self, o, x):
    s = threads.active()
    key = id(o), np.shape(x), id(s.current) if s else None
    if key not in self.bufs:
      self.bufs[key] = np.empty(np.shape(x))
    self.bufs[key][...] = x
    return self.bufs[key]


def model(c):
  make, _ = models.model_params(c, cheap=0.97, quick=3, real=0)
  xs = [models.signal(c, dur=c.choice((0.12, 0.2)))[0] for _ in range(2)]
  t = np.arange(48) / 4000

  def see(m):
    return models.observe(m)

  def seen(m):
    if not hasattr(m, "param_matrix_"):
      raise AttributeError("not trained")
    return m

  def put(m, name, k):
    v = getattr(seen(m), name)
    setattr(m, name, v * k[:v.size])
    return see(m)

  order = c.choice(("energies", "freqs", "amps", "decays"))
  rev, n = c.prob(0.5), c.int(1, 3)
  gain, pitch, slow = (np.random.default_rng(c.int(0, 99)).uniform(
      0.3, 1.1, size=64) for _ in range(3))
  r = Refill()
  ops = [("fit", lambda m, x=x: see(m.fit(x)), "anew") for x in xs]
  ops += [("refit", lambda m, x=x: see(m.fit(r(m, x))), "anew") for x in xs]
  ops *= 2
  ops += [
      ("predict-other", lambda m: seen(m).predict(r(m, t[:48] * 2)), False),
      ("predict-again", lambda m: seen(m).predict(r(m, t[:48] + 0.1)), False),
      ("predict", lambda m: seen(m).predict(t), False),
      ("phases", lambda m: seen(m).predict(t, phases="random", seed=5), False),
      ("sdt", lambda m: seen(m).sdt_params_(), False),
      ("tracks", lambda m: [dict(u) for u in seen(m).sinusoidal.tracks_],
       False),
      ("energies", lambda m: seen(m).energies_, False),
      ("some-modes", lambda m: seen(m).predict(
          t, n_modes=n, order=order, reverse=rev), False),
      ("one-mode", lambda m: seen(m).predict(t, n_modes=1), False),
      ("all-modes", lambda m: seen(m).predict(t, n_modes=99), False),
      ("sdt-order", lambda m: seen(m).sdt_params_(order, reverse=rev), False),
      ("order", lambda m: [seen(m).mode_argsort_(order, reverse=r)
                           for r in (rev, not rev)], False),
      ("fade", lambda m: put(m, "amps_", gain), True),
      ("transpose", lambda m: put(m, "freqs_", pitch), True),
      ("damp", lambda m: put(m, "decays_", slow), True),
      ("most", lambda m: m.set_params(max_n_modes=n) and None, "keep"),
      ("any", lambda m: m.set_params(max_n_modes=None) and None, "keep"),
  ]
  return Subject("model", make, ops)


def tracker(c):
  from sample.sms import mm, sm
  modal = c.prob(0.6)
  kw = dict(fs=1000, h=c.choice((10, 25)), max_n_sines=c.choice((3, 8)),
            min_sine_dur=c.choice((0.02, 0.05)),
            freq_dev_offset=c.choice((10, 30)))
  if modal:
    kw.update(reverse=c.prob(0.4), peak_threshold=-80,
              merge_strategy=c.choice(("average", "single")))
  rng = np.random.default_rng(c.int(0, 9999))
  base = rng.uniform(50, 450, size=3)

  def burst(k):
    r = np.random.default_rng(k)

    def feed(o):
      for j in range(6):
        f = base + r.normal(size=3)
        on = r.random(3) < 0.85
        o(f[on], (-20 - j - 6.0 * np.arange(3))[on], np.zeros(3)[on])
      return o.n_active_tracks

    return feed

  def make():
    o = (mm.ModalTracker if modal else sm.SineTracker)(**kw)
    o.reset()
    return o

  # the random stream of a burst starts again whenever the operation is done
  ops = [("feed", lambda o, k=k: burst(k)(o), True) for k in range(3)]
  ops += [("tracks", lambda o: [dict(t) for t in o.all_tracks_], False),
          ("reset", lambda o: o.reset() and None, "anew")]
  return Subject("tracker", make, ops)


def sinusoidal(c):
  from sample.sms import mm, sm
  modal = c.prob(0.6)
  n, w, h = c.choice((128, 256)), c.choice((65, 101)), c.choice((32, 50))
  save, pad = c.prob(0.5), c.prob(0.4)
  wt = c.choice((np.hamming, np.blackman))
  xs = [models.signal(c, dur=0.12)[0] for _ in range(2)]

  def make():
    tr = (mm.ModalTracker if modal else sm.SineTracker)(fs=4000, h=h,
                                                        min_sine_dur=0.02)
    m = (mm.ModalModel if modal else sm.SinusoidalModel)(
        n=n, tracker=tr, padded=pad, intermediate__save=save)
    m.set_params(w=wt(w))
    return m

  def see(m):
    return {"tracks": m.tracks_, "state": m.intermediate.get_state()}

  r = Refill()
  ops = [("fit", lambda m, x=x: see(m.fit(x)), "anew") for x in xs]
  ops += [("refit", lambda m, x=x: see(m.fit(r(m, x))), "anew") for x in xs]
  ops += [("frames", lambda m: len(m.time_frames(xs[0])), False),
          ("window", lambda m: m.w, False)]
  return Subject("sinusoidal", make, ops)


def generator(c):
  from sample.evaluation import random
  kw = dict(seed=c.int(0, 99), onlybeat=c.prob(0.3),
            snr=c.choice((45, 20)), f_max=c.choice((2000, 1000)))

  def put(g, name, v):
    setattr(g, name, v)
    return getattr(g, name)

  ops = [
      ("audio", lambda g: g.audio(dur=0.02, fs=1000), True),
      ("audio-2", lambda g: g.audio(dur=0.01, fs=2000, size=2), True),
      ("freqs", lambda g: g.freqs(), True),
      ("decays", lambda g: g.decays(size=2), True),
      ("amps", lambda g: g.amps(), True),
      ("noise", lambda g: g.noise(nsamples=9), True),
      ("beta", lambda g: g.beta_twosides(a=2, b=3, size=3), True),
      ("levels", lambda g: (g.snr_amp, g.noise_amp, g.sine_amp), False),
      ("quieter", lambda g: put(g, "snr", 10), True),
      ("beat-only", lambda g: put(g, "onlybeat", True), True),
      ("longer", lambda g: put(g, "decay_min", 2), True),
  ]
  return Subject("generator", lambda: random.BeatsGenerator(**kw), ops)


def filterbank(c):
  from sample import psycho
  n = c.int(2, 4)
  r = Refill()
  lim = (c.choice((60, 150)), c.choice((900, 1500)))
  x, y = _noise(c, 90), _noise(c, c.choice((40, 130)))
  an = c.choice((None, "ir", "output", "input"))
  stride = c.choice((None, 7)) if an != "input" else None
  ops = [
      ("convolve", lambda b: b.convolve(x, fs=4000, analytic=an,
                                        stride=stride), False),
      ("convolve-other", lambda b: b.convolve(y, fs=4000, analytic=an,
                                              stride=stride), False),
      ("convolve-rate", lambda b: b.convolve(x, fs=5000, analytic=an), False),
      ("refill", lambda b: b.convolve(r(b, x), fs=4000, analytic=an), False),
      ("refill-other", lambda b: b.convolve(r(b, x[::-1]), fs=4000,
                                            analytic=an), False),
      ("freqs", lambda b: b.f, False),
      ("bandwidth", lambda b: b.bandwidth, False),
      ("items", lambda b: (len(b), b[0].f, [f.t_c for f in b]), False),
      ("irs", lambda b: list(b.precompute(4000, analytic=True).irs), False),
      ("unknown", lambda b: hasattr(b, "no_such_thing"), False),
  ]
  return Subject("filterbank", lambda: psycho.GammatoneFilterbank(
      n_filters=n, flim=lim), ops)


def wide(g):
  return g.f / 7


def early(g):
  return g.raw_group_delay / 2


def loud(g):
  return g.f / 100


def gammatone(c):
  """One filter, whose parameters can be changed"""
  from sample import psycho
  kw = dict(f=c.choice((200, 500)), n=c.choice((3, 4)),
            normalize=c.prob(0.5), a=c.choice((None, 0.5)),
            bandwidth=c.choice((None, 60.0, wide)),
            t_c=c.choice((None, 0, early)))
  t = np.linspace(-0.005, 0.02, 40)

  def put(g, name, v):
    setattr(g, name, v)
    return getattr(g, name)

  ops = [
      ("decay", lambda g: (g.t60(), g.t60(floor=-30), g.ir_size(4000)), False),
      ("times", lambda g: (g.group_delay, g.raw_group_delay, g.t_c), False),
      ("shape", lambda g: (g.bandwidth, g.phi, g.a), False),
      ("ir", lambda g: g.ir(fs=4000), False),
      ("ir-analytic", lambda g: g.ir(fs=4000, analytic=True), False),
      ("ir-at", lambda g: g.ir(t), False),
      ("ir-nowhere", lambda g: g.ir(), False),
      ("wave", lambda g: [g.wavefun(t, analytic=v) for v in (False, True)],
       False),
      ("envelope", lambda g: g.envelope(t), False),
      ("short-search", lambda g: g.t60(steps=2), False),
      ("order", lambda g: put(g, "n", 2), True),
      ("tune", lambda g: put(g, "f", 330), True),
      ("narrow", lambda g: put(g, "bandwidth", 45), True),
      ("erb", lambda g: put(g, "bandwidth", None), True),
      ("delay", lambda g: put(g, "group_delay", 0.001), True),
      ("scale", lambda g: put(g, "a", loud), True),
      ("norm", lambda g: put(g, "normalize", True), True),
      ("phase", lambda g: put(g, "phi", 0.3), True),
  ]
  return Subject("gammatone", lambda: psycho.GammatoneFilter(**kw), ops)


def irs(c):
  from sample import psycho
  n = c.int(2, 4)
  an = c.prob(0.5)
  norm = c.prob(0.5)
  x, y = _noise(c, 90), _noise(c, 140)
  z = _noise(c, c.choice((30, 90)))
  stride = c.choice((5, 16))
  r = Refill()
  ops = [
      ("convolve", lambda b: b.convolve(x), False),
      ("strided", lambda b: b.convolve(y, stride=stride), False),
      ("strided-other", lambda b: b.convolve(z, stride=stride), False),
      ("strided-wider", lambda b: b.convolve(x, stride=stride + 3), False),
      ("single", lambda b: b.convolve(x.astype(np.float32)), False),
      ("direct", lambda b: b.convolve(x, method="direct"), False),
      ("refill", lambda b: b.convolve(r(b, x), stride=stride), False),
      ("refill-other", lambda b: b.convolve(r(b, x[::-1]), stride=stride),
       False),
      ("cochleagram", lambda b: psycho.cochleagram(y, filterbank=b), False),
      ("size", len, False),
      ("bad", lambda b: b.convolve(x, stride=stride, method="fft"), False),
  ]
  return Subject("irs", lambda: psycho.GammatoneFilterbank(
      n_filters=n, flim=(100, 1500), normalize=norm).precompute(
          4000, analytic=an), ops)


def loss(c):
  import functools

  from sample.evaluation import metrics
  from sample.utils import dsp
  x, y, z = (_noise(c, 160) for _ in range(3))
  if c.prob(0.5):
    post = c.prob(0.5)
    stride, p = c.choice((None, 9)), c.choice((1, 2))

    def make():
      kw = {}
      if post:
        kw["postprocessing"] = functools.partial(dsp.complex2db, floor=-60,
                                                 floor_db=True)
      return metrics.CochleagramLoss(4000, n_filters=3, flim=(100, 1500),
                                     stride=stride, p=p, **kw)
  else:
    stfts = [{"n": n} for n in (16, 32, 64)[:c.int(1, 3)]]

    def make():
      return metrics.MultiScaleSpectralLoss(metrics.lin_log_spectral_loss,
                                            [dict(s) for s in stfts])

  u, v = x[:110], z[:110] * 0.5
  r, q = Refill(), Refill()
  ops = [("refill", lambda f: f(r(f, x), q(f, y)), False),
         ("refill-other", lambda f: f(r(f, x), q(f, z)), False),
         ("refill-third", lambda f: f(r(f, z), q(f, y)), False),
         ("xy", lambda f: f(x, y), False), ("uv", lambda f: f(u, v), False),
         ("yz", lambda f: f(y, z), False),
         ("xx", lambda f: f(x, x), False)]
  return Subject("loss", make, ops)


def beat(c):
  from sample import beatsdrop
  t = np.arange(40) / 500
  u = np.arange(64) / 800
  if c.prob(0.5):
    a = [c.real(0.2, 1.0, 16) for _ in range(2)]
    f = [c.real(50, 90, 16) for _ in range(2)]
    d = [c.real(0.1, 0.9, 16) for _ in range(2)]

    def make():
      return beatsdrop.ModalBeat(a0=a[0], a1=a[1], f0=f[0], f1=f[1], d0=d[0],
                                 d1=d[1], p0=0.3, p1=1.0)
  else:
    a = [c.real(0.2, 1.0, 16) for _ in range(2)]
    f = [c.real(50, 90, 16) for _ in range(2)]

    def make():
      return beatsdrop.Beat(a0=a[0], a1=a[1], f0=f[0], f1=f[1])

  r = Refill()
  ops = [
      ("refill", lambda b: b.compute(r(b, t), ["x", "fm"]), False),
      ("refill-other", lambda b: b.compute(r(b, t + 0.02), ["x", "fm"]),
       False),
      ("x", lambda b: b.compute(t, "x"), False),
      ("am-fm", lambda b: b.compute(u, ["am", "fm"]), False),
      ("fm-later", lambda b: b.compute(t + 0.03, ["fm", "am"]), False),
      ("am-fm-later", lambda b: b.compute(u + 0.05, ["am", "fm"]), False),
      ("attribute", lambda b: b.am(t), False),
      ("names", lambda b: sorted(b.variables), False),
      ("unknown", lambda b: b.no_such_thing, False),
      ("has", lambda b: (hasattr(b, "fm"), hasattr(b, "zz")), False),
  ]
  return Subject("beat", make, ops)


def regression(c):
  from sample import beatsdrop, hinge
  from sample.beatsdrop import regression as reg
  t = np.arange(60) / 100
  kind = c.choice(("hinge", "beat", "dual"))
  if kind == "hinge":
    ys = [-40 * np.minimum(t, c.real(0.2, 0.5, 8)) + c.real(-9, 0, 8) +
          _noise(c, 60) * 0.1 for _ in range(2)]
    ops = [("fit", lambda r, y=y: (r.fit(t.reshape(-1, 1), y), r.coeffs_)[1],
            "anew") for y in ys]
    ops += [("predict", lambda r: r.predict(t.reshape(-1, 1)), False),
            ("line", lambda r: (r.a_, r.k_, r.q_), False),
            ("params", lambda r: r.linear_regressor.coef_, False)]
    return Subject("hinge", hinge.HingeRegression, ops)
  tracks = []
  times = [t, t if c.prob(0.5) else t[:50], t * c.choice((0.5, 2))]
  for _ in range(c.int(2, 3)):
    b = beatsdrop.ModalBeat(a0=c.real(0.3, 1.0, 8), a1=0.4, f0=c.real(
        60, 64, 8), f1=c.choice((66, 58)), d0=0.5, d1=0.4, p0=0, p1=1.0)
    u = c.choice(times)
    am, fm = b.compute(u, ["am", "fm"])
    if c.prob(0.2):  # some trackers give negative frequencies
      fm = np.negative(fm)
    tracks.append((u, 20 * np.log10(np.maximum(am, 1e-6)), fm))
  cls = reg.BeatRegression if kind == "beat" else reg.DualBeatRegression
  kw = {"disambiguate": c.prob(0.8)} if kind == "dual" else {}
  nfev = c.choice((2, 2, 2, 8))

  def fit(r, u, a, f):
    r.fit(u, a, f, max_nfev=nfev)
    return r.params_, r.initial_params_, r.bounds_

  ops = [("fit", lambda r, x=x: fit(r, *x), "anew") for x in tracks]
  ops += [("rate", lambda r, fs=fs: r.set_params(fs=fs) and None, "keep")
          for fs in (50, 200)]
  ops += [("predict", lambda r: r.predict(t, "am", "fm"), False),
          ("params", lambda r: (r.k_, r.q_), False),
          ("params", lambda r: (r.params_, r.initial_params_), False)]
  return Subject(kind, lambda: cls(**kw), ops)


def storage(c):
  from sample.utils import learn
  save = c.prob(0.8)
  v = _noise(c, 4)
  ops = [
      ("append", lambda s: (s.append("a", v), None)[1], True),
      ("append-b", lambda s: (s.append("b", [1]), None)[1], True),
      ("at", lambda s: (s.append("a", 7, index=2), None)[1], True),
      ("reset", lambda s: s.reset() and None, "anew"),
      ("off", lambda s: s.set_params(save=False) and None, "keep"),
      ("on", lambda s: s.set_params(save=True) and None, "keep"),
      ("state", lambda s: s.get_state(), False),
      ("item", lambda s: s["a"], False),
  ]
  return Subject("storage", lambda: learn.OptionalStorage(save=save), ops)


def tuning(c):
  """The loss of a hyperparameter search at given points"""
  import sample
  from sample import optimize
  from sample.evaluation import metrics
  xs = [models.signal(c, dur=0.12)[0] for _ in range(2)]
  reverse = c.prob(0.5)
  pts = [(c.int(7, 8), c.choice((0.02, 0.04))) for _ in range(2)]

  def make():
    return optimize.SAMPLEOptimizer(
        model=sample.SAMPLE(regressor=models.LineRegression(),
                            sinusoidal__tracker__reverse=reverse,
                            sinusoidal__tracker__max_n_sines=4),
        loss_fn=SoundLoss(), sinusoidal__log_n=(6, 9),
        sinusoidal__tracker__min_sine_dur=(0.0, 0.1))

  r = Refill()
  ops = [("refill", lambda o, x=x: o.loss(r(o, x), 4000)(pts[0]), False)
         for x in xs]
  ops += [("loss", lambda o, x=x, p=p: o.loss(x, 4000)(p), False)
         for x, p in zip(xs, pts)]
  ops += [("params", lambda o: {k: str(type(v)) for k, v in
                                o.model.get_params().items()}, False),
          ("bad", lambda o: o.loss(xs[0], 4000)(), False)]
  return Subject("tuning", make, ops)


class SoundLoss:
  """A loss that does not depend on the phases of the resynthesis"""

  def __call__(self, x, y):
    return float(np.sum(x**2)) + np.size(y)


def functions(c):
  """Functions without an object"""
  from sample import psycho, sample
  from sample.sms import dsp as smsdsp
  from sample.utils import dsp
  x, y = _noise(c, 220), _noise(c, 150)
  t = np.cumsum(np.abs(_noise(c, 40))) + 0.01
  f = np.abs(_noise(c, 30)) * 900 + 50
  r = Refill()
  ops = [
      ("refill", lambda o: (dsp.onset_detection(r(o, x), nperseg=16),
                            psycho.hz2bark(r(o, f))), False),
      ("refill-other", lambda o: (dsp.onset_detection(
          r(o, x[::-1]), nperseg=16), psycho.hz2bark(r(o, f * 2))), False),
      ("mel", lambda o: psycho.mel_spectrogram(
          x, stft_kws={"fs": 4000, "nperseg": 64}, n_filters=4), False),
      ("onsets", lambda o: dsp.onset_detection(x, nperseg=16), False),
      ("lomb", lambda o: dsp.lombscargle_autocorrelogram(t, y[:40],
                                                         nfft=64), False),
      ("bark", lambda o: [psycho.bark2hz(psycho.hz2bark(f, mode=m), mode=m)
                          for m in ("traunmuller", "wang")], False),
      ("cams", lambda o: (psycho.hz2cams(f), psycho.hz2mel(f), psycho.erb(f),
                          psycho.a_weighting(f)), False),
      ("db", lambda o: (dsp.a2db(np.abs(y), floor=-60, floor_db=True),
                        dsp.db2a(y), dsp.complex2db(y + 1j)), False),
      ("detrend", lambda o: dsp.detrend(y), False),
      ("detrend-other", lambda o: dsp.detrend(x), False),
      ("onsets-other", lambda o: dsp.onset_detection(x[:200], nperseg=32),
       False),
      ("mel-other", lambda o: psycho.mel_spectrogram(
          x, stft_kws={"fs": 8000, "nperseg": 64}, n_filters=4), False),
      ("mel-wider", lambda o: psycho.mel_spectrogram(
          x, stft_kws={"fs": 4000, "nperseg": 32}, n_filters=4), False),
      ("cam-erb", lambda o: (psycho.cams2hz(psycho.hz2cams(
          f, degree="linear"), degree="linear"), psycho.erb(f, degree="linear"),
                            psycho.hz2bark(f, mode="zwicker")), False),
      ("norm", lambda o: [dsp.normalize(x, mode=m) for m in ("rms", "range")],
       False),
      ("hwr", lambda o: (psycho.hwr(x), psycho.hwr(y, th=0.1)), False),
      ("maxima", lambda o: (dsp.local_maxima(x, w=3), dsp.local_maxima(y)),
       False),
      ("flux", lambda o: dsp.spectral_flux(x, nperseg=32), False),
      ("selection", lambda o: dsp.onset_selection(np.abs(y)), False),
      ("dft", lambda o: smsdsp.dft(x[:64], np.hamming(64), 128), False),
      ("dft-odd", lambda o: smsdsp.dft(y[:33], np.hamming(33), 128), False),
      ("peaks", lambda o: smsdsp.peak_detect_interp(x, np.cumsum(x), t=0),
       False),
      ("expi", lambda o: (dsp.expi(y), dsp.expi(x[:9])), False),
      ("corr", lambda o: dsp.fft2autocorrelogram(np.fft.rfft(x)), False),
      ("synth", lambda o: sample.additive_synth(
          np.arange(50) / 999, freqs=f[:3], amps=np.abs(y[:3]),
          decays=t[:3], phases=x[:3]), False),
      ("complex", lambda o: dsp.strided_convolution_complex_kernel(
          x, y[:11] + 1j * y[11:22], stride=4), False),
      ("conv", lambda o: dsp.strided_convolution(x, y[:11], stride=4), False),
  ]
  return Subject("functions", lambda: None, ops)


def more(c):
  """Other functions without an object"""
  from sample import hinge, psycho, sample
  from sample.evaluation import metrics
  from sample.sms import dsp as smsdsp
  from sample.utils import dsp
  x, y = _noise(c, 96), _noise(c, 96)
  t = np.cumsum(np.abs(_noise(c, 30))) + 0.01
  a, d = np.abs(_noise(c, 7)), np.abs(_noise(c, 7)) + 0.1
  p = c.choice((1, 2, 3))
  n = c.choice((16, 32))
  tf = np.abs(x.reshape((8, -1))) + 1j * y.reshape((8, -1))
  axis = np.linspace(0, 2000, 33)
  bank, _ = psycho.mel_triangular_filterbank(axis, n_filters=3)
  spec = np.outer(np.abs(x[:33]), y[:5])
  r, q = Refill(), Refill()
  ops = [
      ("distance", lambda o: metrics.lp_distance(x, y, p=p), False),
      ("distance-refill", lambda o: metrics.lp_distance(r(o, x), q(o, y), p=p),
       False),
      ("distance-other", lambda o: metrics.lp_distance(
          r(o, y), q(o, x[::-1]), p=p), False),
      ("spectral", lambda o: metrics.lin_log_spectral_loss(
          x, y, n=n, norm_p=p), False),
      ("spectral-window", lambda o: metrics.lin_log_spectral_loss(
          x, y, n=n, w=np.hanning(n), floor_db=-30, alpha=0.5), False),
      ("spectral-other", lambda o: metrics.lin_log_spectral_loss(
          r(o, y), q(o, x * 0.5), n=n, wtype="blackman"), False),
      ("multi", lambda o: metrics.multiscale_spectral_loss(
          x, y, stfts=[{"n": n}, {"n": 8}]), False),
      ("energy", lambda o: sample.modal_energy(a, d), False),
      ("bins", lambda o: (dsp.f2bin(d, 64, fs=3), dsp.bin2f(
          np.arange(9), 64, fs=3)), False),
      ("lomb", lambda o: dsp.lombscargle_as_fft(
          t, x[:30], 32, fs=4, hpf=0.3, lpf=1.5), False),
      ("lomb-refill", lambda o: dsp.lombscargle_as_fft(
          r(o, t), q(o, y[:30]), 64, fs=4), False),
      ("windows", lambda o: np.array(dsp.overlapping_windows(x, 16, 5)), False),
      ("view", lambda o: dsp.overlapping_windows(y, 8).flags.writeable, False),
      ("flux", lambda o: dsp.spectral_flux_from_tf(tf), False),
      ("zero", lambda o: dsp.dychotomic_zero_crossing(
          lambda v: v**3 - a[0], 0, 2, steps=20), False),
      ("zero-less", lambda o: dsp.dychotomic_zero_crossing(
          lambda v: a[1] - v, 2, 0, steps=9), False),
      ("no-zero", lambda o: dsp.dychotomic_zero_crossing(
          lambda v: v + 3, 0, 1), False),
      ("hinge", lambda o: hinge.hinge_function(x, *a[:3]), False),
      ("mel-bank", lambda o: psycho.mel_triangular_filterbank(
          axis, n_filters=4, flim=(100, 1800)), False),
      ("mel-erb", lambda o: psycho.mel_triangular_filterbank(
          axis, bandwidth=psycho.erb, flim=(200, 500, 900)), False),
      ("mel-few", lambda o: psycho.mel_triangular_filterbank(
          axis, flim=(200, 500)), False),
      ("mel", lambda o: psycho.stft2mel(spec, axis, n_filters=3, power=p)[0],
       False),
      ("mel-with", lambda o: psycho.stft2mel(spec, axis, filterbank=bank),
       False),
      ("mel-complex", lambda o: psycho.stft2mel(spec, axis, filterbank=bank,
                                                power=None), False),
      ("peaks", lambda o: smsdsp.peak_refine(smsdsp.peak_detect(x), x), False),
      ("peaks-over", lambda o: smsdsp.peak_detect(y, t=0.1), False),
      ("detrend", lambda o: dsp.detrend(y[:30], t), False),
      ("detrend-with", lambda o: dsp.detrend(
          x[:30], t, model=hinge.HingeRegression()), False),
      ("detrend-bad", lambda o: dsp.detrend(tf.real), False),
      ("corr", lambda o: (dsp.fft2autocorrelogram(tf[0], real=False),
                          dsp.fft2autocorrelogram(a, power=True, n=9)), False),
      ("maxima-key", lambda o: dsp.local_maxima(x, w=2, key=y), False),
      ("onsets", lambda o: dsp.onset_selection(x, w=2, m=4, alpha=0.3,
                                               delta=0.1), False),
  ]
  return Subject("more", lambda: None, ops)


def _seen_figure(fig):
  """What the user sees in a figure"""
  out = []
  for ax in fig.axes:
    lines = [[np.asarray(d, dtype=float) for d in
              (u.get_data_3d() if hasattr(u, "get_data_3d") else u.get_data())]
             + [u.get_linestyle(), str(u.get_label())] for u in ax.lines]
    out.append({
        "lines": lines,
        "images": [[np.ma.filled(im.get_array(), np.nan),
                    list(im.get_extent())] for im in ax.images],
        "text": [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()],
        "limits": [list(ax.get_xlim()), list(ax.get_ylim())],
    })
  return out


class _Html:
  """What IPython would display"""

  def __init__(self):
    self.shown = []

  def display(self, *objs, **kw):
    self.shown.append([[type(o).__name__, str(o.data)] for o in objs] +
                      [sorted(kw.items())])


def plots(c):
  """The figures and displays of a trained model"""
  from matplotlib import figure
  from scipy import signal
  from sample import ipython as ipy
  from sample import plots as plt
  from sample.beatsdrop import regression as reg
  make0, _ = models.model_params(c, cheap=1, quick=0, real=0)
  xs = [models.signal(c, dur=0.12)[0] for _ in range(2)]
  x = xs[0]
  size = c.choice((200, 300))
  kws = {"wav": {"lw": 2}, "tf": {"cmap": "gray"}, "sub": {"sharey": False},
         "html": {"metadata": {"a": 1}}, "audio": {"rate": 4000}}
  nperseg = c.choice((32, 64))

  def stft(x, **kws):
    f, _, s = signal.stft(x, nperseg=nperseg, **kws)
    return f[[0, -1]], s

  def make():
    m = make0()
    m.fit(x)
    return m

  def fig(f):
    g = figure.Figure()
    f(g)
    return _seen_figure(g)

  def two(m, g):
    plt.sine_tracking_2d(m, ax=g.subplots(1, 2, sharex=True))

  def sound(m, g, **kw):
    plt.resynthesis(x[:size], {"m": m}, fig=g, tf_fun=stft, **kw)

  def each(m):
    h = _Html()
    old = ipy.ipd.display
    ipy.ipd.display = h.display
    try:
      f = ipy.LabelAndPlayForeach(kws["html"], kws["audio"])
      f(0, "m", m.predict(np.arange(30) / 4000) * 2)
      f(1)
      f(k="n", y=xs[1][:20])
    finally:
      ipy.ipd.display = old
    return h.shown

  def seen(m):
    return [models.observe(m), [dict(u) for u in m.sinusoidal.tracks_]]

  def compare(m, g):
    tracks = m.sinusoidal.tracks_
    i = max(range(len(tracks)), key=lambda j: tracks[j]["freq"].size)
    plt.beatsdrop_comparison(
        m, {"a": beats[0], "b": beats[1]}, x, track_i=i, fig=g,
        signal_hilbert_am=am)

  am = c.choice((False, True, 5))
  beats = [models.QuickBeat(), models.QuickBeat()]
  ops = [
      ("fit", lambda m: seen(m.fit(xs[0])), True),
      ("fit-other", lambda m: seen(m.fit(xs[1])), True),
      ("tracks", seen, False),
      ("2d", lambda m: fig(lambda g: two(m, g)), False),
      ("2d-model", lambda m: fig(lambda g: two(m.sinusoidal, g)), False),
      ("3d", lambda m: fig(lambda g: plt.sine_tracking_3d(
          m, g.add_subplot(projection="3d"))), False),
      ("sound", lambda m: fig(lambda g: sound(m, g)), False),
      ("sound-only", lambda m: fig(lambda g: sound(
          m, g, original=False, wav_kws=kws["wav"], tf_kws=kws["tf"],
          db_floor=-60, **kws["sub"])), False),
      ("compare", lambda m: fig(lambda g: compare(m, g)), False),
      ("tf", lambda m: fig(lambda g: plt.tf_plot(
          np.outer(xs[0][:9], xs[1][:7]), (0, 2), (5, 9), ax=g.subplots(),
          **kws["tf"])), False),
      ("foreach", each, False),
      ("params", lambda m: ipy.CollapsibleModelParams(m).data, False),
      ("audio", lambda m: ipy.WebAudio(m.predict(np.arange(9) / 4000),
                                       4000).data, False),
  ]
  return Subject("plots", make, ops)


ALL = (model, tracker, generator, filterbank, irs, loss, beat, regression,
       storage, sinusoidal, tuning, functions, more, gammatone)
# Matplotlib is for one thread
ONE_THREAD = ALL + (plots,)


def draw(c, kinds=ALL):
  return c.choice(kinds)(c)
