"""Seeded random sounds and phases are reproducible, whatever else runs"""
import random as pyrandom

import numpy as np

from vsim import core, models, threads

CONFIG = {"runs": 6000, "wall": 32, "thorough_wall": 600, "run_limit": 40,
          "must_probe": ("sequence", "shared-rng", "phases", "unseeded",
                         "other-randomness", "threads", "from-state", "parameters-set")}
RULE = ("seeded histories of draws from generators of random sounds (own "
        "seed, seed 0, a random source given by the caller and possibly "
        "shared, no seed) and of resyntheses with random phases, interleaved "
        "with each other, with other users of random numbers and, in part, "
        "with preempted threads; each draw is compared with what the same "
        "source gives alone; non-trivial: two sources were interleaved")
REAL = ["sample.evaluation.random", "sample.sample"]
STUB = ["OS entropy (a seeded stream)", "thread scheduling"]


def prepare():
  import sample.evaluation.random  # noqa
  import sample.sample  # noqa
  threads.instrument(["/repo/sample/evaluation/random.py",
                      "/repo/sample/sample.py"])


def draws(c):
  """(name, function of the generator, how many times as single draws)"""
  n = c.int(1, 3)
  many = c.prob(0.4)
  size = {"size": n} if many else {}
  k = c.choice(("audio", "freqs", "decays", "amps", "noise", "beta"))
  kw = {"audio": {"dur": 0.01 * c.int(1, 3), "fs": c.choice((1000, 2000))},
        "noise": {"nsamples": c.int(1, 9)},
        "beta": {"a": 2, "b": c.choice((2, 5)), "left": c.choice((0, 1)),
                 "right": 3, "positive": c.choice((0.5, 1, 0))}}.get(k, {})
  name = {"beta": "beta_twosides"}.get(k, k)

  def one(g):
    return models.frozen(getattr(g, name)(**kw, **size))

  def singles(g):
    r = [models.frozen(getattr(g, name)(**kw)) for _ in range(
        n if many else 1)]
    return r if many else r[0]

  return (k, n if many else None, kw), one, singles


def scenario(run):
  import sample.sample as ss
  from sample.evaluation import random
  c = run.c
  params = []
  n = c.int(1, 3)
  for _ in range(n):
    p = {}
    if c.prob(0.3):
      p["onlybeat"] = True
    if c.prob(0.4):
      p["decay"] = c.choice((0.7, 2))
    if c.prob(0.3):
      p.update(f_min=100, f_max=500)
    if c.prob(0.3):
      p["snr"] = c.choice((10, 60))
    params.append(p)
  how = [c.choice(("seed", "seed", "rng", "shared", "none"))
         for _ in range(n)]
  seeds = [c.choice((0, 1, 7, 12345)) for _ in range(n)]
  entropy = [0]
  real = np.random.default_rng

  def default_rng(seed=None):
    if seed is None:
      entropy[0] += 1
      return real((core.ENTROPY[0], entropy[0]))
    return real(seed)

  def make(k, shared):
    if how[k] == "seed":
      return random.BeatsGenerator(seed=seeds[k], **params[k])
    if how[k] == "rng":
      return random.BeatsGenerator(rng=real(seeds[k]), **params[k])
    if how[k] == "shared":
      # a random source given by the caller has precedence over a seed
      return random.BeatsGenerator(rng=shared, **params[k], **(
          {"seed": 3} if seeds[k] else {}))
    return random.BeatsGenerator(**params[k])

  with core.patched((np.random, "default_rng", default_rng)):
    shared = real(99)
    gens = [make(k, shared) for k in range(n)]
    plan, got = [], []
    state = np.random.get_state()
    state = np.random.get_state()
    py = pyrandom.getstate()
    if c.prob(0.3):
      threaded(run, c, gens, how, plan, got)
    else:
      history(run, c, gens, how, plan, got, ss, random, params)
    run.check(same(state, np.random.get_state()) or run.probes[
        "other-randomness"], "global-randomness-used")
    run.check(py == pyrandom.getstate() or run.probes["other-randomness"],
              "global-randomness-used")
    if len({k for k, *_ in plan}) > 1:
      run.nontrivial = True
    # alone: first the generators of their own, then those that share
    for k in range(n):
      if how[k] == "none":
        continue
      if how[k] != "shared":
        g = make(k, None)
        mine = [(i, p) for i, p in enumerate(plan) if p[0] == k]
        for i, (_, d, one, singles) in mine:
          w = singles(g)
          run.probe("sequence")
          run.check(models.close(w, got[i]), "not-reproducible",
                    lambda: f"{how[k]} {d}: {str(got[i])[:200]} instead of "
                    f"{str(w)[:200]}")
          run.state(how[k], d[0], d[1])
    if "shared" in how:
      src = real(99)
      again = {k: make(k, src) for k in range(n) if how[k] == "shared"}
      for i, (k, d, one, singles) in enumerate(plan):
        if k in again:
          run.probe("shared-rng")
          w = singles(again[k])
          run.check(models.close(w, got[i]), "not-reproducible",
                    lambda: f"shared source, {d}")
    now = [dict(p) for p in params]
    for (k, d, _, _), g in zip(plan, got):
      if d[0] == "set":
        now[k].update(d[2])
      else:
        truth(run, ss, now[k], d, g)
    fresh(run, c, random)
  run.case = {"how": how, "seeds": seeds, "plan": [(k, d) for k, d, *_ in
                                                   plan]}


def same(a, b):
  return all(np.array_equal(x, y) for x, y in zip(a, b))


def history(run, c, gens, how, plan, got, ss, random, params):
  now = [dict(p) for p in params]
  for _ in range(c.int(1, 8)):
    op = c.weighted([(5, "draw"), (1, "other"), (2, "phases"), (1, "set")])
    if op == "draw":
      k = c.pick(len(gens))
      d, one, singles = draws(c)
      run.ev("draw", k, d)
      state = gens[k].rng.bit_generator.state
      r, _ = run.sut(one, gens[k], what=f"drawing {d[0]}")
      if c.prob(0.4):
        # going back in the source repeats the draw, for any generator alike
        src = np.random.Generator(type(gens[k].rng.bit_generator)())
        src.bit_generator.state = state
        g2 = random.BeatsGenerator(rng=src, **now[k])
        run.probe("from-state")
        w = one(g2)
        run.check(models.close(w, r), "not-from-the-source",
                  lambda: f"{how[k]} {d}: {str(r)[:200]} but {str(w)[:200]} "
                  "from a source in the same state")
        run.check(g2.rng.bit_generator.state ==
                  gens[k].rng.bit_generator.state, "source-not-advanced",
                  lambda: f"{how[k]} {d}")
      plan.append((k, d, one, singles))
      got.append(r)
    elif op == "set":
      k = c.pick(len(gens))
      p = {c.choice(("snr", "decay_min")): c.choice((0.1, 0.5)),
           "onlybeat": c.prob(0.5)}
      if "snr" in p:
        p["snr"] = c.choice((0, 20, 50))
      run.probe("parameters-set")
      run.ev("set", k, sorted(p.items()))

      def change(g, p=p):
        for a, v in p.items():
          setattr(g, a, v)

      change(gens[k])
      now[k].update(p)
      plan.append((k, ("set", None, p), change, change))
      got.append(None)
    elif op == "other":
      run.probe("other-randomness")
      run.fault("other-random-numbers")
      c.choice((lambda: np.random.seed(5), lambda: np.random.rand(3),
                lambda: pyrandom.seed(1), lambda: np.random.default_rng(
                    ).normal(), lambda: np.random.shuffle([1, 2, 3])))()
    else:
      phases(run, c, ss)


def phases(run, c, ss):
  """Random phases of a resynthesis"""
  m = ss.SAMPLE()
  k = c.int(1, 4)
  m.param_matrix_ = np.array([[100.0 + 40 * i for i in range(k)],
                              [0.5] * k, [0.3 + 0.1 * i for i in range(k)]])
  t = np.arange(c.int(2, 30)) / 1000
  seed = c.choice((0, 1, 42))
  run.probe("phases")

  def synth(**kw):
    return m.predict(t, phases="random", **kw)

  a, _ = run.sut(synth, seed=seed, what="resynthesis with a seed")
  b = synth(seed=seed)
  run.check(np.array_equal(a, b), "phases-not-reproducible",
            lambda: f"seed {seed}")
  order = m.mode_argsort_()
  ph = np.random.default_rng(seed).uniform(0, 2 * np.pi, k)
  want = sum(m.amps_[j] * np.exp(-2 * t / m.decays_[j]) * np.cos(
      2 * np.pi * m.freqs_[j] * t + ph[i]) for i, j in enumerate(order))
  run.check(np.allclose(a, want), "phases-wrong")
  r1, r2 = np.random.default_rng(seed), np.random.default_rng(seed)
  s1 = [synth(rng=r1) for _ in range(2)]
  s2 = [synth(rng=r2) for _ in range(2)]
  run.check(np.array_equal(s1, s2) and np.array_equal(s1[0], a),
            "phases-not-reproducible", "with a random source")
  run.check(not np.array_equal(s1[0], s1[1]), "source-not-advanced")
  # a given source has precedence over a seed, as in the generators
  r3 = np.random.default_rng(seed)
  s3 = [synth(rng=r3, seed=5) for _ in range(2)]
  run.check(np.array_equal(s1, s3), "source-not-used")
  run.check(not np.array_equal(synth(), synth()), "phases-not-random")


def threaded(run, c, gens, how, plan, got):
  """Each generator is used by a thread of its own; those sharing a source
  cannot be told apart, and take turns"""
  run.probe("threads")
  todo = [[draws(c) for _ in range(c.int(1, 3))] for _ in gens]
  out = [[] for _ in gens]

  def work(k):
    for d, one, singles in todo[k]:
      out[k].append(((k, d, one, singles), one(gens[k])))

  alone = [k for k in range(len(gens)) if how[k] != "shared"]
  with threads.Sched(run, mean_gap=c.choice((5, 20, 60))) as sched:
    with core.patched(*threads.seams(sched)):
      ts = [sched.spawn(lambda k=k: work(k), f"gen{k}") for k in alone]
      sched.join(*ts)
      for t in ts:
        if t.exc is not None:
          raise t.exc
  for k in range(len(gens)):
    if k not in alone:
      work(k)
  for o in out:
    for p, r in o:
      plan.append(p)
      got.append(r)


def truth(run, ss, p, d, r):
  """What was drawn is what was asked for, and what is reported about it"""
  from sample import psycho
  k, n, kw = d
  d_min = p.get("decay_min", 0.5)
  eps = 1e-9

  def frequencies(f):
    f = np.asarray(f)
    run.check(np.shape(f) == (3,), "frequencies")
    run.check(np.all(f >= p.get("f_min", 200) - 1e-6) and
              np.all(f <= p.get("f_max", 2000) + 1e-6), "frequency-range",
              lambda: str(f))
    run.check(1.8 - 1e-6 <= abs(f[1] - f[0]) <= 18 + 1e-6, "beat-range",
              lambda: str(f))
    b = psycho.hz2bark(f)
    run.check(1.5 - 1e-6 <= abs(b[2] - b[0]) <= 4 + 1e-6, "delta-range",
              lambda: str(f))

  def amplitudes(a):
    a = np.asarray(a)
    snr = 10**(p.get("snr", 45) / 20)
    run.check(np.shape(a) == (3,) and np.isclose(np.sum(a), snr / (1 + snr)),
              "amplitudes", lambda: str(a))
    run.check(bool(a[2]) != bool(p.get("onlybeat")), "third-partial")
    a = a[a != 0]
    run.check(np.max(a) / np.min(a) <= 10**0.5 * (1 + eps),
              "amplitude-range", lambda: str(a))

  for v in (r if n is not None else [r]):
    if k == "audio":
      x, fs, (f, dec, a, ph) = v
      run.check(fs == kw["fs"] and len(x) == int(kw["dur"] * fs),
                "wrong-size")
      t = np.arange(len(x)) / fs
      y = sum(a[i] * np.exp(-2 * t / dec[i]) * np.cos(
          2 * np.pi * f[i] * t + ph[i]) for i in range(3))
      snr = 10**(p.get("snr", 45) / 20)
      noise = 1 / (1 + snr)
      run.check(np.max(np.abs(x - y)) < 7 * noise, "parameters-differ",
                lambda: f"{np.max(np.abs(x - y))} with noise {noise}")
      amplitudes(a)
      frequencies(f)
      run.check(np.all(dec >= d_min), "decays")
      run.check(np.shape(ph) == (3,) and np.all(ph >= 0) and np.all(
          np.asarray(ph) < 2 * np.pi), "phase-range", lambda: str(ph))
    elif k == "decays":
      run.check(np.shape(v) == (3,) and np.all(np.asarray(v) >= d_min),
                "decays")
    elif k == "freqs":
      frequencies(v)
    elif k == "amps":
      amplitudes(v)
    elif k == "noise":
      run.check(np.shape(v) == (kw["nsamples"],), "wrong-size")
    elif k == "beta":
      lo, hi = kw["left"], kw["right"]
      run.check(lo <= abs(v) <= hi and not (
          v < 0 and kw["positive"] == 1) and not (
              v > 0 and kw["positive"] == 0), "beta-range", lambda: str(v))


def fresh(run, c, random):
  """Without a seed, or with another one, draws are different"""
  if c.prob(0.3):
    run.probe("unseeded")
    a, b = random.BeatsGenerator(), random.BeatsGenerator()
    run.check(not np.array_equal(a.decays(), b.decays()),
              "unseeded-repeats")
    s = [random.BeatsGenerator(seed=k).decays() for k in (0, 1, 2)]
    run.check(not np.array_equal(s[0], s[1]) and not np.array_equal(
        s[1], s[2]), "seed-ignored")
    run.check(np.array_equal(s[0], random.BeatsGenerator(
        rng=np.random.default_rng(0)).decays()), "seed-differs-from-source")
