"""The tools that rewrite notebooks and changelogs never damage them"""
import ast
import copy
import errno
import importlib.util
import io
import json
import re
import sys

from vsim import core, fs as vfs, threads

NB = CL = EX = None
SCRIPTS = core.REPO + "/scripts/utils/"

CONFIG = {"runs": 7000, "wall": 32, "thorough_wall": 500, "run_limit": 60,
          "must_probe": ("formatted", "killed", "disk-error", "repaired",
                         "changelog", "extract", "dry-run")}
RULE = ("seeded notebooks (commands, cell magics, syntax errors, ignored "
        "cells, outputs) or changelog files in any directory order; the tool "
        "is run 1-4 times with a kill, power loss, interrupt at a seeded "
        "line, full disk or I/O error, or none, then without faults and "
        "again; non-trivial: a fault fired")
REAL = ["scripts/utils/yapf_nbformat.py", "scripts/utils/make_changelog.py",
        "scripts/utils/extract_changelog.py", "yapf", "nbformat"]
STUB = ["disk", "directory order"]
ASSUMPTIONS = ["the tool may leave temporary files when it is killed"]


def _load(name):
  spec = importlib.util.spec_from_file_location(name, f"{SCRIPTS}{name}.py")
  m = importlib.util.module_from_spec(spec)
  sys.modules[name] = m
  spec.loader.exec_module(m)
  return m


def prepare():
  global NB, CL, EX
  NB, CL, EX = map(_load, ("yapf_nbformat", "make_changelog",
                           "extract_changelog"))
  from yapf.yapflib import yapf_api
  # grammars and schemas are loaded before any simulated disk exists
  yapf_api.FormatCode("x  =  1\n")
  import nbformat
  nb = nbformat.v4.new_notebook(cells=[nbformat.v4.new_code_cell("x")])
  nbformat.validate(nb)
  nbformat.reads(nbformat.writes(nb), as_version=nbformat.NO_CONVERT)
  threads.instrument((SCRIPTS,))


CODE = (
    "x  =  1\ny=[1,2,\n 3]",
    "def f( a,b ):\n      return a+b",
    "!ls   -l\nx  = 2",
    "%matplotlib inline\nimport os ,sys",
    "if x :\n    !echo  $x  # note\n    y =  '%d' %  3",
    "%%bash\nls   *.py | wc",
    "%%timeit\nsum( [1,2] )",
    "def broken(:\n  pass   ",
    "# yapf: ignore\nx  =   { }",
    "# yapf: ignore (a table)\nx  =   { }",
    "x  =   [ ]  # yapf: ignore\ny  =   { }",
    "",
    "   ",
    "s = '''\n%d   items\n'''\nprint( s )",
    "for i in range(3) :\n  %time  f(i)\n  print( i )",
    "x = 1",
    "help?",
    "a = \"è ∑\"  ;b=2",
)


def notebook(c):
  cells = []
  minor = c.choice((5, 4))
  for k in range(c.int(1, 5)):
    kind = c.weighted([(5, "code"), (1, "markdown")])
    src = c.choice(CODE) if kind == "code" else "# Title\n* x  =  1\n%magic"
    # sources are stored as lists of lines or as one string
    if c.prob(0.5):
      src = src.splitlines(keepends=True)
    cell = {"cell_type": kind, "metadata": {"tags": [str(k)]} if c.prob(
        0.4) else {}, "source": src}
    if minor == 5:
      cell["id"] = f"cell{k}"
    if kind == "code":
      cell["execution_count"] = c.choice((None, 3))
      cell["outputs"] = [{"name": "stdout", "output_type": "stream",
                          "text": ["x  =  1\n", "è\n"]}] if c.prob(0.5) else []
    cells.append(cell)
  nb = {"cells": cells, "metadata": {"language_info": {"name": "python"}},
        "nbformat": 4, "nbformat_minor": minor}
  return json.dumps(nb, indent=c.choice((1, None)),
                    ensure_ascii=c.prob(0.5)).encode()


def source(cell):
  s = cell["source"]
  return s if isinstance(s, str) else "".join(s)


def meaning(src):
  """What a code cell does: its syntax tree, with commands as they are"""
  lines = []
  for s in src.splitlines():
    m = re.fullmatch(r"(\s*)([!%].*)", s)
    lines.append(f"{m[1]}_command_({m[2]!r})" if m else s)
  try:
    return ast.dump(ast.parse("\n".join(lines)))
  except SyntaxError:
    return None


def same_notebook(run, old, new, tagged):
  """Only the layout of code cells may differ"""
  try:
    a, b = json.loads(old), json.loads(new.decode("utf-8"))
  except ValueError as e:
    raise core.Violation("notebook-damaged", f"{e}: {new[:60]!r} ... "
                         f"{len(new)} bytes of {len(old)}") from e
  ca, cb = a.pop("cells"), b.pop("cells")
  run.check(a == b, "metadata-changed", lambda: f"{a} {b}")
  run.check(len(ca) == len(cb), "cells-lost")
  for x, y in zip(ca, cb):
    sx, sy = source(x), source(y)
    x, y = dict(x), dict(y)
    x.pop("source"), y.pop("source")
    if "outputs" in x:
      x["outputs"], y["outputs"] = ([dict(o, text="".join(o["text"]))
                                     for o in q["outputs"]] for q in (x, y))
    run.check(x == y, "cell-changed", lambda: f"{x} {y}")
    if sx == sy:
      continue
    run.check(x["cell_type"] == "code", "text-cell-changed")
    run.check("# yapf: ignore" not in sx.split("\n")[0], "ignored-cell-changed")
    mx = meaning(sx)
    if mx is None:
      rest = "\n".join(s for s in sy.splitlines()
                       if not (tagged and s.startswith("# yapf")))
      if not sx.lstrip().startswith("%%"):
        run.check(rest == "\n".join(sx.splitlines()), "invalid-cell-changed",
                  lambda: f"{sx!r} -> {sy!r}")
    else:
      run.check(mx == meaning(sy), "code-changed", lambda: f"{sx!r} -> {sy!r}")


class Life:
  """Runs of a tool on one simulated disk"""

  def __init__(self, run, disk, module):
    self.run, self.disk, self.module = run, disk, module
    self.lives = []

  def __call__(self, plan, argv, missing=False):
    run, disk, c = self.run, self.disk, self.run.c
    power = plan == "power"
    left = [None]
    if plan in ("kill", "power"):
      disk.arm_crash(c.choice((3, 8, 20)),
                     disk.MUTATING if c.prob(0.6) else None)
    elif plan in ("full", "eio"):
      disk.arm_error(errno.ENOSPC if plan == "full" else errno.EIO,
                     c.choice((2, 6)), lasts=30 if plan == "full" else 1,
                     kinds=(*disk.MUTATING, "open", "read"))
    elif plan == "interrupt":
      left[0] = c.int(1, c.choice((20, 150)))
    elif plan == "short":
      disk.short = 0.3

    def hook(code, where):
      if left[0] is not None and code.co_name != "<module>":
        left[0] -= 1
        if left[0] <= 0:
          left[0] = None
          run.fault("interrupt-line", code.co_name)
          raise KeyboardInterrupt

    run.ev("life", plan)
    err = None
    out = io.StringIO()
    with threads.Sched(run) as sched:
      disk.sched = sched
      sched.tick_hook = hook
      with core.patched(*threads.seams(sched), *disk.seams(),
                        (sys, "stdout", out)):
        try:
          self.module.main(*argv)
          end = "ok"
        except core.SimCrash:
          end = "crash"
          run.probe("killed")
        except KeyboardInterrupt:
          end = "interrupt"
        except (core.Violation, core.SimUnsupported):
          raise
        except OSError as e:
          end, err = "disk", e
          if missing and isinstance(e, FileNotFoundError):
            end = "missing"
          elif plan not in ("full", "eio"):
            raise core.Violation("run-fails", f"{e!r} at "
                                 f"{core.sut_site(e)}") from e
          if end == "disk":
            run.probe("disk-error")
        except Exception as e:  # pylint: disable=W0718
          raise core.Violation("run-fails", f"{type(e).__name__}: {e} at "
                               f"{core.sut_site(e)}") from e
        sched.tick_hook = None
    disk.disarm()
    disk.restart(power=end == "crash" and power)
    disk.short = 0.0
    self.lives.append((plan, end))
    run.ev("end", end)
    return end, out.getvalue()


PLANS = [(2, "kill"), (1, "power"), (1, "interrupt"), (1, "full"), (1, "eio"),
         (0.5, "short")]


def scenario(run):
  kind = run.c.weighted([(6, notebooks), (2, changelog), (1, extract)])
  kind(run)


def notebooks(run):
  c = run.c
  with vfs.SimFS(run) as disk:
    names = [f"nb/n{k}.ipynb" for k in range(c.int(1, 3))]
    old = {k: notebook(c) for k in names}
    for k, v in old.items():
      disk.put(k, v)
    tag = c.prob(0.3)
    argv = [*map(disk.path, names), "-l", "CRITICAL"]
    if tag:
      argv.append("--tag-errors")
    # what formatting gives when nothing goes wrong
    life = Life(run, disk, NB)
    if c.prob(0.3):
      run.probe("dry-run")
      end, _ = life("none", [*argv, "--dry-run"])
      for k in names:
        run.check(disk.read(k) == old[k], "dry-run-writes")
    life("none", argv)
    want = {k: disk.read(k) for k in names}
    for k in names:
      same_notebook(run, old[k], want[k], tag)
      run.probe("formatted")
    for k, v in old.items():
      disk.put(k, v)
    for _ in range(c.int(1, 4)):
      plan = c.weighted(PLANS)
      end, _ = life(plan, argv)
      for k in names:
        got = disk.read(k)
        run.check(got is not None, "notebook-lost", f"{k} after {plan}")
        if got not in (old[k], want[k]):
          same_notebook(run, old[k], got, tag)
          raise core.Violation("notebook-mixed",
                               f"{k} is neither the old nor the new one")
        run.check(end != "ok" or got == want[k], "not-formatted",
                  lambda: f"{k} after {plan}")
      run.state("notebook", plan, end, len(names))
    n = len(life.lives)
    end, _ = life("none", argv)
    run.check(end == "ok", "run-fails")
    if n:
      run.probe("repaired")
    for k in names:
      run.check(disk.read(k) == want[k], "not-formatted", k)
    # nothing is left to format
    written = []
    disk.on_closed = lambda p: written.append(p)
    life("none", argv)
    disk.on_closed = None
    for k in names:
      run.check(disk.read(k) == want[k], "formatting-unstable", k)
    run.case = {"notebooks": len(names), "lives": life.lives}


def versions(c):
  out = []
  for _ in range(c.int(100, 200) if c.prob(0.03) else c.int(1, 6)):
    v = tuple(c.choice((0, 1, 2, 9, 10, 11)) for _ in range(c.int(2, 3)))
    if v not in out:
      out.append(v)
  return out


def changelog(run):
  c = run.c
  with vfs.SimFS(run) as disk:
    vs = versions(c)
    for v in vs:
      disk.put("repo/changelog/v" + "_".join(map(str, v)) + ".md",
               f"# {v}\ntext\n".encode())
    junk = c.prob(0.3)
    if junk:
      disk.put("repo/changelog/README.md", b"x")
    target = "repo/docs/changelog.rst"
    disk.put(target, b"old contents\n" * 40)
    argv = ["-I", disk.path("repo/changelog"), "-O", disk.path(target), "-l",
            "CRITICAL"]
    # newest first
    vs.sort(reverse=True)
    want = "\n".join(["Changelog\n=========\n"] + [
        ".. mdinclude:: ../changelog/v" + "_".join(map(str, v)) + ".md"
        for v in vs] + [""]).encode()
    life = Life(run, disk, CL)
    run.probe("changelog")
    for _ in range(c.int(1, 3)):
      plan = c.weighted(PLANS)
      end, _ = life(plan, argv)
      if end == "ok":
        run.check(disk.read(target) == want, "changelog-wrong",
                  lambda: f"{disk.read(target)}")
      for v in vs:
        run.check(disk.read("repo/changelog/v" + "_".join(map(str, v)) +
                            ".md") == f"# {v}\ntext\n".encode(),
                  "input-changed")
      run.state("changelog", plan, end, len(vs))
    before = disk.read(target)
    end, out = life("none", [*argv, "--dry-run"])
    run.check(disk.read(target) == before, "dry-run-writes")
    run.check(out == want.decode() + "\n", "changelog-wrong",
              lambda: f"{out!r}")
    end, _ = life("none", argv)
    run.check(disk.read(target) == want, "changelog-wrong",
              lambda: f"{disk.read(target)}")
    run.probe("repaired")
    run.case = {"versions": vs, "lives": life.lives}


def extract(run):
  c = run.c
  with vfs.SimFS(run) as disk:
    vs = versions(c)
    text = {}
    for v in vs:
      n = "v" + "_".join(map(str, v))
      text[v] = "".join(f"- item {k} of {n} è\n" for k in range(c.int(0, 4)))
      disk.put(f"log/{n}.md", (f"# {n}\n" + text[v]).encode())
    v = c.choice(vs)
    # a suffix that is not part of the version is not in the file name
    tag = ".".join(map(str, v)) + c.choice(("", "-beta", "rc2"))
    argv = ["--version", tag, "--dir", disk.path("log")]
    life = Life(run, disk, EX)
    run.probe("extract")
    end, out = life("none", argv)
    run.check(out == text[v], "changelog-wrong", lambda: f"{out!r} {tag}")
    argv += ["--output", disk.path("out.md")]
    for _ in range(c.int(1, 3)):
      plan = c.weighted(PLANS)
      end, _ = life(plan, argv)
      if end == "ok":
        run.check(disk.read("out.md") == text[v].encode(), "changelog-wrong")
      run.state("extract", plan, end, len(vs))
    life("none", argv)
    run.check(disk.read("out.md") == text[v].encode(), "changelog-wrong")
    if c.prob(0.4):  # a version that is not there
      missing = tuple(k + 20 for k in v)
      end, _ = life("none", [*argv, "--version", ".".join(map(str, missing))],
                    missing=True)
      run.check(end == "missing", "error-swallowed", "no such version")
      run.check(disk.read("out.md") == text[v].encode(), "changelog-damaged",
                lambda: f"{disk.read('out.md')} after no such version")
      run.probe("no-such-version")
    run.case = {"version": tag, "lives": life.lives}
