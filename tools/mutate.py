"""Mutation survey: which small changes of a file do the checks not notice?

tools/mutate.py FILE PROP[,PROP..] [-n MAX] [--only REGEX] [--skip REGEX]
                [--wall S] [--seed N]
Works on copies of /repo in private mount namespaces (as root); writes
/tmp/mut/report-*.jsonl. A tool for strengthening checks; no check uses it"""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import queue
import random
import re
import shutil
import subprocess

SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
        ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
        ast.NotIn: "in"}
ARITH = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
         ast.FloorDiv: "*", ast.Mod: "*"}


class Mutator(ast.NodeVisitor):

  def __init__(self, src, only, skip):
    self.src = src
    self.lines = src.splitlines(keepends=True)
    self.off = [0]
    for line in self.lines:
      self.off.append(self.off[-1] + len(line.encode()))
    self.b = src.encode()
    self.out = []
    self.only, self.skip = only, skip
    self.stack = []

  def pos(self, n):
    return (self.off[n.lineno - 1] + n.col_offset,
            self.off[n.end_lineno - 1] + n.end_col_offset)

  def text(self, n):
    a, b = self.pos(n)
    return self.b[a:b].decode()

  def put(self, n, new, what):
    name = ".".join(self.stack)
    if not self.stack or (self.only and not self.only.search(name)) or (
        self.skip and self.skip.search(name)):
      return
    a, b = self.pos(n)
    self.out.append((n.lineno, name, what, a, b, new))

  def visit_FunctionDef(self, n):
    self.stack.append(n.name)
    self.block(n.body)
    for s in n.body:
      self.visit(s)
    for d in (*n.args.defaults, *n.args.kw_defaults):
      if d is not None:
        self.visit(d)
    self.stack.pop()

  def visit_ClassDef(self, n):
    self.stack.append(n.name)
    for s in n.body:
      self.visit(s)
    self.stack.pop()

  def block(self, body):
    for i, s in enumerate(body):
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        continue
      t = self.text(s)
      if "logger." in t or "logging." in t or t.startswith("#"):
        continue
      if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue,
                        ast.Break, ast.Delete)):
        self.put(s, "pass", "delete statement")
      if isinstance(s, ast.Assign) and isinstance(
          s.targets[0], (ast.Attribute, ast.Subscript)):
        self.put(s, "pass", "delete assignment")
      if isinstance(s, ast.If) and not s.orelse and isinstance(
          s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
        self.put(s.test, "False", "never")
      if isinstance(s, ast.Try) and s.finalbody:
        self.put(s.finalbody[0], "pass", "drop finally")
      if isinstance(s, ast.With):
        ctx = s.items[0]
        if ctx.optional_vars is None:
          self.put(ctx.context_expr, "__import__('contextlib').nullcontext()",
                   "drop context")
      if i + 1 < len(body) and len(t) < 300:
        u = body[i + 1]
        simple = (ast.Expr, ast.Assign, ast.AugAssign)
        if isinstance(s, simple) and isinstance(u, simple):
          a, b = self.pos(s)
          c, d = self.pos(u)
          new = (self.b[c:d] + self.b[b:c] + self.b[a:b]).decode()
          name = ".".join(self.stack)
          if (not self.only or self.only.search(name)) and not (
              self.skip and self.skip.search(name)):
            self.out.append((s.lineno, name, "swap statements", a, d, new))

  def generic_visit(self, n):
    for f in ("body", "orelse", "finalbody"):
      v = getattr(n, f, None)
      if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
        self.block(v)
    super().generic_visit(n)

  def visit_If(self, n):
    self.put(n.test, f"not ({self.text(n.test)})", "negate")
    self.generic_visit(n)

  def visit_IfExp(self, n):
    self.put(n.test, f"(not ({self.text(n.test)}))", "negate")
    self.generic_visit(n)

  def visit_Compare(self, n):
    if len(n.ops) == 1 and type(n.ops[0]) in SWAP:
      self.put(n, f"({self.text(n.left)} {SWAP[type(n.ops[0])]} "
               f"{self.text(n.comparators[0])})", "compare")
    self.generic_visit(n)

  def visit_BoolOp(self, n):
    op = " or " if isinstance(n.op, ast.And) else " and "
    self.put(n, "(" + op.join(f"({self.text(v)})" for v in n.values) + ")",
             "and/or")
    for v in n.values:
      self.put(n, f"({self.text(v)})", "one condition")
    self.generic_visit(n)

  def visit_BinOp(self, n):
    if type(n.op) in ARITH and not isinstance(n.left, ast.Constant):
      self.put(n, f"({self.text(n.left)} {ARITH[type(n.op)]} "
               f"({self.text(n.right)}))", "arithmetic")
    self.generic_visit(n)

  def visit_Constant(self, n):
    if isinstance(n.value, bool):
      self.put(n, str(not n.value), "constant")
    elif isinstance(n.value, int):
      self.put(n, str(n.value + 1), "constant")
    elif isinstance(n.value, float):
      self.put(n, repr(n.value * 2 + 1), "constant")

  def visit_Call(self, n):
    for k in n.keywords:
      if k.arg is not None:
        a, b = self.pos(n)
        args = [self.text(x) for x in n.args] + [
            (f"{q.arg}=" if q.arg else "**") + self.text(q.value)
            for q in n.keywords if q is not k]
        self.put(n, f"{self.text(n.func)}({', '.join(args)})",
                 f"drop keyword {k.arg}")
    if len(n.args) == 2 and not any(isinstance(x, ast.Starred)
                                    for x in n.args) and not n.keywords:
      self.put(n, f"{self.text(n.func)}({self.text(n.args[1])}, "
               f"{self.text(n.args[0])})", "swap arguments")
    self.generic_visit(n)


def run(cmd, limit, root, **kw):
  sh = (f"mount --bind {root} /repo && mount -t tmpfs x /verif/replays && "
        f"mount -t tmpfs x /verif/evidence && cd /verif && exec {cmd}")
  try:
    return subprocess.run(["unshare", "-Urm", "bash", "-c", sh],
                          capture_output=True, text=True, timeout=limit,
                          check=False, **kw)
  except subprocess.TimeoutExpired as e:
    return subprocess.CompletedProcess(cmd, 124, str(e.stdout), str(e.stderr))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("file")
  ap.add_argument("props")
  ap.add_argument("-n", type=int, default=60)
  ap.add_argument("-j", type=int, default=8)
  ap.add_argument("--only")
  ap.add_argument("--skip", default=r"__init__$|plot|_args?$")
  ap.add_argument("--wall", type=float, default=30)
  ap.add_argument("--seed", type=int, default=0)
  ap.add_argument("--tests", action="store_true")
  a = ap.parse_args()
  with open("/repo/" + a.file, encoding="utf-8") as f:
    src = f.read()
  m = Mutator(src, a.only and re.compile(a.only),
              a.skip and re.compile(a.skip))
  m.visit(ast.parse(src))
  muts = []
  for t in m.out:
    new = m.b[:t[3]] + t[5].encode() + m.b[t[4]:]
    try:
      compile(new, "x", "exec")
    except SyntaxError:
      continue
    if new != m.b:
      muts.append((t, new))
  total = len(muts)
  random.Random(a.seed).shuffle(muts)
  muts = sorted(muts[:a.n], key=lambda t: t[0][0])
  print(f"{a.file}: {total} mutants, {len(muts)} tried", flush=True)
  slots = queue.Queue()
  os.makedirs("/tmp/mut", exist_ok=True)
  tag = f"{os.getpid()}"
  for i in range(a.j):
    root = f"/tmp/mut/{tag}-{i}"
    shutil.copytree("/repo", root, symlinks=True)
    slots.put(root)

  def one(mut):
    t, new = mut
    root = slots.get()
    try:
      with open(os.path.join(root, a.file), "wb") as f:
        f.write(new)
      res = {}
      for p in a.props.split(","):
        env = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick",
                   VSIM_MINIMISE="1")
        r = run(f"/opt/venv/bin/python -B check.py {p} quick --wall {a.wall} "
                f"--workers 1 --runs 100000", a.wall * 3 + 120, root, env=env)
        res[p] = r.returncode
        if r.returncode == 1 and "VIOLATION" in r.stdout:
          v = re.search(r"violation class=(\S+)", r.stdout + r.stderr)
          return t, "caught", f"{p} {v and v.group(1)}"
        if r.returncode != 0:
          e = (r.stdout + r.stderr).strip().splitlines()
          res[p] = f"{r.returncode} {e[-2:] if e else ''}"[:300]
      if a.tests:
        r = run("bash -c 'cd /repo && /opt/venv/bin/python -m pytest -q -x -p "
                "no:cacheprovider -p no:xdist --timeout=300 tests'", 600, root)
        if "failed" in r.stdout and not re.search(r"3 failed", r.stdout):
          return t, "tests", ""
      return t, "SURVIVED", str(res)
    finally:
      with open(os.path.join(root, a.file), "wb") as f:
        f.write(m.b)
      slots.put(root)

  n = {}
  with cf.ThreadPoolExecutor(a.j) as ex, open(
      f"/tmp/mut/report-{tag}.jsonl", "w", encoding="utf-8") as rep:
    for t, st, info in ex.map(one, muts):
      n[st] = n.get(st, 0) + 1
      rep.write(json.dumps([a.file, t, st, info]) + "\n")
      rep.flush()
      if st == "SURVIVED":
        old = m.b[t[3]:t[4]].decode()
        print(f"{a.file}:{t[0]} {t[1]} [{t[2]}]\n    - {old[:200]!r}\n    + "
              f"{t[5][:200]!r}\n      {info}", flush=True)
  print(a.file, n, flush=True)
  for i in range(a.j):
    shutil.rmtree(f"/tmp/mut/{tag}-{i}")


if __name__ == "__main__":
  main()
