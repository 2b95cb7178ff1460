"""Simulated disk. Files live in a scratch directory; every operation of the
code under test on a path below it is an operation of the simulator, which may
fail it, shorten it, or kill the process (or the machine) in the middle of it.

* process crash: what was handed to the system survives, buffers are lost;
* power loss: what earlier processes wrote has been written back; of the last
  one, a file keeps its last synced content or any state in between,
  directory changes are kept up to a point (in order, ordered journal);
  syncing a file also commits the directory changes before it.

Writing outside the scratch directory is an error of the harness"""
import _io
import builtins
import errno
import io
import os
import shutil
import stat
import sys

from vsim import core, threads

_REAL = {
    "io_open": io.open, "open": os.open, "write": os.write,
    "fsync": os.fsync, "replace": os.replace, "rename": os.rename,
    "remove": os.remove, "unlink": os.unlink, "mkdir": os.mkdir,
    "rmdir": os.rmdir, "close": os.close, "truncate": os.truncate,
    "ftruncate": os.ftruncate, "scandir": os.scandir, "listdir": os.listdir, "link": os.link, "symlink": os.symlink,
}
if hasattr(os, "fdatasync"):
  _REAL["fdatasync"] = os.fdatasync
if hasattr(os, "sync"):
  _REAL["sync"] = os.sync

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _files(d):
  out = []
  for n in sorted(_REAL["listdir"](d)):
    p = os.path.join(d, n)
    out += _files(p) if os.path.isdir(p) else [p]
  return out


def _mkdirs(d):
  if not os.path.isdir(d):
    _mkdirs(os.path.dirname(d))
    _REAL["mkdir"](d)


class _Scan:
  """os.scandir in an order of the simulator's choice"""

  def __init__(self, entries):
    self._it = iter(entries)

  def __iter__(self):
    return self

  def __next__(self):
    return next(self._it)

  def close(self):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    pass


class Node:
  """A file, whatever its names"""

  def __init__(self):
    self.durable = None  # content after the last sync
    self.dirty = True


class SimFile(io.FileIO):
  """Raw file of the simulated disk"""

  def __init__(self, fs, file, mode, path, closefd=True):
    self.fs, self.epoch, self.path = fs, fs.epoch, path
    super().__init__(file, mode, closefd=closefd)
    self.name = path

  @property
  def zombie(self):
    return self.fs.dead or self.epoch != self.fs.epoch

  def write(self, b):
    if self.zombie:
      return len(b)
    return self.fs.do_write(self.path, super().write, bytes(b))

  def read(self, size=-1):
    if not self.zombie:
      self.fs.op("read", self.path)
    return super().read(size)

  def readinto(self, b):
    if not self.zombie:
      self.fs.op("read", self.path)
    return super().readinto(b)

  def readall(self):
    if not self.zombie:
      self.fs.op("read", self.path)
    return super().readall()

  def truncate(self, size=None):
    if self.zombie:
      return 0
    self.fs.op("truncate", self.path)
    self.fs.touch(self.path)
    return super().truncate(size)

  def close(self):
    if not self.closed:
      fd = None
      try:
        fd = self.fileno()
      except ValueError:
        pass
      self.fs.fds.pop(fd, None)
      super().close()
      if not self.zombie:
        self.fs.closed(self.path, self.writable_mode)

  writable_mode = False


class SimFS:
  """One simulated disk"""

  def __init__(self, run, sched=None):
    self.run, self.sched = run, sched
    from vsim import runner
    # always of the same length: it may end up in the files
    self.root = os.path.join(runner.scratch_root(),
                             f"disk-{os.getpid():08d}")
    shutil.rmtree(self.root, ignore_errors=True)
    run.scratch = self.root
    _REAL["mkdir"](self.root)
    self.epoch = 0
    self.dead = False
    self.n_ops = 0
    self.crash_in = None  # operations until the crash
    self.crash_kinds = None
    self.error_in = None  # operations until the error
    self.error = None  # (errno, number of operations it lasts)
    self.err_left = 0
    self.short = 0.0  # probability of a short write
    self.fds = {}
    self.names, self.dnames, self.pending = {}, {}, []
    self.on_op = None
    self.on_closed = None
    self.on_remove = None
    self.read_only = False
    self.kinds = None  # restrict errors to these kinds of operation

  # -- life cycle ---------------------------------------------------------
  def __enter__(self):
    self._hook = sys.unraisablehook
    sys.unraisablehook = lambda *_: None
    return self

  def __exit__(self, *a):
    self.dead = True
    self.epoch += 1
    sys.unraisablehook = self._hook
    if os.path.basename(self.root).startswith("disk-"):
      shutil.rmtree(self.root, ignore_errors=True)

  def path(self, *p):
    return os.path.join(self.root, *p)

  def rel(self, path):
    return os.path.relpath(path, self.root)

  def inside(self, path):
    try:
      p = os.path.abspath(os.fspath(path))
    except TypeError:
      return None
    if isinstance(p, bytes):
      p = os.fsdecode(p)
    if p == self.root or p.startswith(self.root + os.sep):
      return p
    return None

  # -- faults -------------------------------------------------------------
  MUTATING = ("create", "write", "rename", "remove", "mkdir", "truncate",
              "fsync")

  def arm_crash(self, mean, kinds=None):
    """Kill the process in the middle of one of the next operations"""
    self.crash_in = self.run.c.int(1, mean)
    self.crash_kinds = kinds

  def arm_error(self, err, within, lasts=1, kinds=None):
    self.error_in = self.run.c.int(1, within)
    self.error = (err, lasts)
    self.kinds = kinds

  def disarm(self):
    self.crash_in = self.error_in = self.error = self.kinds = None
    self.err_left = 0
    self.read_only = False

  def crash(self, where=""):
    """The process dies here"""
    self.run.fault("crash", where)
    self.dead = True
    s = self.sched
    if s is not None and s.is_task() and s.current.tid != 0:
      s.tasks[0].inject = core.SimCrash()
      raise core.SimKilled()
    raise core.SimCrash()

  def op(self, kind, path):
    """An operation on the disk is about to happen"""
    if self.dead:
      raise core.SimCrash()
    self.n_ops += 1
    rel = self.rel(path)
    self.run.ev("fs", kind, rel)
    if self.on_op is not None:
      self.on_op(kind, rel)
    if self.sched is not None and self.sched.is_task():
      self.sched.point("fs")
    if self.crash_in is not None and (self.crash_kinds is None or
                                      kind in self.crash_kinds):
      self.crash_in -= 1
      if self.crash_in <= 0:
        self.crash_in = None
        if kind == "write":
          return "crash"
        # before or after the operation
        if self.run.c.prob(0.5):
          return "crash-after"
        self.crash(f"{kind} {rel}")
    if self.read_only and kind in ("create", "write", "rename", "remove",
                                   "mkdir", "truncate"):
      self.run.fault("EROFS", kind)
      raise OSError(errno.EROFS, os.strerror(errno.EROFS), path)
    counted = self.kinds is None or kind in self.kinds
    if self.error_in is not None and counted and kind != "open":
      self.error_in -= 1
      if self.error_in <= 0:
        self.error_in = None
        self.err_left = self.error[1]
    if self.err_left > 0 and counted:
      e = self.error[0]
      if e == errno.ENOSPC and kind not in ("create", "write", "mkdir",
                                            "fsync"):
        return None
      if kind in ("open", "truncate"):
        return None
      self.err_left -= 1
      self.run.fault(errno.errorcode[e], f"{kind} {rel}")
      if kind == "write":
        return "error"
      raise OSError(e, os.strerror(e), path)
    return None

  def after(self, verdict, where):
    if verdict == "crash-after":
      self.crash("after " + where)

  def do_write(self, path, write, b):
    v = self.op("write", path)
    self.touch(path)
    n = len(b)
    if v in ("crash", "error"):
      k = self.run.c.int(0, n) if n else 0
      if self.run.c.prob(0.3):
        k = self.run.c.choice((0, n, n // 2))
      if k:
        write(b[:k])
      if v == "crash":
        self.run.probe("torn-write" if 0 < k < n else "crash-in-write")
        self.crash(f"write {self.rel(path)} {k}/{n}")
      e = self.error[0]
      if k and e == errno.ENOSPC:
        self.err_left += 1
        return k  # a short write, then the error
      raise OSError(e, os.strerror(e))
    if self.short and n > 1 and self.run.c.prob(self.short):
      k = self.run.c.int(1, n - 1)
      self.run.fault("short-write", "")
      write(b[:k])
      return k
    done = write(b)
    return done

  def touch(self, path):
    node = self.names.get(path)
    if node is not None:
      node.dirty = True

  def closed(self, path, written):
    if self.on_closed is not None and written:
      self.on_closed(self.rel(path))

  # -- namespace ----------------------------------------------------------
  def _link(self, path):
    node = Node()
    self.names[path] = node
    self.pending.append(("link", path, node))
    return node

  def sync_all(self):
    """Everything now on the disk is durable"""
    self._walk()
    for p, node in self.names.items():
      self._sync_node(p, node)
    self.dnames = dict(self.names)
    self.pending = []

  def _walk(self):
    seen = set()
    for p in _files(self.root):
      seen.add(p)
      if p not in self.names:
        self._link(p)
    for p in list(self.names):
      if p not in seen:
        del self.names[p]

  def _sync_node(self, path, node):
    with _REAL["io_open"](path, "rb") as f:
      node.durable = f.read()
    node.dirty = False

  def _commit(self, k=None):
    k = len(self.pending) if k is None else k
    for op in self.pending[:k]:
      if op[0] == "link":
        self.dnames[op[1]] = op[2]
      elif op[0] == "unlink":
        self.dnames.pop(op[1], None)
      else:
        self.dnames.pop(op[1], None)
        self.dnames[op[2]] = op[3]
    del self.pending[:k]

  def restart(self, power=False):
    """A new process starts after the crash (or on a running machine)"""
    self.epoch += 1
    self.fds = {}
    self.disarm()
    if power:
      self.run.fault("power-loss", "")
      self._power_loss()
    else:
      self.sync_all()  # written back by the time of the next process
    self.dead = False

  def _power_loss(self):
    c = self.run.c
    current = {}
    self._walk_nodes(current)
    self._commit(len(self.pending) - c.pick(len(self.pending) + 1))
    out = {}
    for p, node in sorted(self.dnames.items()):
      cur = current.get(node)
      if cur is None:
        cur = node.durable or b""
      if not node.dirty:
        out[p] = node.durable
        continue
      opts = [cur]
      if node.durable is not None:
        opts.append(node.durable)
      opts += [cur[:c.int(0, len(cur))] if cur else b"", b""]
      out[p] = c.choice(opts)
    for p in list(self.names):
      if p not in out and os.path.exists(p):
        _REAL["remove"](p)
    for p, data in out.items():
      _mkdirs(os.path.dirname(p))
      with _REAL["io_open"](p, "wb") as f:
        f.write(data)
      self.dnames[p].durable = data
      self.dnames[p].dirty = False
    self.names = dict(self.dnames)
    self.pending = []

  def _walk_nodes(self, current):
    for p, node in self.names.items():
      try:
        with _REAL["io_open"](p, "rb") as f:
          current[node] = f.read()
      except OSError:
        pass

  # -- seams --------------------------------------------------------------
  def _open(self, file, mode="r", buffering=-1, encoding=None, errors=None,
            newline=None, closefd=True, opener=None):
    writing = any(ch in mode for ch in "wax+")
    if isinstance(file, int):
      path = self.fds.get(file)
      if path is None or opener is not None:
        return _REAL["io_open"](file, mode, buffering, encoding, errors,
                                newline, closefd, opener)
      raw = SimFile(self, file, mode.replace("b", "").replace("t", ""), path,
                    closefd)
    else:
      if opener is not None:
        return _REAL["io_open"](file, mode, buffering, encoding, errors,
                                newline, closefd, opener)
      path = self.inside(file)
      if path is None:
        if writing and not str(os.fspath(file)).startswith("/dev/"):
          raise core.SimUnsupported(f"write outside the scratch disk: {file}")
        return _REAL["io_open"](file, mode, buffering, encoding, errors,
                                newline, closefd, opener)
      v = self._opening(path, "w" in mode or "x" in mode or
                        ("a" in mode and not os.path.exists(path)))
      raw = SimFile(self, path, mode.replace("b", "").replace("t", ""), path)
      self._opened(path, "w" in mode)
      self.after(v, "open")
    raw.writable_mode = writing
    self.fds[raw.fileno()] = path
    return self._wrap(raw, mode, buffering, encoding, errors, newline)

  def _opening(self, path, creating):
    return self.op("create" if creating else "open", path)

  def _opened(self, path, trunc):
    if path not in self.names:
      self._link(path)
    elif trunc:
      self.touch(path)

  def _wrap(self, raw, mode, buffering, encoding, errors, newline):
    binary = "b" in mode
    if buffering == 0 and binary:
      return raw
    line = buffering == 1 and not binary
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in mode:
      buf = io.BufferedRandom(raw, size)
    elif any(ch in mode for ch in "wax"):
      buf = io.BufferedWriter(raw, size)
    else:
      buf = io.BufferedReader(raw, size)
    if binary:
      return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline,
                            line_buffering=line)
    text.mode = mode
    return text

  def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
    p = self.inside(path) if dir_fd is None else None
    if p is None:
      if flags & WRITE_FLAGS and not str(os.fspath(path)).startswith(
          ("/dev/", os.environ.get("VSIM_SCRATCH", "/nonexistent"))):
        raise core.SimUnsupported(f"write outside the scratch disk: {path}")
      return _REAL["open"](path, flags, mode, dir_fd=dir_fd)
    new = bool(flags & os.O_CREAT) and not os.path.exists(p)
    v = self.op("create" if new or flags & os.O_TRUNC else "open", p)
    fd = _REAL["open"](path, flags, mode)
    self.fds[fd] = p
    if not stat.S_ISDIR(os.fstat(fd).st_mode):
      self._opened(p, bool(flags & os.O_TRUNC))
    self.after(v, "open")
    return fd

  def _os_write(self, fd, data):
    path = self.fds.get(fd)
    if path is None:
      return _REAL["write"](fd, data)
    if self.dead:
      return len(data)
    return self.do_write(path, lambda b: _REAL["write"](fd, b), bytes(data))

  def _os_close(self, fd):
    path = self.fds.pop(fd, None)
    r = _REAL["close"](fd)
    if path is not None and not self.dead:
      self.closed(path, True)
    return r

  def _fsync(self, fd):
    if not isinstance(fd, int):
      fd = fd.fileno()
    path = self.fds.get(fd)
    if path is None:
      return _REAL["fsync"](fd)
    v = self.op("fsync", path)
    node = self.names.get(path)
    if node is not None:
      self._sync_node(path, node)
    self._commit()
    self.after(v, "fsync")
    return None

  def _sync(self):
    self.op("fsync", self.root)
    self.sync_all()

  def _replace(self, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    a, b = self.inside(src), self.inside(dst)
    if a is None and b is None:
      raise core.SimUnsupported(f"rename outside the scratch disk: {src}")
    v = self.op("rename", b or a)
    _REAL["replace"](src, dst)
    node = self.names.pop(a, None) or Node()
    self.names[b] = node
    self.pending.append(("rename", a, b, node))
    for fd, p in list(self.fds.items()):
      if p == a:
        self.fds[fd] = b
    self.after(v, "rename")
    if self.on_closed is not None:
      self.on_closed(self.rel(b))

  def _remove(self, path, *, dir_fd=None):
    p = self.inside(path)
    if p is None or dir_fd is not None:
      raise core.SimUnsupported(f"remove outside the scratch disk: {path}")
    v = self.op("remove", p)
    if self.on_remove is not None:
      self.on_remove(self.rel(p))
    _REAL["remove"](path)
    self.names.pop(p, None)
    self.pending.append(("unlink", p))
    self.after(v, "remove")

  def _mkdir(self, path, mode=0o777, *, dir_fd=None):
    p = self.inside(path)
    if p is None:
      raise core.SimUnsupported(f"mkdir outside the scratch disk: {path}")
    v = self.op("mkdir", p)
    _REAL["mkdir"](path, mode)
    self.after(v, "mkdir")

  def _scandir(self, path="."):
    if self.inside(path) is None:
      return _REAL["scandir"](path)
    self.op("list", self.inside(path))
    with _REAL["scandir"](path) as it:
      entries = sorted(it, key=lambda e: e.name)
    return _Scan(self.run.c.shuffle(entries))

  def _listdir(self, path="."):
    if self.inside(path) is None:
      return _REAL["listdir"](path)
    self.op("list", self.inside(path))
    return self.run.c.shuffle(sorted(_REAL["listdir"](path)))

  def _unsupported(self, name):

    def f(*a, **k):
      if not any(self.inside(x) for x in a if isinstance(x, (str, os.PathLike))
                 ) and not any(isinstance(x, int) for x in a):
        raise core.SimUnsupported(f"{name} outside the scratch disk: {a}")
      if self.dead:
        raise core.SimCrash()
      return _REAL[name](*a, **k)

    return f

  def seams(self):
    out = [(builtins, "open", self._open), (io, "open", self._open),
           (_io, "open", self._open), (os, "open", self._os_open),
           (os, "write", self._os_write), (os, "close", self._os_close),
           (os, "fsync", self._fsync), (os, "replace", self._replace),
           (os, "rename", self._replace), (os, "remove", self._remove),
           (os, "unlink", self._remove), (os, "mkdir", self._mkdir),
           (os, "scandir", self._scandir), (os, "listdir", self._listdir)]
    if "fdatasync" in _REAL:
      out.append((os, "fdatasync", self._fsync))
    if "sync" in _REAL:
      out.append((os, "sync", self._sync))
    for n in ("rmdir", "truncate", "ftruncate", "link", "symlink"):
      out.append((os, n, self._unsupported(n)))
    return out

  # -- what the harness sees ----------------------------------------------
  def read(self, rel):
    try:
      with _REAL["io_open"](self.path(rel), "rb") as f:
        return f.read()
    except OSError:
      return None

  def put(self, rel, data):
    p = self.path(rel)
    _mkdirs(os.path.dirname(p))
    with _REAL["io_open"](p, "wb") as f:
      f.write(data)
    self.sync_all()

  def listing(self):
    return sorted(map(self.rel, _files(self.root)))
