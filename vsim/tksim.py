"""Simulated Tk: an interpreter object in place of `_tkinter`'s, under the real
tkinter, ttk and ttkthemes packages. It keeps widgets, variables, traces,
bindings and timers; it draws nothing. Events come from the harness, in the
main loop and wherever the code under test asks Tk to process events."""
import _tkinter
import re
import tkinter

from vsim import core

TclError = _tkinter.TclError
_MISS = object()


class ProcEnd(BaseException):
  """The simulated process ended itself"""


class W:
  """A widget as Tk sees it"""

  def __init__(self, path, cls, opts):
    self.path, self.cls, self.opts = path, cls, opts
    self.binds = {}
    self.grid = {}
    self.tabs = []

  def __repr__(self):
    return f"<{self.cls} {self.path}>"


def _opts(args):
  d = {}
  args = list(args)
  while len(args) >= 2:
    k = args.pop(0)
    d[str(k).lstrip("-")] = args.pop(0)
  return d


def obj(v):
  """A Python value as a Tcl object"""
  if isinstance(v, (bool, int, float, str)):
    return v
  if isinstance(v, (tuple, list)):
    return tuple(obj(x) for x in v)
  return str(v)


def split(v):
  if isinstance(v, (tuple, list)):
    return tuple(v)
  out, cur, depth, braced = [], "", 0, False
  for ch in str(v):
    if ch == "{":
      depth += 1
      if depth == 1:
        braced = True
        continue
    elif ch == "}":
      depth -= 1
      if depth == 0:
        continue
    elif ch.isspace() and depth == 0:
      if cur or braced:
        out.append(cur)
      cur, braced = "", False
      continue
    cur += ch
  if cur or braced:
    out.append(cur)
  return tuple(out)


class Display:
  """All interpreters of one simulated process"""

  def __init__(self, run, user):
    self.run = run
    self.user = user  # user.mainloop(display), user.update(display)
    self.apps = []
    self.errors = []  # exceptions reported by Tk callbacks
    self.killed = False
    self.quitting = False
    self.depth = 0
    self.timers = {}
    self.n_timers = 0
    self.looping = 0

  # -- seam ---------------------------------------------------------------
  def create(self, *args):
    app = App(self)
    self.apps.append(app)
    return app

  def seams(self):
    display = self

    def report(self_, exc, val, tb):  # pylint: disable=W0613
      if not isinstance(val, Exception) or isinstance(val, core.Violation):
        raise val
      display.error(val)

    return [
        (tkinter._tkinter, "create", self.create),
        (tkinter.Tk, "report_callback_exception", report),
        (tkinter.Tk, "readprofile", lambda *a: None),
        (tkinter, "_default_root", None),
        (tkinter, "_varnum", 0),
        (tkinter, "_checkbutton_count", 1),
    ]

  def error(self, val):
    if self.killed:  # unwinding of a process that is dead
      raise ProcEnd(9)
    self.run.ev("callback-error", type(val).__name__, str(val)[:400])
    self.errors.append(val)

  # -- windows and timers -------------------------------------------------
  def windows(self):
    return [a for a in self.apps if a.alive]

  def timer(self, app, ms, script):
    self.n_timers += 1
    k = f"after#{self.n_timers}"
    self.timers[k] = (self.run.now + max(0, float(ms)) / 1000, self.n_timers,
                      app, script)
    return k

  def due(self):
    return sorted((v[:2], k) for k, v in self.timers.items()
                  if v[0] <= self.run.now and v[2].alive)

  def fire_timers(self):
    n = 0
    while self.due() and n < 100:
      n += 1
      _, k = self.due()[0]
      _, _, app, script = self.timers.pop(k)
      app.script(script)
    return n

  def next_timer(self):
    t = [v[0] for v in self.timers.values() if v[2].alive]
    return min(t) if t else None

  def mainloop(self):
    self.looping += 1
    self.quitting = False
    try:
      while self.windows() and not self.quitting:
        if self.fire_timers():
          continue
        t = self.next_timer()
        if not self.user.mainloop(self):
          if t is None:
            if self.errors:
              raise core.Violation(
                  "start-fails", f"{self.errors[0]!r} at "
                  f"{core.sut_site(self.errors[0])}")
            raise core.SimUnsupported("the user fell asleep")
          self.run.now = max(self.run.now, t)
    finally:
      self.looping -= 1

  def update(self):
    if self.depth >= 3:
      return
    self.depth += 1
    try:
      self.fire_timers()
      self.user.update(self)
    finally:
      self.depth -= 1


class App:
  """One interpreter"""

  def __init__(self, display):
    self.d = display
    self.vars = {"tk_version": _tkinter.TK_VERSION,
                 "tcl_version": _tkinter.TCL_VERSION}
    self.traces = {}
    self.cmds = {}
    self.widgets = {".": W(".", "toplevel", {})}
    self.protocols = {}
    self.images = {}
    self.theme = "default"
    self.alive = True

  # -- interpreter interface ----------------------------------------------
  def getvar(self, name):
    return self.globalgetvar(name)

  def setvar(self, name, value):
    self.globalsetvar(name, value)

  def globalgetvar(self, name):
    if name not in self.vars:
      raise TclError(f'can\'t read "{name}": no such variable')
    return self.vars[name]

  def globalsetvar(self, name, value):
    self.vars[str(name)] = obj(value)
    for modes, script in list(self.traces.get(str(name), ())):
      if "write" in modes or "w" in modes:
        self.script((*split(script), str(name), "", "write"))

  def globalunsetvar(self, name):
    self.vars.pop(name, None)
    self.traces.pop(name, None)

  unsetvar = globalunsetvar

  def createcommand(self, name, func):
    self.cmds[name] = func

  def deletecommand(self, name):
    if self.cmds.pop(name, None) is None:
      raise TclError("can't delete Tcl command")

  def splitlist(self, v):
    return split(v)

  def getboolean(self, v):
    if isinstance(v, (bool, int, float)):
      return bool(v)
    s = str(v).strip().lower()
    if s in ("1", "true", "yes", "on", "t", "y", "tr", "tru", "ye"):
      return True
    if s in ("0", "false", "no", "off", "f", "n", "of", "fa", "fal", "fals"):
      return False
    raise TclError(f'expected boolean value but got "{v}"')

  def getint(self, v):
    try:
      return int(v)
    except (TypeError, ValueError):
      raise ValueError(f'expected integer but got "{v}"') from None

  def getdouble(self, v):
    try:
      return float(v)
    except (TypeError, ValueError):
      raise ValueError(
          f'expected floating-point number but got "{v}"') from None

  def wantobjects(self):
    return True

  def loadtk(self):
    pass

  def interpaddr(self):
    return id(self)

  def willdispatch(self):
    pass

  def dooneevent(self, flags=0):  # pylint: disable=W0613
    self.d.update()
    return 1

  def mainloop(self, threshold=0):  # pylint: disable=W0613
    self.d.mainloop()

  def quit(self):
    self.d.run.ev("tk quit")
    self.d.quitting = True

  def eval(self, script):
    if "$ttk::currentTheme" in script:
      return self.theme
    if script.startswith("source "):
      return ""
    return self.call(*split(script))

  def script(self, s):
    """Run a command with arguments, or the script of a binding"""
    parts = split(s)
    f = self.cmds.get(str(parts[0]))
    if f is None:
      raise TclError(f'invalid command name "{parts[0]}"')
    return f(*parts[1:])

  # -- commands -----------------------------------------------------------
  def call(self, *args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
      args = tuple(args[0])
    if not self.alive and str(args[0]) not in ("info", "trace", "after"):
      raise TclError(f'can\'t invoke "{args[0]}" command: '
                     'application has been destroyed')
    name = str(args[0])
    if name in self.cmds:
      return self.cmds[name](*args[1:])
    if name.startswith("."):
      w = self.widgets.get(name)
      if w is None:
        raise TclError(f'invalid command name "{name}"')
      return self.widget(w, *args[1:])
    f = getattr(self, "do_" + re.sub(r"\W+", "_", name), None)
    if f is not None:
      return f(*args[1:])
    if len(args) > 1 and str(args[1]).startswith(".") and len(args) % 2 == 0:
      parent = str(args[1]).rpartition(".")[0] or "."
      if parent in self.widgets:
        return self.make(name, str(args[1]), args[2:])
    return ""

  def make(self, cls, path, opts):
    parent = path.rpartition(".")[0] or "."
    if parent not in self.widgets:
      raise TclError(f'bad window path name "{path}"')
    self.widgets[path] = W(path, cls, _opts(opts))
    return path

  def widget(self, w, sub="", *args):
    sub = str(sub)
    if sub in ("configure", "config"):
      if not args:
        return tuple((f"-{k}", k, k, "", v) for k, v in w.opts.items())
      if len(args) == 1:
        k = str(args[0]).lstrip("-")
        return (f"-{k}", k, k, "", w.opts.get(k, ""))
      w.opts.update(_opts(args))
      self.d.run.ev("tk", w.path, "configure", *sorted(_opts(args)))
      return ""
    if sub == "cget":
      return w.opts.get(str(args[0]).lstrip("-"), "")
    if sub == "create":
      return 1
    if sub == "add" and w.cls == "ttk::notebook":
      w.tabs.append((str(args[0]), _opts(args[1:])))
      return ""
    if sub == "add":
      w.tabs.append((str(args[0]), _opts(args[1:])))
      return ""
    if sub == "delete" and w.cls == "menu":
      w.tabs = []
      return ""
    if sub in ("bbox", "yview", "xview"):
      return (0, 0, 1, 1)
    if sub == "get":
      v = w.opts.get("textvariable")
      return self.vars.get(str(v), "") if v else ""
    if sub == "invoke" and w.opts.get("command"):
      return self.script(w.opts["command"])
    return ""

  def do_info(self, sub, name="", *a):
    if str(sub) == "exists":
      return str(name) in self.vars
    return ""

  def do_trace(self, op, what, name, modes=(), script="", *a):
    name = str(name)
    if op == "add":
      self.traces.setdefault(name, []).append((split(modes), script))
    elif op == "remove":
      self.traces[name] = [t for t in self.traces.get(name, ())
                           if split(t[1]) != split(script)]
    elif op == "info":
      return tuple((m, s) for m, s in self.traces.get(name, ()))
    elif op == "variable":
      self.traces.setdefault(str(what), []).append(((str(name),), modes))
    return ""

  def do_bind(self, tag, seq="", script=_MISS, *a):
    w = self.widgets.get(str(tag))
    if w is None or not seq:
      return ""
    if script is _MISS:
      return w.binds.get(str(seq), "")
    s = str(script)
    if s.startswith("+"):
      s = w.binds.get(str(seq), "") + "\n" + s[1:]
    w.binds[str(seq)] = s
    return ""

  def do_grid(self, *a):
    a = list(a)
    if a and str(a[0]) == "configure":
      a = a[1:]
    if a and str(a[0]) in self.widgets:
      self.widgets[str(a[0])].grid.update(_opts(a[1:]))
    return ""

  def do_after(self, ms, *a):
    ms = str(ms)
    if ms == "cancel":
      self.d.timers.pop(str(a[0]), None)
      return ""
    if ms == "info":
      t = self.d.timers.get(str(a[0]))
      if t is None:
        raise TclError(f'event "{a[0]}" doesn\'t exist')
      return (t[3], "timer")
    if ms == "idle":
      return self.d.timer(self, 0, a)
    if not a:
      self.d.run.now += float(ms) / 1000
      return ""
    return self.d.timer(self, float(ms), a)

  def do_update(self, *a):
    if not a:
      self.d.update()
    return ""

  def do_winfo(self, sub, *a):
    sub = str(sub)
    p = str(a[-1]) if a else "."
    if sub == "exists":
      return int(p in self.widgets)
    if p not in self.widgets:
      raise TclError(f'bad window path name "{p}"')
    if sub == "parent":
      return "" if p == "." else p.rpartition(".")[0] or "."
    if sub == "children":
      pre = "." if p == "." else p + "."
      return tuple(q for q in self.widgets
                   if q != "." and q.startswith(pre) and
                   "." not in q[len(pre):])
    if sub == "class":
      return self.widgets[p].cls
    if sub in ("name",):
      return p.rpartition(".")[2]
    if sub == "toplevel":
      return "."
    if sub in ("width", "height", "x", "y", "rootx", "rooty", "reqwidth",
               "reqheight", "ismapped", "viewable", "screenwidth",
               "screenheight", "pointerx", "pointery"):
      return 1
    return ""

  def do_destroy(self, *paths):
    for p in map(str, paths):
      pre = "." if p == "." else p + "."
      for q in [q for q in self.widgets if q == p or q.startswith(pre)]:
        w = self.widgets.pop(q)
        s = w.binds.get("<Destroy>")
        if s:
          self.fire(w, "<Destroy>")
      if p == ".":
        self.alive = False
        for k in [k for k, v in self.d.timers.items() if v[2] is self]:
          del self.d.timers[k]
    return ""

  def do_wm(self, sub, w=".", *a):
    if str(sub) == "protocol" and len(a) >= 2:
      self.protocols[str(w), str(a[0])] = a[1]
    return ""

  def do_image(self, sub, *a):
    if str(sub) == "create":
      return f"image{len(self.images)}"
    return ""

  def do_ttk_themes(self):
    import ttkthemes
    return tuple(ttkthemes.THEMES)

  def do_ttk_setTheme(self, name):
    self.theme = str(name)
    return ""

  def do_ttk_style(self, sub, *a):
    if str(sub) == "lookup":
      o = str(a[1])
      if self.theme == "radiance":
        return ""
      return {"-background": "#f5f6f7", "-foreground": "#5c616c"}.get(o, "")
    return ""

  def do_rename(self, *a):
    return ""

  # -- the harness's hands ------------------------------------------------
  def find(self, cls=None, text=None):
    """Widgets of a class with a text"""
    out = []
    for w in self.widgets.values():
      if cls is not None and w.cls.rpartition("::")[2] != cls:
        continue
      if text is not None and str(w.opts.get("text", "")) != text:
        continue
      out.append(w)
    return out

  def fire(self, w, seq, **ev):
    """Run the binding of an event"""
    s = w.binds.get(seq)
    if not s:
      return False
    for m in re.finditer(r'\[(\S+) %#', s):
      f = self.cmds.get(m.group(1))
      if f is None:
        raise TclError(f'invalid command name "{m.group(1)}"')
      f(1, 1, "??", 1, 0, 0, 0, 1, ev.get("x", 1), ev.get("y", 1), "", 0, "",
        0, w.path, 4, 1, 1, 0)
    return True

  def click(self, w):
    """Press and release the mouse over a button"""
    self.d.run.ev("click", w.path, w.opts.get("text", ""))
    if w.opts.get("state") == "disabled":
      return
    self.fire(w, "<Button-1>") or self.fire(w, "<ButtonPress-1>")
    self.fire(w, "<ButtonRelease-1>")
    if w.opts.get("command"):
      self.script(w.opts["command"])

  def type(self, w, text):
    """Replace the text of an entry"""
    self.d.run.ev("type", w.path, repr(text))
    v = w.opts.get("textvariable")
    if v:
      self.globalsetvar(str(v), text)
    self.fire(w, "<KeyRelease>")
    self.fire(w, "<Return>")

  def toggle(self, w):
    self.d.run.ev("toggle", w.path)
    v = str(w.opts.get("variable"))
    self.globalsetvar(v, not self.getboolean(self.vars.get(v, 0)))
    if w.opts.get("command"):
      self.script(w.opts["command"])

  def choose(self, w, text):
    """Pick an entry of an option menu"""
    self.d.run.ev("choose", w.path, text)
    v = w.opts.get("textvariable") or w.opts.get("variable")
    self.globalsetvar(str(v), text)

  def options(self, w):
    """Entries of an option menu"""
    m = self.widgets.get(str(w.opts.get("menu")))
    return [str(t[1].get("label")) for t in m.tabs] if m else []

  def close(self):
    """Close the window"""
    self.d.run.ev("close window")
    s = self.protocols.get((".", "WM_DELETE_WINDOW"))
    if s:
      self.script(s)
    else:
      self.do_destroy(".")
