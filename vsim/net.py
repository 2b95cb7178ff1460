"""Simulated network: one HTTP server behind the sockets that urllib3 opens.
The bytes of a connection arrive in seeded pieces at seeded moments of virtual
time, and the connection fails where the plan says"""
import io
import socket

import urllib3.connection
import urllib3.util.connection

from vsim import core


class Plan:
  """What happens to one request"""

  def __init__(self, kind="ok", status=200, headers=(), body=b"", at=None,
               chunked=False):
    self.kind = kind  # ok, reset, stall, close
    self.status, self.headers, self.body = status, list(headers), body
    self.at = at  # fraction of the response after which it fails
    self.chunked = chunked


class SimSocket(io.RawIOBase):

  def __init__(self, net):
    super().__init__()
    self.net = net
    self.sent = b""
    self.data = b""
    self.plan = None
    self.fail_at = None
    self.pos = 0
    self.timeout = None
    self.gone = False

  # -- what http.client and urllib3 use -----------------------------------
  def settimeout(self, t):
    self.timeout = t

  def gettimeout(self):
    return self.timeout

  def setsockopt(self, *a):
    pass

  def getsockname(self):
    return ("10.0.0.2", 40000)

  def shutdown(self, how):
    self.gone = True

  def makefile(self, mode="rb", buffering=None, **_):
    return io.BufferedReader(_View(self))

  def sendall(self, data, *a):
    net = self.net
    self.sent += bytes(data)
    while b"\r\n\r\n" in self.sent:
      head, self.sent = self.sent.split(b"\r\n\r\n", 1)
      line = head.split(b"\r\n")[0].decode("latin-1").split(" ")
      host = [h.split(b":", 1)[1].strip().decode("latin-1")
              for h in head.split(b"\r\n")[1:] if h.lower().startswith(b"host")]
      net.run.ev("http", line[0], host[:1], line[1])
      self._answer(net.request(line[0], host[0] if host else "", line[1]))

  def _answer(self, plan):
    self.plan = plan
    body = plan.body
    h = [f"HTTP/1.1 {plan.status} X", *plan.headers]
    if plan.chunked:
      h.append("Transfer-Encoding: chunked")
      out, i = [], 0
      while i < len(body):
        k = self.net.run.c.choice((17, 400, 3000))
        part = body[i:i + k]
        out.append(b"%x\r\n%b\r\n" % (len(part), part))
        i += k
      body = b"".join(out) + b"0\r\n\r\n"
    else:
      h.append(f"Content-Length: {len(body)}")
    head = "\r\n".join(h).encode("latin-1") + b"\r\n\r\n"
    data = head + body
    self.data = data
    self.pos = 0
    self.fail_at = None
    if plan.kind != "ok":
      self.fail_at = min(int(plan.at * len(data)), len(data) - 1)
      if plan.kind == "close" and 0 < self.fail_at < len(head):
        self.fail_at = len(head)  # a torn header may be a valid shorter one

  def recv_into(self, buf):
    net = self.net
    limit = len(self.data) if self.fail_at is None else self.fail_at
    if self.plan is not None and self.pos >= limit and (
        self.fail_at is not None):
      kind = self.plan.kind
      net.run.fault("net-" + kind, f"after {self.pos} of {len(self.data)}")
      self.gone = True
      if kind == "reset":
        raise ConnectionResetError(104, "Connection reset by peer")
      if kind == "stall":
        if self.timeout is None:
          raise core.SimUnsupported("waits without a time limit")
        net.pass_time(self.timeout)
        raise socket.timeout("timed out")
      self.plan, self.data = None, b""
      return 0
    if self.pos >= limit:
      return 0
    c = net.run.c
    n = min(len(buf), limit - self.pos, c.choice((1 << 16, 1460, 97, 11)))
    if c.prob(0.05):  # slow, but within any reasonable limit
      net.pass_time(c.choice((0.2, 5.0, 20.0)))
    buf[:n] = self.data[self.pos:self.pos + n]
    self.pos += n
    return n


class _View(io.RawIOBase):

  def __init__(self, sock):
    self.sock = sock

  def readable(self):
    return True

  def readinto(self, b):
    return self.sock.recv_into(memoryview(b))


class Net:
  """request(method, host, path) -> Plan decides what the server does;
  connect(host) may raise what connecting raises"""

  def __init__(self, run, sched, request, connect=lambda host, timeout: None):
    self.run, self.sched = run, sched
    self.request = request
    self.connect = connect
    self.connections = 0

  def pass_time(self, dt):
    self.run.ev("net waits", dt)
    self.sched.sleep(dt)

  def _create(self, address, timeout=None, source_address=None,
              socket_options=None):
    self.connections += 1
    self.run.ev("connect", *address)
    self.connect(address[0], timeout)
    s = SimSocket(self)
    s.settimeout(timeout)
    return s

  def seams(self):
    def real(*a, **k):
      raise core.SimUnsupported("real network")
    return [(urllib3.util.connection, "create_connection", self._create),
            (urllib3.connection, "wait_for_read",
             lambda sock, timeout=None: sock.gone),
            (socket, "create_connection", real),
            (socket, "getaddrinfo", real)]
