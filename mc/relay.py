"""The connection handlers of the proxies on in-memory connections, under a script and a schedule.

A script is a list of moments, a moment is a tuple of events which become visible together; the next moment comes when
every thread waits.  Events (k is the number of the connection):
  ("connect", k)                a client connects to the proxy
  ("refuse",)                   from now on the broker refuses connections
  ("c", k, bytes), ("s", k, bytes)   bytes from the client, from the broker
  ("eof", k, side), ("rst", k, side) the client ("c") or the broker ("s") closes, or resets, its connection
  ("room", n)                   from now on a send takes at most n bytes
  ("break",)                    the control message of the restart proxy
"""
import sys, types, socket as real_socket
from . import env, sched
from .env import Env


def modules():
  "the proxy modules, with stand-ins for what is not installed"
  if "paho" not in sys.modules:
    paho, m, c = types.ModuleType("paho"), types.ModuleType("paho.mqtt"), types.ModuleType("paho.mqtt.client")
    class Client:
      def __init__(self, *a, **k): pass
      def __getattr__(self, name): return lambda *a, **k: None
    c.Client = Client
    paho.mqtt, m.client = m, c
    sys.modules.update({"paho": paho, "paho.mqtt": m, "paho.mqtt.client": c})
  import mqtt.proxy.mqttsas, mqtt.restart.netproxy
  return {"mqttsas": mqtt.proxy.mqttsas, "netproxy": mqtt.restart.netproxy}


class End:
  "one end of the proxy: what happens on its socket"

  def __init__(self, conn, side):
    self.conn, self.side = conn, side
    self.inb = b""        # arrived, not yet read
    self.all = b""        # everything that arrived
    self.out = b""        # sent by the proxy
    self.eof = self.rst = self.down = self.closed = False
    self.waiting = False  # in recv


class Sock:
  def __init__(self, run, end):
    self.run, self.end = run, end
    self.refs = 0
    self.shut = False     # close was called
    self.timeout = None

  def __repr__(self):
    return "<socket %s>" % ("[closed] fd=-1" if self.shut else "fd=7")

  def __del__(self):
    if self.end is not None:
      self.end.closed = True

  def fileno(self):
    return -1 if self.end is not None and self.end.closed else 7 + id(self.end) % 1000

  def settimeout(self, t):
    self.timeout = t

  def gettimeout(self):
    return self.timeout

  def setblocking(self, b):
    self.timeout = None if b else 0

  def setsockopt(self, *a):
    pass

  def getpeername(self):
    return ("127.0.0.1", 40000)

  getsockname = getpeername

  def makefile(self, *a, **k):
    self.refs += 1
    sock = self
    class F:
      closed = False
      def flush(self): pass
      def close(self):
        if not self.closed:
          self.closed = True
          sock.refs -= 1
          sock.really()
      def read(self, n): return sock.recv(n)
    return F()

  def connect(self, address):
    self.run.connects(self, address)

  def readable(self):
    e = self.end
    return bool(e.inb) or e.eof or e.rst or e.down

  def check(self):
    if self.end is None:
      raise OSError(107, "Transport endpoint is not connected")
    if self.end.closed:
      raise OSError(9, "Bad file descriptor")

  def recv(self, n, flags=0):
    self.check()
    s = self.run.s
    s.point()
    e = self.end
    if not self.readable():
      e.waiting = True
      t = self.run.ticks
      s.wait(lambda: self.readable() or e.closed or self.timeout is not None and self.run.ticks > t)
      e.waiting = False
    self.check()
    if e.inb:
      r = e.inb[:n]
      if not flags & real_socket.MSG_PEEK:
        e.inb = e.inb[n:]
      return r
    if e.rst:
      raise ConnectionResetError(104, "Connection reset by peer")
    if e.eof or e.down:
      self.run.empty += 1
      if self.run.empty > 500:
        self.run.error = "reads on and on after the end of the connection"
        raise sched.Killed()
      return b""
    raise TimeoutError("timed out")

  def send(self, data, flags=0):
    self.check()
    self.run.s.point()
    e = self.end
    if e.down:
      raise BrokenPipeError(32, "Broken pipe")
    if e.rst:
      raise ConnectionResetError(104, "Connection reset by peer")
    k = len(data) if self.run.room is None else min(len(data), self.run.room)
    e.out += bytes(data[:k])
    return k

  def sendall(self, data, flags=0):
    data = bytes(data)
    while data:
      data = data[self.send(data):]

  def shutdown(self, how):
    self.check()
    if self.end.down or self.end.rst:
      raise OSError(107, "Transport endpoint is not connected")
    if how in (real_socket.SHUT_RD, real_socket.SHUT_RDWR):
      self.end.down = True

  def close(self):
    self.shut = True
    self.really()

  def really(self):
    if self.shut and self.refs == 0 and self.end is not None:
      self.end.closed = True

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.close()


class SocketModule:
  "the socket module for the code under test"

  def __init__(self, run):
    self.run = run

  def __getattr__(self, name):
    return getattr(real_socket, name)

  def socket(self, *a, **k):
    return Sock(self.run, None)

  def create_connection(self, address, *a, **k):
    s = Sock(self.run, None)
    s.connect(address)
    return s


class SelectModule:
  def __init__(self, run):
    self.run = run

  def __getattr__(self, name):
    import select
    return getattr(select, name)

  def select(self, r, w, x, timeout=None):
    return self.run.select(r, w, x, timeout)


class Conn:
  def __init__(self, k):
    self.k = k
    self.c, self.s = End(self, "c"), End(self, "s")
    self.connected = self.refused = self.broken = False
    self.ended = []      # what ended it

ADDRESS = ("broker.example", 11883)


class Relay:
  """runs a script; self.error is the first thing wrong"""

  def __init__(self, name, script, schedule=None, conns=1, mode="lines"):
    self.name = name
    self.m = modules()[name]
    self.script = list(script)
    self.pos = 0
    self.room = None
    self.refuse = False
    self.ticks = self.empty = 0
    self.error = None
    self.last = None
    self.breaks = self.broken = 0
    self.conns = [Conn(k) for k in range(conns)]
    self.open = [False] * conns
    self.names = {}
    self.bykth = {}
    s = self.s = sched.Sched(schedule or {}, mode)
    for k in range(conns):
      s.add("c%d" % k, lambda k=k: self.client(k))
    if any(e[0] == "break" for moment in self.script for e in moment):
      s.add("control", self.control)
    s.on_idle = self.idle

  def connects(self, sock, address):
    k = self.k()
    self.s.point()
    if self.refuse or self.conns[k].s.eof:
      self.conns[k].refused = True
      raise ConnectionRefusedError(111, "Connection refused")
    if tuple(address) != ADDRESS:
      self.error = "connects to %r" % (address,)
    sock.end = self.conns[k].s
    self.conns[k].connected = True
    self.last = k

  def k(self):
    return int(self.s.me()[1:])

  # ---------------------------------------------------------------- threads
  def client(self, k):
    while not self.open[k]:
      self.s.wait(lambda: self.open[k])
    sock = Sock(self, self.conns[k].c)
    srv = self.server()
    srv.process_request_thread(sock, ("127.0.0.1", 40000 + k))
    del sock

  def server(self):
    m = self.m
    S = m.ThreadingTCPServer
    handler = m.MyHandler if hasattr(m, "MyHandler") else m.MQTTHandler
    srv = S.__new__(S)
    srv.RequestHandlerClass = handler
    srv.server_address = ("", 1884)
    srv.handle_error = lambda request, address: None
    return srv

  def control(self):
    while True:
      self.s.wait(lambda: self.breaks > self.broken)
      self.broken += 1
      if self.last is not None and not self.conns[self.last].ended:
        self.conns[self.last].ended.append("break")
      cb = self.m.ControlBrokers.__new__(self.m.ControlBrokers)
      cb.messages = []
      class Msg: payload, topic = b"break", "x"
      cb.on_message(None, None, Msg)

  def select(self, r, w, x, timeout=None):
    self.s.point()
    for q in list(r) + list(w) + list(x):
      if q.fileno() < 0:
        raise ValueError("file descriptor cannot be a negative integer (-1)")
    t = self.ticks
    def ready():
      return any(q.readable() for q in r) or bool(w) or timeout is not None and (timeout == 0 or self.ticks > t)
    n = 0
    if not ready():
      self.s.wait(ready)
    self.selects = getattr(self, "selects", 0) + 1
    if self.selects > 20000:
      self.error = "select is called over and over"
      raise sched.Killed()
    return [q for q in r if q.readable()], list(w), []

  # ---------------------------------------------------------------- time
  def idle(self):
    "everybody waits"
    if self.error is None:
      self.error = self.judge()
    if self.error is not None:
      return False
    if self.pos < len(self.script):
      for e in self.script[self.pos]:
        self.event(e)
      self.pos += 1
      return True
    if self.ticks < 5:
      self.ticks += 1
      Env.now += 60
      return True
    return False

  def event(self, e):
    if e[0] == "connect":
      self.open[e[1]] = True
    elif e[0] == "refuse":
      self.refuse = True
    elif e[0] in ("c", "s"):
      end = getattr(self.conns[e[1]], e[0])
      if not end.eof and not end.rst and not end.closed:
        end.inb += e[2]
        end.all += e[2]
    elif e[0] in ("eof", "rst"):
      conn = self.conns[e[1]]
      end = getattr(conn, e[2])
      if not end.closed:
        setattr(end, e[0], True)
        conn.ended.append(e[0] + e[2])
    elif e[0] == "room":
      self.room = e[1]
    elif e[0] == "break":
      self.breaks += 1

  # ---------------------------------------------------------------- oracle
  def expected(self, conn, side):
    "(bytes of the whole packets, rest, what ends it)"
    buf = getattr(conn, side).all
    at = 0
    while True:
      p = cut(buf[at:])
      if p is None:
        return buf[:at], buf[at:], None
      if p == 0:
        return buf[:at], b"", "bad"
      if side == "c" and self.name == "mqttsas" and terminates(buf[at:at + p]):
        return buf[:at], b"", "terminate"
      at += p

  def judge(self):
    for conn in self.conns:
      if not self.open[conn.k]:
        continue
      done = self.s.state["c%d" % conn.k] == "done"
      what = "connection %d, after moment %d: " % (conn.k, self.pos)
      c, crest, cend = self.expected(conn, "c")
      s, srest, send = self.expected(conn, "s")
      ended = list(conn.ended)
      if cend: ended.append(cend)
      if send: ended.append(send)
      if conn.refused or not conn.connected:
        ended.append("refused")
        c = b""
      if conn.c.closed != done:
        return what + "the client's connection is %s" % ("closed, but its handler goes on" if conn.c.closed else "left open")
      if "bad" in ended:
        c, s = conn.c.all, conn.s.all
      for side, want, got in (("to the broker", c, conn.s.out), ("to the client", s, conn.c.out)):
        if not want.startswith(got):
          return what + "passed on %s: %r instead of %r" % (side, got, want)
      if conn.c.waiting and not crest or conn.s.waiting and not srest:
        return what + "waits for one side only"
      stuck = conn.c.waiting or conn.s.waiting
      if not ended:
        if done:
          return what + "ended without a reason"
        if not stuck and (conn.s.out != c or conn.c.out != s):
          return what + "not everything was passed on: %r of %r to the broker, %r of %r to the client" % (conn.s.out, c, conn.c.out, s)
      elif not stuck and "bad" not in ended:
        if not done:
          return what + "goes on after %s" % ended
      if done:
        if conn.connected and not conn.s.closed:
          return what + "the connection to the broker was left open after %s" % ended
        if ended in (["eofc"], ["eofc", "terminate"], ["terminate"]) and conn.s.out != c:
          return what + "the client's last packets were not passed on: %r of %r" % (conn.s.out, c)
        if ended == ["eofs"] and conn.c.out != s:
          return what + "the broker's last packets were not passed on: %r of %r" % (conn.c.out, s)
    return None

  def go(self, traced=False):
    Env.reset()
    m = self.m
    m.socket, m.select = SocketModule(self), SelectModule(self)
    m.brokerhost, m.brokerport = ADDRESS
    m.print = lambda *a, **k: None
    if traced and not sched._codes:
      sched.instrument((m.__file__,))
    for f in ("brokers", "clients"):
      if hasattr(m, f):
        setattr(m, f, None)
    s = self.s
    s.run()
    log, steps = s.log, s.steps
    if self.error is None and s.errors:
      self.error = "; ".join(s.errors)
    if self.error is None and s.blocked:
      self.error = "deadlock"
    if self.error is None and self.pos < len(self.script):
      self.error = "stopped after moment %d" % self.pos
    self.outcome = self.results()
    s.end()
    Env.active = False
    self.log, self.steps = log, steps
    return self

  def results(self):
    return "; ".join("%d>%d %d>%d %s" % (len(x.c.all), len(x.s.out), len(x.s.all), len(x.c.out), ",".join(x.ended)) for x in self.conns)


def cut(buf):
  "length of the first packet in buf, None if it is not complete, 0 if its length field is too long"
  n, i, mult = 0, 1, 1
  while True:
    if i >= len(buf):
      return None
    n += (buf[i] & 127) * mult
    mult *= 128
    i += 1
    if not buf[i - 1] & 128:
      break
    if i == 5:
      return 0
  return i + n if len(buf) >= i + n else None


def terminates(p):
  from . import wire
  try:
    d = wire.decode(3, p)
  except Exception:
    return False
  return bool(d) and d.get("type") == "PUBLISH" and d["topic"] == "MQTTSAS topic" and d["payload"] == b"TERMINATE"
