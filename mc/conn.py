"""Connections through the real TCP listener: its handler runs on an in-memory connection under a script.

A script is a list of events:
  ("seg", bytes)    bytes arrive
  ("eof",), ("rst",)  the client closes, or resets, the connection
  ("tick", s)       s seconds pass
  ("pass", s)       s seconds pass, and the next event happens before the listener's wait times out
  ("do", c, bytes)  another client c (connected directly) sends a packet
  ("room", k)       from now on a send takes at most k bytes
  ("full", k)       after k more bytes sends time out
When the script ends, the server is stopped.  Waiting (select, or a read without a time limit) executes the script
up to the next event which makes data available.  A read with a time limit finds the next segment only
if nothing else comes before it.
"""
from . import wire, env
from .env import Env
from .world import World, FakeSock


class Stuck(BaseException):
  pass


class Conn:
  "what the listener gets from accept"

  def __init__(self, run):
    self.run = run
    self.inb = b""
    self.eof = self.rst = False
    self.out = b""
    self.closed = False       # shutdown or close called
    self.closed_early = False # ... before the script ended
    self.timeout = None
    self.room = None
    self.left = None
    self.idle_reads = 0
    self.after_failure = False
    self.failed = False

  def fileno(self):
    return -1 if self.closed == "close" else 9

  def settimeout(self, t):
    self.timeout = t

  def gettimeout(self):
    return self.timeout

  def setblocking(self, b):
    self.timeout = None if b else 0

  def setsockopt(self, *a):
    pass

  def getpeername(self):
    return ("127.0.0.1", 40000)

  getsockname = getpeername

  def readable(self):
    return bool(self.inb) or self.eof or self.rst or bool(self.closed)

  def recv(self, n, flags=0):
    if self.closed == "close":
      raise OSError(9, "Bad file descriptor")
    while not self.inb and not self.eof and not self.rst and not self.closed:
      if self.timeout is not None:
        ev = self.run.peek()
        if ev is None or ev[0] not in ("seg", "eof", "rst"):
          raise TimeoutError("timed out")
      if not self.run.event():
        self.run.blocked = True
        raise OSError("the server was stopped in a read")
    if self.rst and not self.inb:
      raise ConnectionResetError(104, "Connection reset by peer")
    if not self.inb:
      self.idle_reads += 1
      if self.idle_reads > 2000:
        self.run.stuck = True
        raise Stuck("reads on and on after the end of the connection")
      return b""
    r, self.inb = self.inb[:n], self.inb[n:]
    return r

  def send(self, data, flags=0):
    if self.closed:
      raise OSError(32, "Broken pipe")
    if self.rst:
      raise ConnectionResetError(104, "Connection reset by peer")
    k = len(data)
    if self.room is not None:
      k = min(k, self.room)
    if self.left is not None:
      k = min(k, self.left)
      if k == 0 and len(data) > 0:
        self.failed = True
        raise TimeoutError("timed out")
      self.left -= k
    if self.failed:
      self.after_failure = True
    self.out += bytes(data[:k])
    return k

  def sendall(self, data):
    data = bytes(data)
    while data:
      data = data[self.send(data):]

  def shutdown(self, how):
    if self.closed:
      raise OSError(107, "not connected")
    self.closed = "shutdown"
    self.closed_early = not self.run.ended

  def close(self):
    if not self.closed:
      self.closed_early = not self.run.ended
    self.closed = "close"

  def makefile(self, *a, **k):
    import io
    return io.BytesIO()


class TLSConn(Conn):
  "bytes which were received together are not seen by select once the first of them was read"

  def __init__(self, run):
    Conn.__init__(self, run)
    self.record = b""

  def readable(self):
    return Conn.readable(self)

  def pending(self):
    return len(self.record)

  def recv(self, n, flags=0):
    if not self.record:
      r = Conn.recv(self, 16384)
      if not r:
        return r
      self.record = r
    r, self.record = self.record[:n], self.record[n:]
    return r


class Run:
  """one connection through the listener, with observers connected directly to the brokers"""

  def __init__(self, observers=(), options=None, tls=False, pre=()):
    self.w = World(dict((c, v) for c, v in observers), options)
    self.obs = {}
    from mqtt.brokers.listeners import TCPListeners
    self.L = TCPListeners
    self.L.setBrokers(self.w.b3, self.w.b5)
    for c, v in observers:
      self.obs[c] = FakeSock(c)
    self.conn = (TLSConn if tls else Conn)(self)
    self.script = []
    self.pos = 0
    self.ended = self.blocked = self.stuck = False
    self.selects = 0
    for c, data in pre:
      self.send(c, data)

  def broker(self, c):
    return self.w.b5 if self.w.clients[c] == 5 else self.w.b3

  def send(self, c, data):
    s = self.obs[c]
    s.inb += data
    while s.inb and not s.closed:
      self.broker(c).handleRequest(s)

  def peek(self):
    return self.script[self.pos] if self.pos < len(self.script) else None

  def event(self):
    "performs the next event; False if there is none"
    ev = self.peek()
    if ev is None:
      self.ended = True
      self.L.server.terminate = True
      return False
    self.pos += 1
    c = self.conn
    if ev[0] == "seg":
      c.inb += ev[1]
    elif ev[0] == "eof":
      c.eof = True
    elif ev[0] == "rst":
      c.rst = True
    elif ev[0] in ("tick", "pass"):
      Env.now += ev[1]
    elif ev[0] == "do":
      self.send(ev[1], ev[2])
    elif ev[0] == "room":
      c.room = ev[1]
    elif ev[0] == "full":
      c.left = ev[1]
    return True

  def select(self, r, w, x, timeout=None):
    self.selects += 1
    if self.selects > 20000:
      self.stuck = True
      raise Stuck("select is called over and over")
    for s in list(r) + list(w):
      if (s if isinstance(s, int) else s.fileno()) < 0:
        raise ValueError("file descriptor cannot be a negative integer (-1)")
    while not self.conn.readable():
      ev = self.peek()
      if ev is None:
        self.event()
        return [], [], []
      self.event()
      if ev[0] == "tick":
        return [], [], []
    return list(r), [], []

  def go(self, script):
    self.script = list(script)
    class S: terminate = False
    self.L.server = S()
    Env.on_select = self.select
    h = self.L.WebSocketTCPHandler.__new__(self.L.WebSocketTCPHandler)
    h.request, h.client_address, h.server = self.conn, ("127.0.0.1", 40000), self.L.server
    try:
      h.handle()
    except Stuck:
      pass
    self.returned = True
    while self.pos < len(self.script):   # the connection is gone, the rest of the world is not
      ev = self.script[self.pos]
      self.pos += 1
      if ev[0] == "do":
        self.send(ev[1], ev[2])
      elif ev[0] in ("tick", "pass"):
        Env.now += ev[1]
    self.ended = True
    return self

  def others(self):
    return dict((c, b"".join(s.out)) for c, s in self.obs.items())


def direct(ver, script, observers=(), options=None, pre=()):
  """The same packets given to the broker directly: events ("pkt", bytes), ("eof",), ("tick", s), ("do", c, bytes).
  Returns (bytes sent, closed by the broker, bytes sent to the others)"""
  w = World(dict((c, v) for c, v in observers), options)
  obs = dict((c, FakeSock(c)) for c, v in observers)
  s = FakeSock("x")
  b = w.b5 if ver == 5 else w.b3
  def send(c, data):
    o = obs[c]
    o.inb += data
    bb = w.b5 if w.clients[c] == 5 else w.b3
    while o.inb and not o.closed:
      bb.handleRequest(o)
  for c, data in pre:
    send(c, data)
  sent = None
  for ev in script:
    if ev[0] == "pkt" and not s.closed:
      s.inb += ev[1]
      while s.inb and not s.closed:
        b.handleRequest(s)
    elif ev[0] == "eof" and not s.closed:
      s.eof = True
      b.handleRequest(s)
    elif ev[0] == "tick":
      Env.now += ev[1]
      if not s.closed:
        w.b3.keepalive(s)
        w.b5.keepalive(s)
    elif ev[0] == "do":
      send(ev[1], ev[2])
  return b"".join(s.out), s.closed, dict((c, b"".join(o.out)) for c, o in obs.items())


# ---------------------------------------------------------------- websocket framing, client side
GUID = b"258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
KEY = b"dGhlIHNhbXBsZSBub25jZQ=="
ACCEPT = b"s3pPLMBiTxaQ9kYGzzhZRbK+xOo="    # from RFC 6455

HANDSHAKE = (b"GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + KEY +
             b"\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\n\r\n")


def frame(data, opcode=2, fin=True, mask=b"\x37\xfa\x21\x3d", masked=True):
  n = len(data)
  h = bytes([(0x80 if fin else 0) | opcode])
  m = 0x80 if masked else 0
  if n < 126:
    h += bytes([m | n])
  elif n < 65536:
    h += bytes([m | 126]) + n.to_bytes(2, "big")
  else:
    h += bytes([m | 127]) + n.to_bytes(8, "big")
  if not masked:
    return h + data
  if n > 1000:
    key = (mask * (n // 4 + 1))[:n]
    return h + mask + (int.from_bytes(data, "big") ^ int.from_bytes(key, "big")).to_bytes(n, "big")
  return h + mask + bytes(b ^ mask[i % 4] for i, b in enumerate(data))


class BadFrame(Exception):
  pass


def unhandshake(out):
  "checks the answer to the handshake, returns what follows"
  i = out.find(b"\r\n\r\n")
  if i < 0:
    raise BadFrame("no answer to the handshake: %r" % out[:200])
  lines = out[:i].split(b"\r\n")
  if not lines[0].startswith(b"HTTP/1.1 101"):
    raise BadFrame("the handshake was answered with %r" % lines[0])
  h = {}
  for l in lines[1:]:
    k, v = l.split(b":", 1)
    h[k.strip().lower()] = v.strip()
  if h.get(b"upgrade", b"").lower() != b"websocket" or b"upgrade" not in h.get(b"connection", b"").lower() or \
     h.get(b"sec-websocket-accept") != ACCEPT or h.get(b"sec-websocket-protocol") != b"mqtt":
    raise BadFrame("wrong answer to the handshake: %r" % out[:i])
  return out[i+4:]


def unframe(out):
  "server frames: [(opcode, payload)], incomplete rest"
  res = []
  while True:
    if len(out) < 2:
      return res, out
    if out[0] & 0x70:
      raise BadFrame("reserved bits set in a frame")
    if out[1] & 0x80:
      raise BadFrame("the server must not mask its frames")
    n, i = out[1] & 127, 2
    if n == 126:
      n, i = int.from_bytes(out[2:4], "big"), 4
      if len(out) >= 4 and n < 126:
        raise BadFrame("length not minimal")
    elif n == 127:
      n, i = int.from_bytes(out[2:10], "big"), 10
      if len(out) >= 10 and n < 65536:
        raise BadFrame("length not minimal")
    if len(out) < i + n:
      return res, out
    op = out[0] & 15
    if op not in (0, 2, 8, 9, 10):
      raise BadFrame("frame with opcode %d" % op)
    res.append((op, out[i:i+n]))
    out = out[i+n:]


# ---------------------------------------------------------------- sessions used by several checks
OBS = (("o", 5),)


def observer(filters=("a", "w")):
  e = lambda d: wire.encode(5, d)
  return (("o", e({"type": "CONNECT", "clientid": "o", "keepalive": 0})),
          ("o", e({"type": "SUBSCRIBE", "id": 1, "filters": [(f, 0) for f in filters], "props": []})))


def session(ver, payload=b"p", clientid="x", keepalive=60):
  "packets of one session (without its end)"
  e = lambda d: wire.encode(ver, d)
  return [e({"type": "CONNECT", "clientid": clientid, "keepalive": keepalive, "will": {"topic": "w", "payload": b"gone", "qos": 0, "retain": False, "props": []}}),
          e({"type": "SUBSCRIBE", "id": 1, "filters": [("a", 1)], "props": []}),
          e({"type": "PUBLISH", "topic": "a", "qos": 1, "payload": payload, "id": 7, "retain": False, "dup": False}),
          e({"type": "PUBACK", "id": 1}),
          b"\xc0\x00"]


def verdict(r, ref, ws=False, closed=None):
  """compares a Run with the direct result; returns an error or None.
  closed: whether the connection must have been ended by the server (default: as the direct one)"""
  out, rclosed, others = ref
  if r.stuck:
    return "the listener never stops: it loops without waiting"
  if r.blocked:
    return "the listener waits in a read for ever, and does not notice the passing of time"
  got = r.conn.out
  if ws:
    try:
      got = unhandshake(got)
      frames, rest = unframe(got)
    except BadFrame as e:
      return str(e)
    if rest and not r.conn.failed:
      return "an incomplete frame was sent: %r" % rest
    got = b"".join(d for o, d in frames if o in (0, 2))
  if got != out:
    return "the client gets %r, directly it is %r" % (got, out)
  o = r.others()
  if o != others:
    return "another client gets %r, directly it is %r" % (o, others)
  want = rclosed if closed is None else closed
  if bool(r.conn.closed_early) != want:
    return "the connection is %s, it should be %s" % (("closed", "open") if want is False else ("open", "closed"))
  if r.conn.closed != "close":
    return "the connection is never closed"
  return None
