"""The real client library against a scripted server, in lock step with a reference client.

The application runs on the exploring thread; the receiver thread of the library is a real thread which runs only while
the explorer waits for it (Puppet).  The server is the explorer: what the client sends is decoded by the reference
codec, what the server answers is an operation of the scenario.
"""
import _thread, threading, socket, copy
from . import env, wire, canon
from .env import Env
from .refbroker import Mismatch

REAL_SOCKET = socket.socket
REAL_START = _thread.start_new_thread


class Hook:
  factory = None     # makes the sockets of the code under test
  starter = None     # called for threads which it starts


def _socket(*a, **k):
  if Env.active and Hook.factory is not None:
    return Hook.factory()
  return REAL_SOCKET(*a, **k)


def _start(fn, args=(), kwargs=None):
  if Env.active and Hook.starter is not None:
    return Hook.starter(fn, args, kwargs or {})
  return REAL_START(fn, args, kwargs or {})


class _Meta(type(REAL_SOCKET)):
  def __call__(cls, *a, **k):
    if cls is Socket and Env.active and Hook.factory is not None:
      return Hook.factory()
    return super().__call__(*a, **k)


class Socket(REAL_SOCKET, metaclass=_Meta):
  "socket.socket, except in the code under test"


def install():
  if socket.socket is not Socket:
    socket.socket = Socket
    _thread.start_new_thread = _start
  import mqtt.clients.V5, mqtt.clients.V311


def module(ver):
  import mqtt.clients.V5, mqtt.clients.V311
  return mqtt.clients.V5 if ver == 5 else mqtt.clients.V311


class Killed(BaseException):
  pass


class Baton:
  def __init__(self):
    self.lock = _thread.allocate_lock()
    self.lock.acquire()

  def take(self, timeout=-1):
    return self.lock.acquire(True, timeout)

  def give(self):
    try:
      self.lock.release()
    except RuntimeError:
      pass


class Puppet:
  def __init__(self, world, fn, args, kwargs):
    self.world, self.fn, self.args, self.kwargs = world, fn, args, kwargs
    self.baton = Baton()
    self.cond = lambda: True
    self.napping = False
    self.done = False
    self.ident = None
    REAL_START(self.body, ())

  def body(self):
    self.baton.take()
    self.ident = threading.get_ident()
    self.world.puppet_of[self.ident] = self
    try:
      if not self.world.killing:
        self.fn(*self.args, **self.kwargs)
    except BaseException:
      pass
    self.done = True
    self.world.baton.give()

  def resume(self):
    self.baton.give()
    if not self.world.baton.take(20):
      self.world.errors.append("a thread of the client hangs")
      self.done = True

  def park(self, cond, napping=False):
    self.cond, self.napping = cond, napping
    self.world.baton.give()
    self.baton.take()
    self.napping = False
    if self.world.killing:
      raise Killed()


class Lock:
  def __init__(self, world):
    self.world, self.owner, self.n = world, None, 0

  def acquire(self, blocking=True, timeout=-1):
    me = threading.get_ident()
    if self.owner not in (None, me):
      if not blocking:
        return False
      p = self.world.puppet_of.get(me)
      if p:
        p.park(lambda: self.owner is None)
      else:
        self.world.pump()
      if self.owner is not None:
        self.world.errors.append("deadlock in the client")
        raise Mismatch("deadlock in the client")
    self.owner, self.n = me, self.n + 1
    return True

  def release(self):
    self.n -= 1
    if self.n <= 0:
      self.owner, self.n = None, 0

  def locked(self):
    return self.owner is not None

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *a):
    self.release()


class Sock:
  "the client's end of a connection"

  def __init__(self, world):
    self.world = world
    self.inb, self.out = b"", b""
    self.closed = self.down = self.eof = self.broken = False
    self.idle = 0
    self.timeout = None

  def settimeout(self, t):
    self.timeout = t

  def setsockopt(self, *a):
    pass

  def fileno(self):
    return -1 if self.closed else 9

  def connect(self, address):
    self.world.connected(self, address)

  def readable(self):
    return self.closed or self.down or self.eof or self.inb or self.idle

  def recv(self, n, flags=0):
    w = self.world
    w.reads += 1
    if w.reads > 20000:
      w.errors.append("the client reads on and on")
      raise Killed()
    if not self.readable():
      p = w.puppet_of.get(threading.get_ident())
      if p:
        p.park(self.readable)
      else:
        w.pump()
        if not self.readable():
          raise TimeoutError("timed out")
    if self.closed:
      raise OSError(9, "Bad file descriptor")
    if self.inb:
      k = min(n, w.step or n)
      r, self.inb = self.inb[:k], self.inb[k:]
      return r
    if self.eof or self.down:
      return b""
    self.idle -= 1
    raise TimeoutError("timed out")

  def send(self, data, flags=0):
    if self.closed or self.down:
      raise OSError(9, "Bad file descriptor")
    if self.broken:
      raise BrokenPipeError(32, "Broken pipe")
    if not data:
      self.world.errors.append("sends nothing")
    k = min(len(data), self.world.room or len(data))
    self.out += bytes(data[:k])
    self.world.sent(self)
    return k

  def sendall(self, data):
    while data:
      data = data[self.send(data):]

  def shutdown(self, how):
    if self.closed:
      raise OSError(9, "Bad file descriptor")
    self.down = True

  def close(self):
    self.closed = True

  def __str__(self):
    return "<client socket%s>" % (" [closed]" if self.closed else "")

  __repr__ = __str__


# ------------------------------------------------------------------ the client's state, however it is called
def _parts(client):
  "the client and the objects it is made of: [(path, object)]"
  res, todo, seen = [], [((), client)], set()
  while todo:
    path, o = todo.pop(0)
    if id(o) in seen or len(path) > 3:
      continue
    seen.add(id(o))
    res.append((path, o))
    for k, v in sorted(vars(o).items()):
      if hasattr(v, "__dict__") and type(v).__module__.startswith("mqtt.clients"):
        todo.append((path + (k,), v))
  return res


def _at(client, path):
  for k in path:
    client = getattr(client, k)
  return client


_anatomy = {}


def anatomy(ver):
  """where a client keeps its last packet id, (path, name, offset), and its unacknowledged publications, (path, name, example):
  found by watching it publish.  None for what is not found"""
  if ver not in _anatomy:
    w = ClientWorld(ver)
    try:
      w._do(("connect", True))
      ids = [w.client.publish("t", b"x", 1) for _ in range(2)]
      before = dict(((p, k), v) for p, o in _parts(w.client) for k, v in vars(o).items() if type(v) is int)
      ids.append(w.client.publish("t", b"x", 1))
      num = box = None
      for p, o in _parts(w.client):
        for k, v in sorted(vars(o).items()):
          if type(v) is int and before.get((p, k)) == v - 1 and v - ids[2] in (0, 1):
            num = num or (p, k, v - ids[2])
          elif type(v) in (dict, set, list) and len(v) == 3 and all(i in v for i in ids):
            box = box or (p, k, v[ids[2]] if type(v) is dict else None)
      _anatomy[ver] = num, box
    except Exception:
      _anatomy[ver] = None, None
    finally:
      w.end()
  return _anatomy[ver]


def find_anatomy():
  for v in (3, 5):
    anatomy(v)


def set_last_id(client, ver, i):
  "as if the last packet id used was i; returns whether that could be done"
  num = anatomy(ver)[0]
  if num:
    setattr(_at(client, num[0]), num[1], (i + num[2] - 1) % 65535 + 1)
  return num is not None


def occupy(client, ver, ids):
  "as if publications with these ids were unacknowledged"
  box = anatomy(ver)[1]
  if box:
    b = getattr(_at(client, box[0]), box[1])
    for i in ids:
      if type(b) is dict:
        b[i] = box[2]
      elif type(b) is set:
        b.add(i)
      else:
        b.append(i)
  return box is not None


def unacknowledged(client, ver):
  "the ids in the client's record of unacknowledged publications"
  box = anatomy(ver)[1]
  try:
    return sorted(getattr(_at(client, box[0]), box[1])) if box else []
  except AttributeError:
    return []      # the record is gone with the receiver


class Callbacks:
  def __init__(self, world):
    self.world = world
    self.answer = True

  def publishArrived(self, topicName, payload, qos, retained, msgid, properties=None):
    w = self.world
    pr = properties if w.ver == 5 else None
    ct = getattr(pr, "ContentType", None) if pr is not None else None
    w.events.append(("publishArrived", topicName, bytes(payload), qos, bool(retained), msgid if qos else None, ct))
    if self.answer == "publish":
      w.ids.append(w.client.publish("r", b"reply", 1))
      return True
    return self.answer

  def published(self, msgid):
    self.world.events.append(("published", msgid))

  def subscribed(self, msgid, data):
    self.world.events.append(("subscribed", msgid, [getattr(c, "value", c) for c in data]))

  def unsubscribed(self, msgid):
    self.world.events.append(("unsubscribed", msgid))

  def disconnected(self, reasoncode, properties=None):
    self.world.events.append(("disconnected", getattr(reasoncode, "value", reasoncode)))


class ClientWorld:
  def __init__(self, ver, callback=True, room=None, step=None, expiry=0, clientid="cl"):
    Env.reset()
    install()
    self.ver, self.room, self.step, self.expiry = ver, room, step, expiry
    self.baton = Baton()
    self.puppets, self.puppet_of = [], {}
    self.killing = False
    self.errors, self.events, self.ids = [], [], []
    self.reads = 0
    self.auto = False
    self.naps = 0
    Env.on_sleep = self.nap
    Env.on_lock = lambda kind: Lock(self)
    Hook.factory = lambda: Sock(self)
    Hook.starter = self.start
    self.sock = None
    self.connack = []
    self.addresses = []
    self.client = module(ver).Client(clientid)
    self.clientid = clientid
    if ver == 5:
      self.client.sessionexpiry = expiry
    self.cb = Callbacks(self) if callback else None
    if callback:
      self.client.registerCallback(self.cb)
    # the reference client
    self.online = False      # connected
    self.session = False     # it remembers a session
    self.clean = True
    self.out = []            # [id, qos, state "P" (wait for PUBACK or PUBREC) or "R" (PUBCOMP), message]
    self.inn = {}            # id -> message
    self.paused = False
    self.outcome = ""

  # ------------------------------------------------------------ the environment of the client
  def start(self, fn, args, kwargs):
    self.puppets.append(Puppet(self, fn, args, kwargs))
    return len(self.puppets)

  def connected(self, sock, address):
    self.sock = sock
    self.addresses.append(address)
    sock.eof = self.connack == ["eof"]
    sock.inb = b"" if sock.eof else b"".join(self.connack)

  def sent(self, sock):
    "complete packets become events"
    while True:
      n = wire.split(sock.out) if sock.out else None
      if n is None:
        return
      buf, sock.out = sock.out[:n], sock.out[n:]
      try:
        p = wire.decode(self.ver, buf, from_server=False)
      except wire.Malformed as e:
        self.errors.append("the client sends a malformed packet (%s): %s" % (e, buf.hex()))
        return
      if sock is not self.sock:
        self.errors.append("the client sends %s on an old connection" % p["type"])
      self.events.append(("out", p))

  def nap(self, secs):
    p = self.puppet_of.get(threading.get_ident())
    if p:
      until = Env.now + secs
      p.park(lambda: Env.now >= until, True)
      return
    self.naps += 1
    if self.naps > 200:
      raise Mismatch("the client waits on and on")
    if self.auto:
      self.serve()
    Env.now += secs
    self.pump()

  def pump(self):
    "the threads of the client run until all wait"
    for t in Env.threads:
      self.puppets.append(Puppet(self, t.run, (), {}))
    Env.threads = []
    n = 0
    while True:
      ready = [p for p in self.puppets if not p.done and p.cond()]
      if not ready:
        return
      n += 1
      if n > 2000:
        raise Mismatch("the threads of the client run on and on")
      ready[0].cond = lambda: True
      ready[0].resume()

  def end(self):
    self.killing = True
    for p in self.puppets:
      for _ in range(50):
        if p.done:
          break
        p.baton.give()
        self.baton.take(5)
    Hook.factory = Hook.starter = None
    Env.active = False

  # ------------------------------------------------------------ steps
  def do(self, op):
    try:
      self._do(op)
    except Mismatch:
      self.end()
      raise

  def _do(self, op):
    self.events, self.naps, self.ids = [], 0, []
    want = getattr(self, "op_" + op[0])(*op[1:])
    Env.now += 1
    self.pump()
    if self.errors:
      raise Mismatch(self.errors[0])
    self.compare(want)
    self.check()
    self.outcome = "%s:%s" % (op[0], ",".join(e[1]["type"] if e[0] == "out" else e[0] for e in self.events))

  def compare(self, want):
    got = self.events
    if len(got) != len(want):
      raise Mismatch("the client does %r instead of %r" % (got, want))
    for g, w in zip(got, want):
      if g[0] == "out" == w[0]:
        for k, v in w[1].items():
          if g[1].get(k) != v:
            raise Mismatch("the client sends %r instead of %r" % (g[1], w[1]))
      elif g != w:
        raise Mismatch("the client does %r instead of %r" % (got, want))

  def check(self):
    for _ in range(3):
      if self.online or not self.gone:
        break
      Env.now += 1
      self.pump()
    live = [p for p in self.puppets if not p.done]
    if self.online and self.cb and len(live) != 1:
      raise Mismatch("%d threads receive packets" % len(live))
    if not self.online and self.cb and self.gone and live:
      raise Mismatch("a receiver goes on after the end of the connection")
    if self.online and self.sock.closed:
      raise Mismatch("the connection is closed")

  gone = False

  def key(self):
    def opaque(o):
      if isinstance(o, Sock):
        return "S%d%d%d%r%r" % (o.closed, o.down, o.eof, o.inb, o.out) if o is self.sock else "old"
      if isinstance(o, Lock):
        return "L%d" % o.n
      if isinstance(o, (ClientWorld, Callbacks)):
        return "w"
      return None
    k = canon.digest(self.client, self.online, self.session, self.clean, self.out, sorted(self.inn.items()), self.paused,
                     self.gone, len([p for p in self.puppets if not p.done]), getattr(self, "waiting", None), opaque=opaque)
    self.end()
    return k

  # ------------------------------------------------------------ what the application does
  def props(self, where, pairs):
    if self.ver != 5 or not pairs:
      return None
    from mqtt.formats import MQTTV5
    p = MQTTV5.Properties(getattr(MQTTV5.PacketTypes, where))
    for n, v in pairs:
      setattr(p, n, v)
    return p

  def attempt(self, fn, fails):
    "fails: None, or the reason why an exception is expected"
    try:
      r = fn()
    except Mismatch:
      raise
    except Exception as e:
      if not fails:
        raise Mismatch("unexpected exception %r" % e)
      return "failed"
    if fails:
      raise Mismatch("no exception although %s" % fails)
    return r

  def op_connect(self, clean, answer=0, sp=False, kw=()):
    """answer: reason code, or "eof", "silence" """
    kw = dict(kw)
    v5 = self.ver == 5
    ok = answer == 0
    if answer == "eof":
      self.connack = ["eof"]
    elif answer == "silence":
      self.connack = []
    else:
      self.connack = [wire.encode(self.ver, {"type": "CONNACK", "sp": sp, "rc": answer})]
    a = {"cleanstart" if v5 else "cleansession": clean}
    a.update((k, v) for k, v in kw.items() if k in ("keepalive", "willFlag", "willTopic", "willMessage", "willQoS", "willRetain", "username", "password"))
    if v5 and self.expiry:
      a["properties"] = self.props("CONNECT", (("SessionExpiryInterval", self.expiry),))
    if v5 and kw.get("willprops"):
      a["willProperties"] = self.props("WILLMESSAGE", kw["willprops"])
    old = self.sock
    r = self.attempt(lambda: self.client.connect(host="server.example", port=1234, **a), None if ok else "the connection is refused")
    if ok and self.addresses[-1] != ("server.example", 1234):
      raise Mismatch("connects to %r" % (self.addresses[-1],))
    if old is not None and old is not self.sock and not old.closed:
      raise Mismatch("the old connection is left open")
    want = {"type": "CONNECT", "clientid": self.clientid, "clean": clean, "keepalive": kw.get("keepalive", 0), "username": kw.get("username"),
            "password": kw.get("password"), "will": None}
    if v5:
      want["props"] = [(17, self.expiry)] if self.expiry else []
    if kw.get("willFlag"):
      want["will"] = {"qos": kw["willQoS"], "retain": kw["willRetain"], "topic": kw["willTopic"], "payload": kw["willMessage"]}
      if v5:
        want["will"]["props"] = [(24, v) for n, v in kw.get("willprops", ())]
    events = [("out", want)]
    self.gone = False
    self.online = False
    if not ok:
      return events
    if r is None or not hasattr(r, "fh") or bool(r.sessionPresent if v5 else r.flags & 1) != sp:
      raise Mismatch("connect returns %r" % (r,))
    if clean or not self.session or (v5 and not sp):
      self.out, self.inn, self.paused = [], {}, False
    self.online, self.clean = True, clean
    self.session = True
    if sp:
      for x in self.out:
        events.append(("out", {"type": "PUBREL", "id": x[0]} if x[2] == "R" else self.packet(x, True)))
    return events

  def packet(self, x, dup=False):
    topic, payload, retain, ct = x[3]
    p = {"type": "PUBLISH", "id": x[0] if x[1] else None, "qos": x[1], "topic": topic, "payload": payload, "retain": retain, "dup": dup}
    if self.ver == 5:
      p["props"] = [(3, ct)] if ct else []
    return p

  def newid(self, mid):
    if type(mid) is not int or not 0 < mid < 65536 or mid in [x[0] for x in self.out]:
      raise Mismatch("packet id %r, in use are %r" % (mid, [x[0] for x in self.out]))

  def op_publish(self, topic, payload, qos, retain, ct=None):
    kw = {}
    if ct and self.ver == 5:
      kw["properties"] = self.props("PUBLISH", (("ContentType", ct),))
    mid = self.attempt(lambda: self.client.publish(topic, payload, qos, retain, **kw), None)
    if qos:
      self.newid(mid)
    x = [mid, qos, "P", (topic, payload if type(payload) is bytes else payload.encode(), retain, ct if self.ver == 5 else None)]
    if qos:
      self.out.append(x)
    return [("out", self.packet(x))]

  def op_sub(self, topics, qoss):
    o = list(qoss)
    if self.ver == 5:
      from mqtt.formats import MQTTV5
      o = [MQTTV5.SubscribeOptions(q) for q in qoss]
    mid = self.attempt(lambda: self.client.subscribe(list(topics), o), None)
    self.newid(mid)
    self.last = mid
    return [("out", {"type": "SUBSCRIBE", "id": mid, "filters": list(zip(topics, qoss))})]

  def op_unsub(self, topics):
    mid = self.attempt(lambda: self.client.unsubscribe(list(topics)), None)
    self.newid(mid)
    return [("out", {"type": "UNSUBSCRIBE", "id": mid, "filters": list(topics)})]

  def op_wrap(self):
    "as after 65535 publications"
    set_last_id(self.client, self.ver, 1)
    return []

  def op_pause(self):
    self.attempt(self.client.pause, None)
    self.paused = True
    return []

  def op_resume(self):
    self.attempt(self.client.resume, None)
    self.paused = False
    return []

  def op_disconnect(self, answers=True):
    "answers: the server completes the messages in flight while the client waits for that"
    want = []
    busy = (self.out or self.inn) and not self.paused
    if answers and busy and self.cb:
      self.auto = True
      self.script = []
      out, inn = [list(x) for x in self.out], list(self.inn)
      for x in out:
        if x[1] == 1:
          self.script.append(({"type": "PUBACK", "id": x[0]},))
        elif x[2] == "P":
          self.script.append(({"type": "PUBREC", "id": x[0]},))
          self.script.append(({"type": "PUBCOMP", "id": x[0]},))
        else:
          self.script.append(({"type": "PUBCOMP", "id": x[0]},))
      for i in inn:
        self.script.append(({"type": "PUBREL", "id": i},))
      for s in self.script:
        want += self.expect(s[0], True)
      busy = False
    r = self.attempt(self.client.disconnect, "messages are in flight" if busy else None)
    self.auto = False
    if busy:
      # given up: the application can only terminate, or connect again
      self.online = False
      self.stuck = True
      return want
    self.offline(self.ver == 5 and self.expiry == 0 or self.ver == 3 and self.clean)
    return want + [("out", {"type": "DISCONNECT"})]

  stuck = False

  def offline(self, forget):
    if not self.sock.closed:
      raise Mismatch("the connection is not closed")
    self.online = False
    self.gone = True
    if forget:
      self.session, self.out, self.inn, self.paused = False, [], {}, False

  def op_terminate(self):
    self.attempt(self.client.terminate, None)
    self.offline(True)
    return []

  def op_lost(self):
    self.sock.eof = self.sock.broken = True
    self.online = False
    return []

  def op_idle(self):
    self.sock.idle += 1
    return []

  def serve(self):
    if self.script:
      self.cb.answer = True
      self.sock.inb += wire.encode(self.ver, self.script.pop(0)[0])

  # ------------------------------------------------------------ what the server does
  def op_srv(self, p, answer=True):
    "p: packet as a tuple of pairs"
    p = dict(p)
    if self.cb:
      self.cb.answer = answer
    self.sock.inb += wire.encode(self.ver, p)
    want = self.expect(p, answer)
    if answer == "publish":
      Env.now += 1
      self.pump()
      for e in want:
        if e[0] == "out" and e[1]["type"] == "PUBLISH":
          mid = self.ids[0] if self.ids else 0
          self.newid(mid)
          e[1]["id"] = mid
          self.out.append([mid, 1, "P", ("r", b"reply", False, None)])
    return want

  def arrived(self, p, pid, answer):
    e = [("publishArrived", p["topic"], p["payload"], p["qos"], bool(p.get("retain")), pid, dict(p.get("props", ())).get(3) if self.ver == 5 else None)]
    if answer == "publish":
      e.append(("out", self.packet([None, 1, "P", ("r", b"reply", False, None)])))
    return e

  def expect(self, p, answer):
    t, i = p["type"], p.get("id")
    cb = self.cb is not None
    if t == "SUBACK":
      return [("subscribed", i, list(p["codes"]))] if cb else []
    if t == "UNSUBACK":
      return [("unsubscribed", i)] if cb else []
    if t == "DISCONNECT":
      return [("disconnected", p.get("rc", 0))] if cb else []
    if t in ("PUBACK", "PUBCOMP") or t == "PUBREC" and p.get("rc", 0) >= 128:
      self.out = [x for x in self.out if x[0] != i]
      return [("published", i)] if cb else []
    if t == "PUBREC":
      for x in self.out:
        if x[0] == i:
          x[2] = "R"
      return [("out", {"type": "PUBREL", "id": i})]
    if t == "PUBLISH":
      if self.paused:
        return []
      if p["qos"] == 0:
        return self.arrived(p, None, answer) if cb else []
      if p["qos"] == 1:
        return (self.arrived(p, i, answer) + ([("out", {"type": "PUBACK", "id": i})] if answer else [])) if cb else []
      self.inn[i] = p
      return [("out", {"type": "PUBREC", "id": i})]
    if t == "PUBREL":
      if i not in self.inn:
        return [("out", {"type": "PUBCOMP", "id": i})]
      q = self.inn[i]
      if not cb:
        del self.inn[i]
        return [("out", {"type": "PUBCOMP", "id": i})]
      e = self.arrived(q, i, answer)
      if answer:
        del self.inn[i]
        e.append(("out", {"type": "PUBCOMP", "id": i}))
      return e
    return []

  # ------------------------------------------------------------ without a callback: the application receives
  def op_receive(self, p):
    p = dict(p)
    self.sock.inb += wire.encode(self.ver, p)
    held = self.inn.get(p.get("id")) if p["type"] == "PUBREL" else None
    want = self.expect(p, True)
    r = self.attempt(self.client.receive, None)
    m = None
    if p["type"] == "PUBLISH" and p["qos"] < 2 and not self.paused:
      m = p
    elif held is not None:
      m = held
    if m is None:
      if r is not None:
        raise Mismatch("receive returns %r" % (r,))
    elif r is None or tuple(r[:4]) != (m["topic"], m["payload"], m["qos"], bool(m.get("retain"))) or m["qos"] and r[4] != m["id"]:
      raise Mismatch("receive returns %r for %r" % (r, m))
    return want

  def op_receive_nothing(self):
    r = self.attempt(self.client.receive, None)
    if r is not None:
      raise Mismatch("receive returns %r" % (r,))
    return []
