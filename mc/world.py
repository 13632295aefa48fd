"""The real V3.1.1/V5 (and MQTT-SN) brokers driven in memory, in lock step with the reference model.

One World is one freshly constructed pair of brokers sharing lock and data exactly as
``mqtt.brokers.start.run`` builds them.  Clients are in-memory sockets; each client action is one
packet (bytes made by the reference codec) handed to ``handleRequest``, which is the entry point
the TCP listener uses.
"""
import copy, itertools
from . import env, boot
from .env import Env
from . import wire, refbroker, canon
from .refbroker import Sub, Mismatch

def accelerate(module, name="readUTF"):
  """Remembers the results of the string reader of the packet formats, which takes most of the time of an execution
  (it looks for 2047 characters one after the other).  Its results are strings and numbers which depend on the
  bytes alone; C01 to C04, which check it, run without this."""
  f = getattr(module, name, None)
  if f is None or getattr(f, "remembers", False):
    return
  known = {}
  def reader(*args):
    if len(args) != 2 or len(args[0]) < 2:
      return f(*args)
    n = args[0][0] * 256 + args[0][1]
    k = (bytes(args[0][:2+n]), args[1])
    r = known.get(k)
    if r is None:
      r = f(*args)
      if len(known) < 100000 and (type(r) is str or type(r) is tuple and len(r) == 2 and type(r[0]) is str and type(r[1]) is int):
        known[k] = r
    return r
  reader.remembers = True
  setattr(module, name, reader)


DEFAULTS = {   # as in mqtt.brokers.start.run
  "visual": False, "persistence": False, "overlapping_single": True, "dropQoS0": True,
  "zero_length_clientids": True, "publish_on_pubrel": False, "topicAliasMaximum": 2,
  "maximumPacketSize": 256, "receiveMaximum": 2, "serverKeepAlive": 60, "maximum_qos": 2,
  "retain_available": True, "subscription_identifier_available": True,
  "shared_subscription_available": True, "server_keep_alive": None}


class TrackedLock:
  "a re-entrant lock which knows whether it is held"

  def __init__(self, kind, everybody):
    self.lock = env.REAL[kind]()
    self.held = 0
    everybody.append(self)

  def acquire(self, *a, **k):
    r = self.lock.acquire(*a, **k)
    if r:
      self.held += 1
    return r

  def release(self):
    self.lock.release()
    self.held -= 1

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *a):
    self.release()

  def __deepcopy__(self, memo):
    return self


class FakeSock:
  websockets = False
  _n = itertools.count(10)

  def __init__(self, name):
    self.name = name
    self.fd = next(FakeSock._n)
    self.inb = b""
    self.eof = False
    self.out = []
    self.closed = False
    self.timeout = None
    self.log = None

  def fileno(self):
    return self.fd

  def settimeout(self, t):
    self.timeout = t

  def setsockopt(self, *a):
    pass

  def recv(self, n):
    if self.closed:
      raise OSError("Bad file descriptor")
    if not self.inb:
      if self.eof:
        return b""
      raise TimeoutError("timed out")
    r, self.inb = self.inb[:n], self.inb[n:]
    return r

  def send(self, data):
    if self.closed or self.eof:
      raise OSError("Broken pipe")
    self.out.append(bytes(data))
    if self.log is not None:
      self.log.append(("S", self, bytes(data)))
    return len(data)

  def sendall(self, data):
    self.send(data)

  def shutdown(self, how):
    if self.closed:
      raise OSError("closed")
    self.closed = True

  def close(self):
    self.closed = True

  def __str__(self):
    return "<memory socket %s>" % self.name

  __repr__ = __str__


def decode_stream(ver, chunks):
  buf = b"".join(chunks)
  pkts = []
  while buf:
    n = wire.split(buf)
    if n is None:
      raise Mismatch("incomplete packet %s sent to a client" % buf.hex())
    try:
      pkts.append(wire.decode(ver, buf[:n], from_server=True))
    except wire.Malformed as e:
      raise Mismatch("malformed packet sent to a client (%s): %s" % (e, buf[:n].hex()))
    buf = buf[n:]
  return pkts


class World:
  """clients: dict client name -> version (3 or 5)"""

  def __init__(self, clients, options=None, on_lock=None):
    Env.reset()
    Env.on_lock = on_lock
    import mqtt.brokers.V311, mqtt.brokers.V5, mqtt.brokers.SN
    import mqtt.formats.MQTTV5.MQTTV5, mqtt.formats.MQTTV311.MQTTV311
    accelerate(mqtt.formats.MQTTV5.MQTTV5)
    accelerate(mqtt.formats.MQTTV311.MQTTV311)
    self.options = dict(DEFAULTS)
    self.options.update(options or {})
    self.locks = []
    if Env.on_lock is None:
      Env.on_lock = lambda kind: TrackedLock(kind, self.locks)
    cfg = boot.lines(self.options, DEFAULTS)
    if cfg is not None:
      start, _ = boot.boot(cfg or None)
      self.b3, self.b5, self.bsn = start.broker3, start.broker5, start.brokerSN
    else:   # options which no configuration file can set
      lock = Env.on_lock("RLock")
      shared = {}
      self.b3 = mqtt.brokers.V311.MQTTBrokers(options=self.options.copy(), lock=lock, sharedData=shared)
      self.b5 = mqtt.brokers.V5.MQTTBrokers(options=self.options.copy(), lock=lock, sharedData=shared)
      self.b3.setBroker5(self.b5)
      self.b5.setBroker3(self.b3)
      self.bsn = mqtt.brokers.SN.MQTTSNBrokers(lock=lock, sharedData=shared)
      self.bsn.setBroker3(self.b3)
      self.bsn.setBroker5(self.b5)
    self.services = [t for t in Env.threads]
    self.clients = clients
    self.conn = dict((c, None) for c in clients)   # current connection of each client
    self.socks = {}        # connection name -> FakeSock
    self.nconn = dict((c, 0) for c in clients)
    self.view = {}         # client -> [[packet id, qos, state]] received and not yet completed
    self.models = [refbroker.Model(self.options)]
    self.sub_seq = 0
    self.errors = []       # exceptions that escaped handleRequest
    self.outcome = ""

  # ---------------------------------------------------------------- hashing
  def key(self):
    names = {}
    for c, k in self.conn.items():
      if k is not None:
        names[id(self.socks[k])] = "S:" + c
    def opaque(o):
      if isinstance(o, FakeSock):
        return names.get(id(o), "dead:" + o.name.split("#")[0])
      return None
    d = canon.digest(self.b3, self.b5, self.view, [(c, k is not None) for c, k in sorted(self.conn.items())],
                     sorted(self.model_text(m) for m in self.models), opaque=opaque)
    return d

  def model_text(self, m):
    # connection names and groups are relative
    cur = dict((k, c) for c, k in self.conn.items() if k is not None)
    out = []
    groups = {}
    for cid in sorted(m.sessions):
      s = m.sessions[cid]
      out.append(repr((cid, s.ver, cur.get(s.conn), s.clean3, s.expiry,
                       None if s.ended is None else round(s.ended - m.now, 3), s.keepalive,
                       None if s.last is None else round(s.last - m.now, 3) if s.keepalive else 0, s.recv_max,
                       s.max_packet, sorted(s.alias_in.items()), sorted(s.alias_out.items()), s.alias_out_max,
                       sorted(s.inbound), sorted(s.spoiled), [self._m(m, x) for x in s.inbound.values()],
                       s.will and (self._m(m, s.will[0]), s.will[1]),
                       [(f, x.qos, x.nl, x.rap, x.rh, x.subid) for f, x in sorted(s.subs.items())],
                       [(self._m(m, x.msg), x.qos, sorted(x.retset), x.subids, groups.setdefault(x.group, len(groups)),
                         x.state, x.id, x.must, x.later, x.sent) for x in s.out])))
    out.append(repr([(t, self._m(m, x)) for t, x in sorted(m.retained.items())]))
    out.append(repr([(c, round(d - m.now, 3), self._m(m, x)) for c, (d, x) in sorted(m.pending_wills.items())]))
    return "".join(out)

  @staticmethod
  def _m(m, x):
    return x and (x.topic, x.payload, x.qos, x.retain, x.props,
                  None if x.deadline is None else round(x.deadline - m.now, 3), x.pub)

  # ---------------------------------------------------------------- running one step
  def broker(self, c):
    return self.b5 if self.clients[c] == 5 else self.b3

  def request(self, c, conn, data=None):
    "deliver bytes (or end of file) on a connection, as the listener would"
    sock = self.socks[conn]
    if data is None:
      sock.eof = True
    else:
      sock.inb += data
    n = 0
    while not sock.closed and (sock.inb or sock.eof):
      n += 1
      if n > 50:
        raise Mismatch("handleRequest does not consume its input")
      try:
        term = self.broker(c).handleRequest(sock)
      except Exception as e:
        self.errors.append(repr(e))
        term = True
      if term:
        sock.close()

  def do(self, op):
    """apply an operation; ("?", k, op) takes the k-th alternative at every random choice"""
    if op[0] == "?":
      self.step(op[2], choices=[op[1]] * 8)
    else:
      self.step(op)

  def step(self, op, choices=()):
    Env.choices = list(choices)
    Env.choice_log = []
    was_open = set(k for k in self.conn.values() if k is not None)
    for s in self.socks.values():
      s.out = []
    stepper = getattr(self, "op_" + op[0])
    impl, act = stepper(*op[1:])
    if op[0] == "connect":
      was_open.add(self.conn[op[1]])
    elif op[0] == "rawconn":
      was_open.add(self.extra)
    impl()
    if self.errors:
      raise Mismatch("exception escaped from the broker: " + self.errors[0])
    if any(l.held for l in self.locks):
      raise Mismatch("the broker's lock is still held after the request: every other connection is blocked")
    seen = {}
    closed = set()
    for k in was_open:
      sock = self.socks[k]
      ver = self.clients[k.split("#")[0]]
      seen[k] = decode_stream(ver, sock.out)
      if sock.closed:
        closed.add(k)
    for k, sock in self.socks.items():
      if k not in was_open and sock.out:
        raise Mismatch("bytes sent to %s after its connection was closed" % k)
    self.observe(op, seen, closed)
    # client views
    for c, k in list(self.conn.items()):
      if k is None or k not in seen:
        continue
      self._see(c, seen[k])
      if k in closed:
        self.conn[c] = None
    for k in closed:
      del self.socks[k]
    self.outcome = ";".join("%s:%s%s" % (k.split("#")[0], ",".join(p["type"] for p in seen[k]), "!" if k in closed else "")
                            for k in sorted(seen))
    self._models(act, seen, closed, was_open)
    return seen, closed

  def observe(self, op, seen, closed):
    "for subclasses: looks at, and may take away from, the packets each connection has received in this step"

  def _models(self, act, seen, closed, was_open):
    good = []
    last = None
    for m in self.models:
      vec = []
      multi = any("$share/" in f for s in m.sessions.values() for f in s.subs)
      while True:
        mm = copy.deepcopy(m) if (multi or len(self.models) > 1) else m
        used = []
        def pick(n):
          i = vec[len(used)] if len(used) < len(vec) else 0
          used.append((i, n))
          return i
        mm.begin()
        try:
          act(mm, pick)
          mm.reconcile(seen, closed, [k for k in was_open if k not in closed])
          good.append(mm)
        except Mismatch as e:
          last = e
        # next choice vector
        while used and used[-1][0] + 1 >= used[-1][1]:
          used.pop()
        if not used:
          break
        vec = [i for i, n in used]
        vec[-1] += 1
    if not good:
      raise last
    if len(good) > 1:
      uniq = {}
      for m in good:
        uniq.setdefault(self.model_text(m), m)
      good = list(uniq.values())
    self.models = good

  def _see(self, c, pkts):
    v = self.view.setdefault(c, [])
    for p in pkts:
      if p["type"] == "CONNACK":
        if not p.get("sp"):
          v.clear()
      elif p["type"] == "PUBLISH" and p["qos"]:
        if not any(x[0] == p["id"] for x in v):
          v.append([p["id"], p["qos"], "P"])

  # ---------------------------------------------------------------- client actions
  # each returns (run implementation, step model)
  def op_connect(self, c, kw):
    """kw: tuple of (name, value)"""
    kw = dict(kw)
    ver = self.clients[c]
    self.nconn[c] += 1
    conn = "%s#%d" % (c, self.nconn[c])
    self.socks[conn] = FakeSock(conn)
    self.conn[c] = conn
    p = {"clientid": kw.get("clientid", c), "clean": kw.get("clean", True), "keepalive": kw.get("keepalive", 0)}
    for n in ("expiry", "recv_max", "max_packet", "alias_max", "will"):
      if n in kw:
        p[n] = kw[n]
    if "will" in p and p["will"]:
      p["will"] = dict(p["will"])
    props = []
    if ver == 5:
      for n, i in (("expiry", 17), ("recv_max", 33), ("max_packet", 39), ("alias_max", 34)):
        if n in p:
          props.append((i, p[n]))
    raw = wire.encode(ver, {"type": "CONNECT", "clientid": p["clientid"], "clean": p["clean"], "keepalive": p["keepalive"],
                            "props": props, "will": p.get("will"), "username": kw.get("username"), "password": kw.get("password")})
    assigned = str(env.uuid.UUID(int=Env.uuids + 1))
    return (lambda: self.request(c, conn, raw),
            lambda m, pick: m.connect(conn, ver, p, pick, assigned=assigned))

  def op_connect_again(self, c):
    "a second CONNECT on the same connection"
    conn, ver = self.conn[c], self.clients[c]
    raw = wire.encode(ver, {"type": "CONNECT", "clientid": c})
    return (lambda: self.request(c, conn, raw), lambda m, pick: m.bad(conn, pick))

  def op_drop(self, c):
    conn = self.conn[c]
    return (lambda: self.request(c, conn, None), lambda m, pick: m.close(conn, True, pick))

  def op_disconnect(self, c, rc=0, props=()):
    conn, ver = self.conn[c], self.clients[c]
    raw = wire.encode(ver, {"type": "DISCONNECT", "rc": rc, "props": list(props)})
    return (lambda: self.request(c, conn, raw), lambda m, pick: m.disconnect(conn, rc, props, pick))

  def op_sub(self, c, filters, subid=None, pid=11, props=()):
    """filters: ((filter, qos, nl, rap, rh), ...)"""
    conn, ver = self.conn[c], self.clients[c]
    fs = []
    for f in filters:
      f = tuple(f) + (0, False, False, 0)[len(f) - 1:]
      fs.append(f)
    raw = wire.encode(ver, {"type": "SUBSCRIBE", "id": pid, "props": ([(11, subid)] if subid else []) + list(props),
                            "filters": [(f, q | ((nl << 2) | (rap << 3) | (rh << 4) if ver == 5 else 0)) for f, q, nl, rap, rh in fs]})
    return (lambda: self.request(c, conn, raw),
            lambda m, pick: m.subscribe(conn, pid, [(f, Sub(q, nl, rap, rh)) for f, q, nl, rap, rh in fs], subid, props))

  def op_unsub(self, c, filters, pid=12, props=()):
    conn, ver = self.conn[c], self.clients[c]
    raw = wire.encode(ver, {"type": "UNSUBSCRIBE", "id": pid, "filters": list(filters), "props": list(props)})
    return (lambda: self.request(c, conn, raw), lambda m, pick: m.unsubscribe(conn, pid, filters, props))

  def op_pub(self, c, topic, qos=0, retain=False, payload=b"m", pid=1, dup=False, props=()):
    conn, ver = self.conn[c], self.clients[c]
    raw = wire.encode(ver, {"type": "PUBLISH", "topic": topic, "qos": qos, "retain": retain, "payload": payload,
                            "id": pid, "dup": dup, "props": list(props)})
    def act(m, pick):
      if ver == 5 and len(raw) > m.o["maximumPacketSize"]:
        m.bad(conn, pick, codes={149})
      else:
        m.publish(conn, topic, payload, qos, retain, pid, dup, props, pick)
    return (lambda: self.request(c, conn, raw), act)

  def op_pubrel(self, c, pid=1, props=()):
    conn, ver = self.conn[c], self.clients[c]
    raw = wire.encode(ver, {"type": "PUBREL", "id": pid, "props": list(props)})
    return (lambda: self.request(c, conn, raw), lambda m, pick: m.pubrel(conn, pid, pick, props))

  def op_puback(self, c, k=0, rc=0):
    "acknowledge the k-th unacknowledged QoS 1 message this client has received"
    v = [x for x in self.view[c] if x[1] == 1][k]
    self.view[c].remove(v)
    return self._ack(c, "PUBACK", v[0], rc, lambda m, conn, pick: m.puback(conn, v[0]))

  def op_pubrec(self, c, k=0, rc=0):
    v = [x for x in self.view[c] if x[1] == 2 and x[2] == "P"][k]
    if rc >= 128:
      self.view[c].remove(v)
    else:
      v[2] = "R"
    return self._ack(c, "PUBREC", v[0], rc, lambda m, conn, pick: m.pubrec(conn, v[0], rc))

  def op_pubcomp(self, c, k=0, rc=0):
    v = [x for x in self.view[c] if x[1] == 2 and x[2] == "R"][k]
    self.view[c].remove(v)
    return self._ack(c, "PUBCOMP", v[0], rc, lambda m, conn, pick: m.pubcomp(conn, v[0]))

  def op_stray(self, c, what, pid):
    "an acknowledgement the server is not waiting for"
    f = {"PUBACK": lambda m, conn, pick: m.puback(conn, pid), "PUBREC": lambda m, conn, pick: m.pubrec(conn, pid),
         "PUBCOMP": lambda m, conn, pick: m.pubcomp(conn, pid)}[what]
    return self._ack(c, what, pid, 0, f)

  def _ack(self, c, what, pid, rc, f):
    conn, ver = self.conn[c], self.clients[c]
    raw = wire.encode(ver, {"type": what, "id": pid, "rc": rc})
    return (lambda: self.request(c, conn, raw), lambda m, pick: f(m, conn, pick))

  def op_ping(self, c):
    conn = self.conn[c]
    return (lambda: self.request(c, conn, b"\xc0\x00"), lambda m, pick: m.ping(conn))

  def op_raw(self, c, data, codes=None):
    "bytes that break the protocol on an established connection"
    conn = self.conn[c]
    return (lambda: self.request(c, conn, data), lambda m, pick: m.bad(conn, pick, codes))

  def op_rawconn(self, c, data):
    "bytes that break the protocol as the first packet of a new connection"
    self.nconn[c] += 1
    conn = "%s#%d" % (c, self.nconn[c])
    self.socks[conn] = FakeSock(conn)
    self.extra = conn
    def impl():
      self.request(c, conn, data)
    return impl, lambda m, pick: m.bad(conn, pick)

  def op_tick(self, dt):
    def impl():
      Env.now += dt
      self.run_services()
      for c, k in list(self.conn.items()):
        if k is not None and not self.socks[k].closed:
          for b in (self.b3, self.b5):
            try:
              b.keepalive(self.socks[k])
            except Exception as e:
              self.errors.append(repr(e))
    return impl, lambda m, pick: m.tick(dt, pick, None)

  def op_wait(self, dt):
    "time passes, but the background thread and the keep alive tests do not run (for scenarios without wills)"
    def impl():
      Env.now += dt
    return impl, lambda m, pick: m.tick(dt, pick, None)

  def run_services(self):
    "one iteration of every background service thread of the brokers"
    for t in self.services:
      Env.sleeps_allowed = 1
      try:
        t.run()
      except env.StopLoop:
        pass
