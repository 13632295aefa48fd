"""Concurrent connections behave like some sequence of their packets.

The real connection handlers (and the background thread of the broker) run as real threads under the controlled
scheduler mc/sched.py.  The reference is the set of results of all interleavings of whole packets, executed one after the
other on the real brokers.
"""
import itertools, json, os
from mc import enumr, wire, env, sched, explore
from mc.env import Env
from mc.site import http_request
from mc.props.C28 import e_connect as snc, e_publish
from mc.world import World, FakeSock, decode_stream
from mc.conn import Conn, frame, unframe, unhandshake, HANDSHAKE, BadFrame
BOUNDS = {"quick": "2-3 threads with 1-3 packets each; every schedule with 1 preemption at any line of the brokers and listeners executed without a lock and any call or return executed with one; every schedule with 2 preemptions at lines executed without a lock (in 7 of the 69 scenarios: keep alive, lost connection, takeover, websocket, HTTP, background thread)",
          "thorough": "every schedule with 1 preemption at any line; 3 at lines executed without a lock; 2 at lines without and calls and returns with a lock, as far as the time limit allows"}
ASSUMPTIONS = ["threads are preempted at line boundaries"]
TRACED = [os.path.join(env.REPO, "interoperability", "mqtt", "brokers") + os.sep]


def snp(topic, data, qos, retain=0):
  return e_publish(topic, data, qos=qos, retain=retain)


class RaceConn(Conn):
  def __init__(self, race, name):
    Conn.__init__(self, race)
    self.name = name
    self.race = race
    self.fd = 20 + race.names.index(name)
    self.log = []

  def fileno(self):
    return -1 if self.closed == "close" else self.fd

  def recv(self, n, flags=0):
    if self.closed == "close":
      raise OSError(9, "Bad file descriptor")
    while not self.readable():
      if self.script and self.script[0][0] == "seg":
        self.inb += self.script.pop(0)[1]
      elif self.timeout is not None:
        raise TimeoutError("timed out")
      else:
        self.race.s.wait(self.readable)
    if not self.inb:
      self.idle_reads += 1
      if self.idle_reads > 500:
        self.race.s.errors.append("%s reads on and on after the end of its connection" % self.name)
        raise sched.Killed()
      return b""
    r, self.inb = self.inb[:n], self.inb[n:]
    return r

  def send(self, data, flags=0):
    if self.closed:
      raise OSError(32, "Broken pipe")
    k = len(data) if self.room is None else min(self.room, len(data))
    if self.race.s is not None and self.room is not None and self.race.s.me() != "main":
      self.race.s.point("send")
    self.out += bytes(data[:k])
    return k

  def shutdown(self, how):
    if self.closed:
      raise OSError(107, "not connected")
    self.closed = "shutdown"

  def close(self):
    self.closed = "close"


class Race:
  """threads: ((name, kind, prefix, events), ...)   kind: 3, 5, "w3", "w5" (websocket), "cleanup"
  events: ("pkt", bytes), ("eof",), ("idle",)"""

  def __init__(self, scenario, schedule, mode, traced=TRACED):
    name, self.options, self.dt, self.threads, self.room = scenario
    self.names = [t[0] for t in self.threads]
    self.s = None
    self.http = {}
    self.locks = []
    def lock(kind):
      self.locks.append(sched.Lock(kind))
      return self.locks[-1]
    self.w = World({}, self.options, on_lock=lock)
    from mqtt.brokers.listeners import TCPListeners as L
    self.L = L
    L.setBrokers(self.w.b3, self.w.b5)
    if not sched._codes:
      sched.instrument(traced)
    class S: terminate = False
    L.server = S()
    self.conns = {}
    s = sched.Sched(schedule, mode)
    s.on_all_ready = self.ready
    for t in self.threads:
      n, kind, prefix, events = t
      if kind == "cleanup":
        s.add(n, self.service)
      elif kind in ("http", "sn"):
        for e in prefix:
          call(n, e)
        s.add(n, self.get(n, events))
      else:
        c = self.conns[n] = RaceConn(self, n)
        f = (lambda b: frame(b)) if isinstance(kind, str) else (lambda b: b)
        c.script = ([("seg", HANDSHAKE)] if isinstance(kind, str) else []) + [("seg", f(p)) for p in prefix] + ([("go",)] if events else []) + \
                   [("seg", f(e[1])) if e[0] == "pkt" else ("seg", frame(b"x", 9)) if e[0] == "wsping" else e for e in events]
        s.add(n, self.handler(c))
    self.cleanups = 0
    Env.on_select = self.select
    Env.on_sleep = self.sleep
    self.s = s
    s.run()

  def handler(self, conn):
    def go():
      h = self.L.WebSocketTCPHandler.__new__(self.L.WebSocketTCPHandler)
      h.request, h.client_address, h.server = conn, ("127.0.0.1", 40000 + conn.fd), self.L.server
      h.handle()
    return go

  def get(self, n, events):
    def go():
      self.s.wait(lambda: self.s.free)
      self.http[n] = [call(n, e) for e in events]
    return go

  def service(self):
    for t in self.w.services:
      self.cleanups = 0
      try:
        t.run()
      except env.StopLoop:
        pass

  def sleep(self, secs):
    if self.s is None or self.s.me() == "main":
      if self.cleanups > 0:
        self.cleanups = 0
        raise env.StopLoop()
      self.cleanups += 1
      return
    self.s.wait(lambda: self.s.free)
    self.cleanups += 1
    if self.cleanups > 1:
      raise env.StopLoop()

  def ready(self):
    Env.now += self.dt
    if self.room:
      for c in self.conns.values():
        c.room = self.room

  def select(self, r, w, x, timeout=None):
    n = self.s.me()
    c = self.conns[n]
    for so in r:
      if (so if isinstance(so, int) else so.fileno()) < 0:
        raise ValueError("file descriptor cannot be a negative integer (-1)")
    while True:
      if c.readable():
        return list(r), [], []
      if not c.script:
        self.s.wait(c.readable)
        continue
      ev = c.script[0]
      if ev[0] == "go":
        c.script.pop(0)
        self.s.wait(lambda: self.s.free)
      else:
        c.script.pop(0)
        if ev[0] == "seg":
          c.inb += ev[1]
        elif ev[0] == "eof":
          c.eof = True
        elif ev[0] == "idle":
          return [], [], []

  def outcome(self):
    "what everybody has seen, then what the broker does in the probe"
    if self.s.errors:
      raise Failure(self.s.errors[0])
    if self.s.blocked:
      raise Failure("deadlock: %s wait for ever for a lock" % ", ".join(self.s.blocked))
    if any(l.owner is not None for l in self.locks):
      raise Failure("a lock is never released")
    def seen():
      res = []
      for n, kind, p, e in self.threads:
        if kind in ("http", "sn"):
          res.append((n, self.http.get(n)))
        if n in self.conns:
          c = self.conns[n]
          out = c.out
          if isinstance(kind, str):
            fr, rest = unframe(unhandshake(out))
            if rest:
              raise Failure("incomplete frame sent to %s: %r" % (n, rest))
            out = b"".join(d for o, d in fr if o in (0, 2))
            pongs = [d for o, d in fr if o == 10]
            res.append((n, out, bool(c.closed), pongs))
          else:
            res.append((n, out, bool(c.closed), []))
      return res
    try:
      for c in self.conns.values():
        c.room = None
      r = probe(self.w, self.threads, seen)
    except BadFrame as e:
      raise Failure(str(e))
    return r

  def end(self):
    self.s.end()
    Env.active = False


def call(n, e):
  if e[0] == "get":
    return get(e[1])
  from mqtt.brokers.listeners import UDPListeners
  sent = []
  class Sock:
    def sendto(self, data, to):
      sent.append((data, to))
  h = object.__new__(UDPListeners.UDPHandler)
  h.request, h.client_address, h.server = (e[1], Sock()), ("10.0.0.1", n), None
  try:
    h.handle()
  except sched.Killed:
    raise
  except Exception as x:
    sent.append(repr(x))
  return sent


def get(path):
  from mqtt.brokers.listeners import HTTPListeners
  out = http_request(HTTPListeners.requestHandler, b"GET %s HTTP/1.0\r\n\r\n" % path.encode())
  head, sep, body = out.partition(b"\r\n\r\n")
  if path.endswith("/clients") and body:
    body = repr(sorted((k, v["connected"]) for k, v in json.loads(body).items())).encode()
  return head.split()[1:2], body


class Failure(Exception):
  pass


def enc(ver, d):
  return wire.encode(ver, d)


def con(ver, cid, clean=True, **kw):
  d = {"type": "CONNECT", "clientid": cid, "clean": clean, "keepalive": kw.pop("keepalive", 0), "will": kw.pop("will", None)}
  props = []
  for n, i in (("expiry", 17), ("recv_max", 33)):
    if n in kw and ver == 5:
      props.append((i, kw[n]))
  d["props"] = props
  return enc(ver, d)


def sub(ver, f, q=0, pid=5):
  return enc(ver, {"type": "SUBSCRIBE", "id": pid, "filters": [(f, q)], "props": []})


def unsub(ver, f, pid=6):
  return enc(ver, {"type": "UNSUBSCRIBE", "id": pid, "filters": [f]})


def pub(ver, topic, payload, qos=0, pid=1, retain=False, dup=False, props=()):
  return enc(ver, {"type": "PUBLISH", "topic": topic, "payload": payload, "qos": qos, "id": pid, "retain": retain, "dup": dup, "props": list(props)})


def ack(ver, kind, pid):
  return enc(ver, {"type": kind, "id": pid, "rc": 0})


def pk(*packets):
  return tuple(("pkt", p) for p in packets)


def will(topic="w", payload=b"gone", qos=0, retain=False, props=()):
  return {"topic": topic, "payload": payload, "qos": qos, "retain": retain, "props": list(props)}


def probe(w, threads, seen):
  "returns everything seen by the clients, then the reactions to a fixed sequence of requests"
  res = [seen()]
  def talk(sock, b, *packets):
    for p in packets:
      sock.inb += p
      n = 0
      while sock.inb and not sock.closed:
        n += 1
        if b.handleRequest(sock):
          sock.close()
  z = FakeSock("z")
  talk(z, w.b5, con(5, "zz"), sub(5, "#"))
  res.append(b"".join(z.out))
  for i, t in enumerate(("a", "b", "w")):
    talk(z, w.b5, pub(5, t, b"probe", 1, 1))
  res.append(b"".join(z.out))
  res.append(seen())
  ids = []
  for n, kind, p, e in threads:
    if kind not in ("cleanup", "http", "sn"):
      ver = 5 if str(kind)[-1] == "5" else 3
      for q in list(p) + [x[1] for x in e if x[0] == "pkt"]:
        d = wire.decode(ver, q) if q[0] >> 4 == 1 else None
        if d and (d["clientid"], ver) not in ids:
          ids.append((d["clientid"], ver))
  for cid, ver in ids:
    x = FakeSock("probe " + cid)
    talk(x, w.b5 if ver == 5 else w.b3, con(ver, cid, False))
    res.append((cid, b"".join(x.out)))
  res.append(b"".join(z.out))
  res.append(seen())
  Env.now += 1000
  for t in w.services:
    Env.sleeps_allowed = 1
    try:
      t.run()
    except env.StopLoop:
      pass
  res.append(b"".join(z.out))
  return repr(res)


def serial(scenario):
  "results of all interleavings of whole packets"
  name, options, dt, threads, room = scenario
  seqs = [[(i, e) for e in t[3]] if t[1] != "cleanup" else [(i, ("cleanup",))] for i, t in enumerate(threads)]
  order = [i for i, s in enumerate(seqs) for _ in s]
  res = {}
  n = 0
  for perm in sorted(set(itertools.permutations(order))) if len(order) <= 6 else merges([len(s) for s in seqs]):
    n += 1
    idx = [0] * len(seqs)
    ops = []
    for i in perm:
      ops.append(seqs[i][idx[i]])
      idx[i] += 1
    res.setdefault(one_serial(scenario, ops), ops)
  Env.active = False
  return res, n


def merges(lens):
  def rec(left):
    if not any(left):
      yield ()
      return
    for i, k in enumerate(left):
      if k:
        for r in rec(left[:i] + [k-1] + left[i+1:]):
          yield (i,) + r
  return rec(list(lens))


def one_serial(scenario, ops):
  name, options, dt, threads, room = scenario
  w = World({}, options)
  socks = {}
  over = set()
  pongs = {}
  gets = {}
  def b(i):
    return w.b5 if str(threads[i][1])[-1] == "5" else w.b3
  def give(i, data, eof=False):
    s = socks[i]
    if i in over:
      return
    s.inb += data
    s.eof = s.eof or eof
    while s.inb or s.eof or s.closed:
      if b(i).handleRequest(s) or s.closed:
        s.close()
        over.add(i)
        break
  for i, t in enumerate(threads):
    if t[1] == "sn":
      for e in t[2]:
        call(t[0], e)
    elif t[1] not in ("cleanup", "http"):
      socks[i] = FakeSock(t[0])
      for p in t[2]:
        give(i, p)
  Env.now += dt
  def closures():
    for i, s in socks.items():
      if s.closed and i not in over:
        give(i, b"")
  for i, e in ops:
    closures()
    if e[0] == "pkt":
      give(i, e[1])
    elif e[0] == "eof":
      give(i, b"", True)
    elif e[0] == "wsping":
      if i not in over:
        pongs.setdefault(i, []).append(b"x")
    elif e[0] == "idle":
      if i not in over:
        w.b3.keepalive(socks[i])
        w.b5.keepalive(socks[i])
    elif e[0] in ("get", "sn"):
      gets.setdefault(i, []).append(call(threads[i][0], e))
    elif e[0] == "cleanup":
      w.run_services()
  closures()
  def seen():
    return [(threads[i][0], b"".join(socks[i].out), socks[i].closed, pongs.get(i, [])) if i in socks else (t[0], gets.get(i))
            for i, t in enumerate(threads) if t[1] != "cleanup"]
  return probe(w, threads, seen)


# ---------------------------------------------------------------- scenarios
def races():
  S = []
  def add(name, *threads, dt=0, room=None, **options):
    S.append((name, options, dt, threads, room))
  for va, vb in ((3, 3), (5, 5), (3, 5), (5, 3)):
    v = "%d/%d " % (va, vb)
    add(v + "publishers to one subscriber",
        ("c", vb, (con(vb, "c"), sub(vb, "a", 1)), ()),
        ("a", va, (con(va, "a"),), pk(pub(va, "a", b"1", 1, 1), pub(va, "a", b"2", 1, 2))),
        ("b", vb, (con(vb, "b"),), pk(pub(vb, "a", b"3", 1, 1), pub(vb, "a", b"4", 0))))
    add(v + "publish and subscribe, retained",
        ("a", va, (con(va, "a"), pub(va, "a", b"0", 0, 1, True)), pk(pub(va, "a", b"1", 0, 1, True), pub(va, "b", b"2", 1, 2, True))),
        ("b", vb, (con(vb, "b"),), pk(sub(vb, "#", 1))))
    add(v + "publish and unsubscribe",
        ("a", va, (con(va, "a"),), pk(pub(va, "a", b"1", 1, 1), pub(va, "a", b"2", 0))),
        ("b", vb, (con(vb, "b"), sub(vb, "a", 1), sub(vb, "+", 0, 6)), pk(unsub(vb, "a"), sub(vb, "b", 2, 7))))
    add(v + "acknowledgements and publications",
        ("a", va, (con(va, "a"),), pk(pub(va, "a", b"3", 1, 1), pub(va, "a", b"4", 1, 2))),
        ("b", vb, (con(vb, "b", recv_max=2), sub(vb, "a", 1), pub(vb, "a", b"1", 1, 1), pub(vb, "a", b"2", 1, 2)), pk(ack(vb, "PUBACK", 1), ack(vb, "PUBACK", 2))))
    add(v + "QoS 2 flows",
        ("a", va, (con(va, "a"),), pk(pub(va, "a", b"3", 2, 1), ack(va, "PUBREL", 1))),
        ("b", vb, (con(vb, "b"), sub(vb, "a", 2), pub(vb, "a", b"1", 2, 1), ack(vb, "PUBREL", 1)), pk(ack(vb, "PUBREC", 1), ack(vb, "PUBCOMP", 1))))
    add(v + "lost connection and publish",
        ("a", va, (con(va, "a"),), pk(pub(va, "a", b"1", 1, 1), pub(va, "a", b"2", 1, 2))),
        ("b", vb, (con(vb, "b", False, expiry=50, will=will(retain=True)), sub(vb, "a", 1)), (("eof",),)),
        ("c", va, (con(va, "c"), sub(va, "w")), ()))
    add(v + "keep alive and publish",
        ("a", va, (con(va, "a"),), pk(pub(va, "a", b"1", 1, 1), sub(va, "w", 0))),
        ("b", vb, (con(vb, "b", keepalive=10, will=will(retain=True)), sub(vb, "a", 1)), (("idle",),)), dt=20)
    add(v + "disconnect and publish",
        ("a", va, (con(va, "a"), sub(va, "w")), pk(pub(va, "a", b"1", 1, 1), pub(va, "a", b"2", 2, 2))),
        ("b", vb, (con(vb, "b", False, expiry=50, will=will()), sub(vb, "a", 2)), pk(enc(vb, {"type": "DISCONNECT"}))))
    add(v + "two connect",
        ("a", va, (), pk(con(va, "a", will=will(retain=True)), sub(va, "a", 1))),
        ("b", vb, (), pk(con(vb, "b", keepalive=60), sub(vb, "a", 2), pub(vb, "a", b"1", 1, 1))))
  for v in (3, 5):
    n = "%d " % v
    e = {} if v == 3 else {"expiry": 50}
    for clean in (False, True):
      add(n + "takeover, clean %s" % clean,
          ("a", v, (con(v, "x", False, will=will(retain=True), **e), sub(v, "a", 1)), pk(pub(v, "a", b"1", 1, 1), pub(v, "b", b"2", 1, 2, True))),
          ("b", v, (), pk(con(v, "x", clean, **e), pub(v, "a", b"3", 0))))
    add(n + "takeover and keep alive",
        ("a", v, (con(v, "x", False, keepalive=10, will=will(retain=True), **e), sub(v, "a", 1)), (("idle",),)),
        ("b", v, (), pk(con(v, "x", False, **e), pub(v, "a", b"3", 1, 1))), dt=20)
    add(n + "takeover and lost connection",
        ("a", v, (con(v, "x", False, will=will(retain=True), **e), sub(v, "a", 1)), (("eof",),)),
        ("b", v, (), pk(con(v, "x", False, **e), sub(v, "b", 1))))
    add(n + "two connections with one id",
        ("a", v, (), pk(con(v, "x", False, will=will(payload=b"a", retain=True), **e), sub(v, "a", 1))),
        ("b", v, (), pk(con(v, "x", False, will=will(payload=b"b", retain=True), **e), sub(v, "b", 1))))
    add(n + "three connections with one id",
        ("a", v, (con(v, "x", False, **e), sub(v, "a", 1)), (("eof",),)),
        ("b", v, (), pk(con(v, "x", False, **e))),
        ("c", v, (), pk(con(v, "x", True, **e))))
    add(n + "websocket ping and publications",
        ("a", v, (con(v, "a"),), pk(pub(v, "a", b"1", 0), pub(v, "a", b"2", 0))),
        ("b", "w%d" % v, (con(v, "b"), sub(v, "a", 0)), (("wsping",), ("wsping",))), room=2)
    add(n + "tcp and websocket",
        ("a", v, (con(v, "a"), sub(v, "b")), pk(pub(v, "a", b"1", 1, 1), sub(v, "b", 1))),
        ("b", "w%d" % v, (con(v, "b"), sub(v, "a", 0)), pk(pub(v, "b", b"2", 1, 1))))
    add(n + "same subscription, shared state",
        ("a", v, (con(v, "a"),), pk(sub(v, "a", 0), sub(v, "+", 1))),
        ("b", v, (con(v, "b"), sub(v, "a", 0)), pk(unsub(v, "a"), sub(v, "a", 2))),
        ("c", 8 - v, (con(8 - v, "c"),), pk(pub(8 - v, "a", b"1", 1, 1))))
    add(n + "errors and publish",
        ("a", v, (con(v, "a", will=will(retain=True)), sub(v, "a")), pk(b"\x82\x00")),
        ("b", v, (con(v, "b"), sub(v, "w")), pk(pub(v, "a", b"1", 1, 1), pub(v, "a", b"2", 1, 2))))
  for path in ("clients", "subscriptions", "retained", "clients/x"):
    for v in (3, 5):
      e = {} if v == 3 else {"expiry": 50}
      add("HTTP %s and %d" % (path, v), ("h", "http", (), (("get", "/api/v0001/" + path),)), ("d", v, (con(v, "d"), sub(v, "c", 1)), ()),
          ("b", v, (), pk(con(v, "x", False, **e), sub(v, "b", 1), pub(v, "a", b"3", 1, 1, True))))
  for v in (3, 5):
    add("MQTT-SN publications and %d" % v, ("s", "sn", (("sn", snc("s")),), (("sn", snp(b"aa", b"1", 0)), ("sn", snp(b"bb", b"2", -1, 1)))),
        ("b", v, (con(v, "b"), sub(v, "aa", 1)), pk(sub(v, "bb", 1), unsub(v, "aa"))))
    add("MQTT-SN connections and %d" % v, ("s", "sn", (), (("sn", snc("s")), ("sn", snp(b"aa", b"1", 0)))),
        ("t", "sn", (("sn", snc("s")),), (("sn", snp(b"aa", b"2", 0)),)),
        ("b", v, (con(v, "b"), sub(v, "#", 1)), ()))
  gone = lambda **kw: ("a", 5, (con(5, "x", False, will=will(retain=True, props=((24, 10),)), **kw), sub(5, "a", 1), b"\xe0\x01\x04"), ())
  add("clean up and return: delayed will", gone(expiry=50), ("t", "cleanup", (), ()), ("b", 5, (), pk(con(5, "x", False, expiry=50), sub(5, "b", 1))), dt=20)
  add("clean up and return: session expiry", gone(expiry=15), ("t", "cleanup", (), ()), ("b", 5, (), pk(con(5, "x", False, expiry=50), sub(5, "b", 1))), dt=20)
  add("clean up and publish", gone(expiry=15), ("t", "cleanup", (), ()),
      ("b", 5, (con(5, "b"), sub(5, "w", 1)), pk(pub(5, "a", b"1", 1, 1), sub(5, "#", 0))), dt=20)
  add("clean up and new subscription 3", gone(expiry=15), ("t", "cleanup", (), ()),
      ("b", 3, (con(3, "b"),), pk(sub(3, "w", 0), pub(3, "a", b"1", 1, 1))), dt=20)
  add("clean up and lost connection", gone(expiry=50), ("t", "cleanup", (), ()),
      ("b", 5, (con(5, "b", False, expiry=0, will=will(retain=True, payload=b"b")), sub(5, "a", 0)), (("eof",),)), dt=20)
  return S


QUICK2 = ("3/5 keep", "3/5 lost", "5 takeover and keep", "5 websocket ping", "HTTP clients and 5", "clean up and publish", "clean up and return: delayed")
SC = {}
REF = {}


def prepare():
  if not SC:
    for s in races():
      SC[s[0]] = s


def execute(name, schedule, mode):
  "one execution: (outcome, error, log of decisions, steps)"
  r = Race(SC[name], dict(schedule), mode)
  err = None
  out = ""
  try:
    try:
      out = r.outcome()
    except Failure as e:
      err = str(e)
    except Exception as e:
      err = "exception %r" % e
  finally:
    log, steps = r.s.log, r.s.steps
    r.end()
  if err is None and out not in REF[name]:
    err = "the result is that of no sequence of the packets: %s; possible are e.g. %s" % (out[:1500], list(REF[name])[0][:1500])
  return out, err, log, steps


def case(task):
  name, first, start, used, bound, mode = task
  outs, n, err = sched.subtree(lambda schedule: execute(name, schedule, mode), first, start, used, bound)
  return "%s: %d results" % (name, len(outs)), err, n


def tasks(name, bound, mode):
  for first, start, used, b in sched.tasks(lambda schedule: execute(name, schedule, mode), bound):
    yield (name, first, start, used, b, mode)


def run(ctx):
  prepare()
  names = list(SC)
  for name, (r, err) in zip(names, enumr.parallel(lambda n: serial(SC[n]), names)):
    if err:
      ctx.violation({"part": "serial", "case": (name,)}, "exception when the packets are handled one after the other: " + err)
      return
    REF[name] = r[0]
  for mode, bound in (("calls", 1), ("unlocked", 2)) if ctx.quick else (("lines", 1), ("unlocked", 3), ("calls", 2)):
    items = []
    sel = [n for n in names if not (ctx.quick and bound > 1) or any(k in n for k in QUICK2)]
    for name, (r, err) in zip(sel, enumr.parallel(lambda n: list(tasks(n, bound, mode)), sel)):
      if err:
        ctx.violation({"part": mode, "case": (name, (), 10**9, 0, 0, mode)}, "exception: " + err)
        return
      items += r
    enumr.enumerate_all(ctx, "%d preemption%s, %s" % (bound, "s" if bound > 1 else "", mode), items, case, chunk=8, what=lambda t: t)
    if ctx.violations:
      return


def replay(what):
  prepare()
  name = what["case"][0]
  if what["part"] == "serial":
    serial(SC[name])
    print("not reproduced")
    return 0
  REF[name], n = serial(SC[name])
  o, e, n = case(what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
