"""The client library keeps to the protocol."""
import itertools, os, socket, time
from mc import enumr, env, client, sched, wire, pool
from mc.env import Env
from mc.explore import Scenario
from mc.lib import count
from mc.client import ClientWorld
from mc.refbroker import Mismatch
BOUNDS = {"quick": "one client of either version: all sequences of application calls, server packets, lost connections and reconnections to depth 5-7 from a connected client (up to 2 publications, 2 subscriptions at a time); callbacks which accept, refuse or publish; short sends and reads; packet ids: all patterns of used ids around the wrap",
          "thorough": "one more operation"}


def T(type, **kw):
  return (("type", type),) + tuple(sorted(kw.items()))


def sync(w):
  "acknowledgements the server can send now"
  res = []
  for x in w.out:
    if x[1] == 1:
      res.append(("srv", T("PUBACK", id=x[0])))
    elif x[2] == "P":
      res.append(("srv", T("PUBREC", id=x[0])))
    else:
      res.append(("srv", T("PUBCOMP", id=x[0])))
  return res


def scenarios(ctx):
  client.find_anatomy()
  d = 0 if ctx.quick else 1
  return version(3, d) + version(5, d)


def version(v, d):
  S = []
  n = "v%d " % v
  ka = dict(expiry=100) if v == 5 else {}
  clean = ("connect", True)
  keep = ("connect", False)

  def outgoing(w, hist):
    res = []
    if not w.online:
      return res
    if count(hist, lambda op: op[0] == "publish") < 3:
      res += [("publish", "t", b"1", 1, False), ("publish", "t/u", b"2\xff", 2, True, "ct"), ("publish", "\u00fc", "" if v == 5 else b"", 0, True), ("publish", "t", "text \u20ac" if v == 5 else b"text", 2, False)]
    res += sync(w)
    for x in w.out:
      if v == 5 and x[1] == 2 and x[2] == "P":
        res.append(("srv", T("PUBREC", id=x[0], rc=135)))
        res.append(("srv", T("PUBREC", id=x[0], rc=16)))
      if v == 5 and x[1] == 1:
        res.append(("srv", T("PUBACK", id=x[0], rc=135)))
    res += [("idle",)]
    if not w.out:
      res += [("disconnect",)]
    else:
      res += [("disconnect", True)]
    res += [("terminate",)]
    return res
  S.append(Scenario(n + "outgoing", lambda v=v: ClientWorld(v), outgoing, 6 + d, [clean]))
  S.append(Scenario(n + "outgoing, short sends and reads", lambda v=v: ClientWorld(v, room=2, step=1), outgoing, 4 + d, [clean]))

  P = lambda i, q, **kw: T("PUBLISH", topic=kw.pop("topic", "a/b"), payload=kw.pop("payload", b"x%d" % q), qos=q, id=i, **kw)

  def incoming(w, hist):
    res = []
    if not w.online:
      return res
    ct = {"props": ((3, "ct"),)} if v == 5 else {}
    for a in (True, False):
      res += [("srv", P(1, 1, retain=True), a), ("srv", P(0, 0, payload=b"", **ct), a)]
      for i in list(w.inn) + [9]:
        res.append(("srv", T("PUBREL", id=i), a))
    res += [("srv", P(2, 2, **ct)), ("srv", P(2, 2, dup=True, **ct)), ("srv", P(3, 2, payload=b"y", topic="\u00fc", retain=True))]
    if count(hist, lambda op: op[-1] == "publish") < 2:
      res += [("srv", P(4, 1), "publish"), ("srv", P(0, 0), "publish")]
      if 3 in w.inn:
        res += [("srv", T("PUBREL", id=3), "publish")]
    res += sync(w) + [("pause",), ("resume",)]
    if w.paused:
      res = [op for op in res if op[-1] != "publish"]
    if not (w.paused and (w.out or w.inn)):
      res.append(("disconnect", True))
    return res
  S.append(Scenario(n + "incoming", lambda v=v: ClientWorld(v), incoming, 4 + d, [clean]))
  S.append(Scenario(n + "incoming, short sends and reads", lambda v=v: ClientWorld(v, room=1, step=2), incoming, 3 + d, [clean]))

  def subs(w, hist):
    if not w.online:
      return []
    last = getattr(w, "last", 77)
    return [("sub", ("a", "b/#"), (1, 2)), ("unsub", ("a", "c")), ("sub", ("+",), (0,)), ("srv", T("SUBACK", id=last, codes=(1, 128) if v == 3 else (1, 135))),
            ("srv", T("UNSUBACK", id=last + 1, codes=(0, 17))), ("publish", "t", b"1", 1, False), ("srv", P(5, 1))] + sync(w) + \
           ([("srv", T("DISCONNECT", rc=142)), ("srv", T("DISCONNECT", rc=0))] if v == 5 else [])
  S.append(Scenario(n + "subscriptions", lambda v=v: ClientWorld(v), subs, 6 + d, [clean]))

  def sessions(w, hist):
    if w.stuck:
      return []
    if not w.online:
      res = [("connect", True), ("connect", True, 5 if v == 3 else 135), ("connect", False, "eof"), ("connect", True, "silence")]
      if w.session:
        res += [("connect", False, 0, True)]
        if v == 5 or not (w.out or w.inn):
          res += [("connect", False)]
      else:
        res += [("connect", False)]
      return res
    res = sync(w)
    if count(hist, lambda op: op[0] == "publish") < 2:
      res += [("publish", "t", b"1", 1, False), ("publish", "t", b"2", 2, True, "ct")]
      if ("wrap",) not in hist and not w.out:
        res.append(("wrap",))
    res += [("srv", P(2, 2)), ("srv", T("PUBREL", id=2)), ("lost",), ("pause",), ("resume",), ("disconnect", True)]
    if w.out or w.inn:
      res += [("disconnect", False)] if not w.paused else []
    res += [("terminate",)]
    return res
  S.append(Scenario(n + "sessions", lambda v=v: ClientWorld(v, **({"expiry": 100} if v == 5 else {})), sessions, 7 + d, [keep]))

  def direct(w, hist):
    if not w.online:
      return []
    res = [("receive", P(1, 1, retain=True)), ("receive", P(0, 0)), ("receive", P(2, 2)), ("receive", T("PUBREL", id=2)), ("receive", T("PUBREL", id=7)),
           ("receive", T("SUBACK", id=1, codes=(0,))), ("receive", T("UNSUBACK", id=1, codes=(0,))), ("receive_nothing",), ("pause",), ("resume",)]
    res += [("receive", op[1]) for op in sync(w)]
    if count(hist, lambda op: op[0] == "publish") < 2:
      res += [("publish", "t", b"1", 1, False), ("publish", "t", b"2", 2, True)]
    if not w.out and not w.inn:
      res += [("disconnect",)]
    return res
  S.append(Scenario(n + "without callback", lambda v=v: ClientWorld(v, callback=False), direct, 6 + d, [clean]))

  kws = [(), (("keepalive", 65535),), (("username", "us\u00e9r"),), (("username", "u"), ("password", b"p\xe4ss")),
         (("willFlag", True), ("willTopic", "w/t"), ("willMessage", b"gone"), ("willQoS", 0), ("willRetain", False)),
         (("willFlag", True), ("willTopic", "w/t"), ("willMessage", b"\xff"), ("willQoS", 1), ("willRetain", True), ("willprops", (("WillDelayInterval", 7),) if v == 5 else ())),
         (("willFlag", True), ("willTopic", "w"), ("willMessage", b""), ("willQoS", 2), ("willRetain", True), ("username", "u"), ("password", b"p"), ("keepalive", 1))]
  refusals = (1, 2, 3, 4, 5) if v == 3 else (128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157, 159)

  def connects(w, hist):
    if w.online:
      return [("disconnect",), ("publish", "t", b"1", 0, False)]
    return [("connect", c, 0, False, kw) for kw in kws for c in (True, False)] + [("connect", True, r) for r in refusals] + [("connect", True, "eof"), ("connect", False, "silence")]
  S.append(Scenario(n + "connect", lambda v=v: ClientWorld(v), connects, 3 + d, []))
  S.append(Scenario(n + "connect, short sends and reads", lambda v=v: ClientWorld(v, room=3, step=1, **({"expiry": 4294967295} if v == 5 else {})), connects, 2 + d, []))
  return S


# ------------------------------------------------------------------ packet ids
def ids(case):
  ver, start, used, m = case
  client.find_anatomy()
  w = ClientWorld(ver)
  try:
    w._do(("connect", True))
    if not client.set_last_id(w.client, ver, start):
      return "not reachable", None, 0
    full = used == "all"
    free = None if not full else m
    taken = set(range(1, 65536)) - {free} if full else set(used)
    if not client.occupy(w.client, ver, taken):
      return "not reachable", None, 0
    got = []
    for k in range(1 if full else m):
      w.events = []
      try:
        got.append(w.client.publish("t", b"x", 1))
      except Exception as e:
        got.append(type(e).__name__)
        break
    if full:
      ok = got == [free] if free else type(got[0]) is str
      if free is None and w.events:
        ok = False
    else:
      ok = all(type(i) is int and 0 < i < 65536 for i in got) and len(set(got)) == m and not set(got) & taken
    return "%s %s" % (ver, "full" if full else "free"), None if ok else "packet ids %r although %s are in use" % (got, "all but %r" % free if full else sorted(taken)), len(got)
  finally:
    w.end()


def idcases(quick):
  edge = [1, 2, 3, 65533, 65534, 65535]
  for v in (3, 5):
    for start in (1, 2, 65532, 65533, 65534, 65535):
      for k in range(len(edge) + 1):
        for used in itertools.combinations(edge, k):
          yield v, start, used, 4
      for free in (None, 1, 2, 65534, 65535, 300):
        yield v, start, "all", free


# ------------------------------------------------------------------ threads
TRACED = [os.path.join(env.REPO, "interoperability", "mqtt", "clients") + os.sep]


class Race:
  """application threads and the receiver under a controlled scheduler; the server acknowledges at once.
  scenario: (name, version, first id, callback's answer, packets of the server, ((calls of thread 1), ...))"""

  def __init__(self, scenario, schedule, mode):
    self.name, self.ver, start, self.answer, packets, self.threads = scenario
    self.s = None
    self.timers = {}
    self.errors, self.out, self.events, self.ids, self.raw = [], [], [], [], []
    self.held = set()
    client.find_anatomy()
    Env.reset()
    client.install()
    Env.on_lock = lambda kind: sched.Lock(kind)
    Env.on_sleep = self.sleep
    self.sock = RaceSock(self)
    self.receivers = []
    client.Hook.factory = lambda: self.sock
    client.Hook.starter = self.start
    mod = client.module(self.ver)
    if not sched._codes:
      client.module(3), client.module(5)
      sched.instrument(TRACED)
    self.client = mod.Client("cl")
    self.client.registerCallback(self)
    self.sock.inb = wire.encode(self.ver, {"type": "CONNACK", "sp": False, "rc": 0})
    self.client.connect(**{"cleanstart" if self.ver == 5 else "cleansession": True})
    client.set_last_id(self.client, self.ver, start)
    self.out.clear()
    for p in packets:
      self.sock.inb += wire.encode(self.ver, dict(p))
      self.held.add(dict(p).get("id") if dict(p)["qos"] == 2 else None)
    s = self.s = sched.Sched(schedule, mode)
    for k, calls in enumerate(self.threads):
      s.add("app%d" % (k + 1), self.app(calls))
    for k, (fn, args) in enumerate(self.receivers):
      s.add("receiver%d" % k, lambda fn=fn, args=args: fn(*args))
    s.free = True
    for n in s.threads:
      s.state[n] = "run"
    s.on_idle = self.idle
    s.run()

  def start(self, fn, args, kwargs):
    self.receivers.append((fn, args))
    return 1

  def app(self, calls):
    def go():
      for c in calls:
        if c[0] == "publish":
          self.ids.append((c[3], self.client.publish(*c[1:])))
        elif c[0] == "sub":
          o = [c[2]]
          if self.ver == 5:
            from mqtt.formats import MQTTV5
            o = [MQTTV5.SubscribeOptions(c[2])]
          self.ids.append(("sub", self.client.subscribe([c[1]], o)))
        elif c[0] == "unsub":
          self.ids.append(("unsub", self.client.unsubscribe([c[1]])))
        elif c[0] == "disconnect":
          self.client.disconnect()
    return go

  # time passes when no thread can go on
  def sleep(self, secs):
    s = self.s
    if s is None or s.me() == "main":
      Env.now += secs
      return
    until = Env.now + secs
    self.timers[s.me()] = until
    s.wait(lambda: Env.now >= until)
    self.timers.pop(s.me(), None)

  def idle(self):
    app = [t for n, t in self.timers.items() if n.startswith("app")]
    if not app and all(self.s.state[n] == "done" for n in self.s.threads if n.startswith("app")):
      return False
    t = min(list(self.timers.values()), default=None)
    if t is None or Env.now > env.BASE + 100:
      return False
    Env.now = max(t, Env.now)
    return True

  # callbacks
  def publishArrived(self, topicName, payload, qos, retained, msgid, properties=None):
    self.events.append(("arrived", qos, bytes(payload)))
    if self.answer == "publish":
      self.ids.append((1, self.client.publish("r", b"reply", 1)))
    return True

  def published(self, msgid):
    self.events.append(("published", msgid))

  # the server
  def sent(self, data):
    self.sock.outb += data
    while True:
      n = wire.split(self.sock.outb) if self.sock.outb else None
      if n is None:
        return
      buf, self.sock.outb = self.sock.outb[:n], self.sock.outb[n:]
      try:
        p = wire.decode(self.ver, buf, from_server=False)
      except wire.Malformed as e:
        self.errors.append("the client sends a malformed packet (%s): %s" % (e, buf.hex()))
        return
      self.out.append(p)
      a = {"PUBREL": "PUBCOMP", "SUBSCRIBE": "SUBACK", "UNSUBSCRIBE": "UNSUBACK", "PUBREC": "PUBREL"}.get(p["type"])
      if p["type"] == "PUBLISH" and p["qos"]:
        a = "PUBACK" if p["qos"] == 1 else "PUBREC"
      if a:
        self.sock.inb += wire.encode(self.ver, dict({"type": a, "id": p["id"]}, **({"codes": (0,)} if a in ("SUBACK", "UNSUBACK") else {})))

  def outcome(self):
    s = self.s
    if s.errors:
      return None, "exception: %s" % s.errors[0]
    if s.blocked:
      return None, "threads wait for each other: %s" % s.blocked
    if self.errors:
      return None, self.errors[0]
    for n in s.threads:
      if n.startswith("app") and s.state[n] != "done":
        return None, "%s does not end" % n
    if self.sock.outb:
      return None, "half a packet is sent"
    want = sorted([("PUBLISH", c[3]) for t in self.threads for c in t if c[0] == "publish"] + [("SUBSCRIBE", None) for t in self.threads for c in t if c[0] == "sub"] +
                  [("UNSUBSCRIBE", None) for t in self.threads for c in t if c[0] == "unsub"] + [("PUBLISH", 1) for i in self.events if i[0] == "arrived" and self.answer == "publish"], key=repr)
    got = sorted([(p["type"], p.get("qos")) for p in self.out if p["type"] in ("PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE")], key=repr)
    if want != got:
      return None, "the client sends %r instead of %r" % (got, want)
    ids = [p["id"] for p in self.out if p["type"] in ("PUBLISH", "SUBSCRIBE", "UNSUBSCRIBE") and p["id"]]
    if len(set(ids)) != len(ids) or sorted(i for q, i in self.ids if q) != sorted(ids):
      return None, "packet ids %r are sent, %r are returned" % (ids, self.ids)
    done = sorted(e[1] for e in self.events if e[0] == "published")
    acked = sorted(p["id"] for p in self.out if p["type"] == "PUBLISH" and p["qos"])
    if done != acked:
      return None, "messages %r are published, %r reported as published" % (acked, done)
    bye = [p["type"] for p in self.out].count("DISCONNECT")
    if bye != len([c for t in self.threads for c in t if c[0] == "disconnect"]) or bye and self.out[-1]["type"] != "DISCONNECT":
      return None, "sends %r" % [p["type"] for p in self.out]
    left = client.unacknowledged(self.client, self.ver)
    if left:
      return None, "messages are left: %r" % left
    return " ".join(p["type"] for p in self.out), None


class RaceSock(client.Sock):
  def __init__(self, race):
    self.race = race
    self.inb = self.outb = b""
    self.closed = self.down = False

  def connect(self, address):
    pass

  def readable(self):
    return self.inb or self.closed or self.down

  def recv(self, n, flags=0):
    s = self.race.s
    if not self.readable() and s is not None and s.me() != "main":
      until = Env.now + .5
      self.race.timers[s.me()] = until
      cond = lambda: self.readable() or Env.now >= until
      cond.idle = True
      s.wait(cond)
      self.race.timers.pop(s.me(), None)
    if self.closed:
      raise OSError(9, "Bad file descriptor")
    if self.inb:
      r, self.inb = self.inb[:n], self.inb[n:]
      return r
    if self.down:
      return b""
    raise TimeoutError("timed out")

  def send(self, data, flags=0):
    if self.closed or self.down:
      raise OSError(9, "Bad file descriptor")
    s = self.race.s
    if s is not None and s.me() != "main":
      s.point()
    k = min(len(data), 9)
    self.race.sent(bytes(data[:k]))
    return k

  def shutdown(self, how):
    self.down = True

  def close(self):
    self.closed = True


def races():
  P = lambda i, q: T("PUBLISH", topic="a", payload=b"x", qos=q, id=i)
  for v in (3, 5):
    n = "v%d " % v
    p0, p1, p2 = (("publish", "t", b"payload%d" % q, q) for q in (0, 1, 2))
    yield n + "two applications publish", v, 65533, True, (), ((p1, p2), (p1,))
    yield n + "publish and receive", v, 1, True, (P(1, 1), P(2, 2)), ((p2, p0),)
    yield n + "publish, and publish in a callback", v, 1, "publish", (P(0, 0), P(7, 1)), ((p1,),)
    yield n + "subscribe and publish", v, 1, True, (), ((("sub", "a/longer/filter", 1), p1), (("unsub", "b/longer/filter"), p2))
    yield n + "disconnect with messages in flight", v, 1, True, (P(3, 2),), ((p1, p2, ("disconnect",)),)


SC = {}


def execute(name, schedule, mode):
  if not SC:
    SC.update((s[0], s) for s in races())
  r = None
  try:
    r = Race(SC[name], dict(schedule), mode)
    out, err = r.outcome()
  finally:
    if r and r.s:
      log, steps = r.s.log, r.s.steps
      r.s.end()
    client.Hook.factory = client.Hook.starter = None
    Env.active = False
  return out, err, log, steps


def case(task):
  name, first, start, used, bound, mode = task
  outs, n, err = sched.subtree(lambda schedule: execute(name, schedule, mode), first, start, used, bound)
  return "%s: %d results" % (name, len(outs)), err, n


def tasks(name, bound, mode):
  return [(name, first, start, used, b, mode) for first, start, used, b in sched.tasks(lambda schedule: execute(name, schedule, mode), bound)]


PARTS = {"packet ids": ids}


def run(ctx):
  enumr.enumerate_all(ctx, "packet ids", idcases(ctx.quick), ids, chunk=8)
  for mode, bound in (("lines", 1), ("unlocked", 2)) if ctx.quick else (("lines", 2), ("unlocked", 3)):
    items = []
    for name, (r, err) in zip([s[0] for s in races()], enumr.parallel(lambda n: tasks(n, bound, mode), [s[0] for s in races()])):
      if err:
        ctx.violation({"part": "threads", "case": (name, (), 10**9, 0, 0, mode)}, "exception: " + err)
        return
      items += r
    enumr.enumerate_all(ctx, "%d preemption%s, %s" % (bound, "s" if bound > 1 else "", mode), items, case, chunk=4)
    if ctx.violations:
      return


def replay(what):
  outcome, err, n = PARTS.get(what["part"], case)(what["case"])
  print("REPRODUCED: %s" % err if err else "not reproduced")
  return 1 if err else 0
