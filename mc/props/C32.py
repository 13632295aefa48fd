"""With persistence, retained messages survive the orderly end of the server."""
import itertools, os, tempfile, shutil
from mc import enumr, wire, env
from mc.env import Env
from mc.site import Site
from mc.world import FakeSock
BOUNDS = {"quick": "all sequences of up to 3 of 14 operations (publications of both versions, $ topics, clearing, expiry, subscriptions of stored sessions, time, restarts), then a restart; 4 ways the server ends; without persistence",
          "thorough": "up to 4 operations"}
ASSUMPTIONS = ["the database (ZODB) stores what it is given"]

# (version, topic, payload, qos, retain, properties)
OPS = [("pub", 5, "t", b"5", 1, True, ((38, ("k", "v")), (3, "ct"))), ("pub", 3, "t", b"3", 2, True, ()), ("pub", 5, "t", b"", 1, True, ()), ("pub", 3, "t", b"", 0, True, ()),
       ("pub", 5, "u/v", b"\xff", 0, True, ((2, 8),)), ("pub", 3, "$x", b"x", 1, True, ()), ("pub", 5, "$x", b"y", 0, True, ()), ("pub", 5, "u/v", b"n", 1, False, ()),
       ("sub", 5), ("sub", 3), ("tick", 5), ("restart", "return"), ("restart", "interrupt"), ("restart", "signal")]


def connect(ver, cid, clean, will=None):
  return wire.encode(ver, {"type": "CONNECT", "clientid": cid, "clean": clean, "keepalive": 0, "will": will, "props": [(17, 1000)] if ver == 5 and not clean else []})


class Client:
  def __init__(self, site, ver, cid, clean):
    self.ver, self.b = ver, site.start.broker5 if ver == 5 else site.start.broker3
    self.s = FakeSock(cid)
    self.got = self.send(connect(ver, cid, clean))

  def send(self, data):
    self.s.inb = data
    while self.s.inb and not self.s.closed:
      self.b.handleRequest(self.s)
    out = b"".join(self.s.out)
    self.s.out = []
    res = []
    while out:
      k = wire.split(out)
      res.append(wire.decode(self.ver, out[:k], from_server=True))
      out = out[k:]
    return res

  def d(self, **kw):
    return self.send(wire.encode(self.ver, kw))

  def sub(self, f, q=2):
    return self.d(type="SUBSCRIBE", id=1, filters=[(f, q)], props=[])

  def pub(self, topic, payload, qos, retain, props):
    r = self.d(type="PUBLISH", topic=topic, payload=payload, qos=qos, id=1, retain=retain, dup=False, props=list(props))
    if qos == 2:
      r += self.d(type="PUBREL", id=1, rc=0)
    return r

  def bye(self):
    self.send(b"\xe0\x00")
    self.b.handleRequest(self.s)


def live(retained):
  return dict((t, m) for t, m in retained.items() if m[3] is None or m[3] > Env.now)


def look(site, retained):
  "everything retained, as new subscribers of both versions see it"
  for ver in (5, 3):
    c = Client(site, ver, "look%d" % ver, True)
    got = []
    for f in ("#", "$x"):
      for p in c.sub(f):
        if p["type"] == "PUBLISH":
          props = tuple(x for x in p.get("props", ()))
          got.append((p["topic"], p["payload"], p["qos"], p["retain"], props))
    want = []
    for t, (payload, qos, props, deadline) in live(retained).items():
      pr = props
      if deadline is not None:
        pr = ((2, int(deadline - Env.now)),)
      want.append((t, payload, qos, True, tuple(pr) if ver == 5 else ()))
    c.bye()
    if ver == 3:     # the expiry of messages is a matter of 5.0 clients
      got = [g for g in got if g[0] not in retained or g[0] in live(retained)]
    if sorted(map(norm, got)) != sorted(map(norm, want)):
      return "a new 3.1.1 or 5.0 (here %d) subscriber gets the retained messages %r instead of %r" % (ver, got, want)


def norm(x):
  return repr(x[:4] + (sorted(x[4]),))


def use(site, ops, stored, retained, first):
  "one run of the server; returns an error or None"
  if not first:
    for ver in sorted(stored):    # sessions are not stored, so nothing of them may be left
      x = Client(site, ver, "keep%d" % ver, False)
      if x.got[0].get("sp"):
        return "session present after a restart"
      p = Client(site, 8 - ver, "p", True)
      p.pub("zz", b"live", 1, False, ())
      p.pub("$zz", b"live", 1, False, ())
      p.bye()
      more = x.send(b"\xc0\x00")
      if [y["type"] for y in x.got + more] != ["CONNACK", "PINGRESP"]:
        return "after a restart, a client without a session gets %r" % (x.got + more)
      x.bye()
    stored.clear()
  err = look(site, retained)
  for op in ops:
    if err:
      break
    if op[0] == "pub":
      ver, topic, payload, qos, retain, props = op[1:]
      x = Client(site, ver, "p%d" % ver, True)
      x.pub(topic, payload, qos, retain, props)
      x.bye()
      if retain:
        retained.pop(topic, None)
        if payload:
          deadline = [v for i, v in props if i == 2]
          retained[topic] = (payload, qos, props, Env.now + deadline[0] if deadline else None)
    elif op[0] == "sub":
      x = Client(site, op[1], "keep%d" % op[1], False)
      x.sub("zz", 1)
      x.sub("$zz", 1)
      stored.add(op[1])
    elif op[0] == "tick":
      Env.now += op[1]
    err = look(site, retained)
  return err


ENDS = {"return": None, "interrupt": KeyboardInterrupt(), "signal": OSError("Signal interrupt")}


def case(c):
  ops, persist = c
  runs = [[[], "return"]]
  for op in ops:
    if op[0] == "restart":
      runs[-1][1] = op[1]
      runs.append([[], "return"])
    else:
      runs[-1][0].append(op)
  runs.append([[], "return"])
  d = tempfile.mkdtemp(prefix="vmc.")
  cwd = os.getcwd()
  retained, stored = {}, set()
  n = 0
  clock = [env.BASE]
  config = ["maximum_packet_size 1000\n", "listener 1883\n"]
  try:
    os.chdir(d)
    for i, (now, end) in enumerate(runs):
      def serving(site):
        Env.now = clock[0]
        err = use(site, now, stored, retained, i == 0)
        clock[0] = Env.now
        site.ending = ENDS[end]
        return "done", err
      site = Site(("run", ["persistence true\n"] + config if persist else config if len(ops) % 2 else ["persistence false\n"] + config), serving)
      n += 1 + len(now)
      if site.result is None:
        return "", "the server does not start" + (" again" if i else ""), n
      if site.result[1]:
        return "", site.result[1] + (" after restart %d" % i if i else ""), n
      if not persist:
        if os.listdir(d):
          return "", "files without persistence: %r" % os.listdir(d), n
        retained.clear()
    return "%d retained" % len(retained), None, n
  finally:
    os.chdir(cwd)
    shutil.rmtree(d)


def cases(thorough):
  for k in range(5 if thorough else 4):
    for seq in itertools.product(OPS, repeat=k):
      if all(a[0] != "restart" or b[0] != "restart" for a, b in zip(seq, seq[1:])) and (k < 4 or seq[0][0] == "pub"):
        yield seq, True
  for k in range(2):
    for seq in itertools.product(OPS, repeat=k):
      yield seq, False


def run(ctx):
  enumr.enumerate_all(ctx, "restarts", cases(not ctx.quick), case, chunk=8)


def replay(what):
  o, e, n = case(what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
