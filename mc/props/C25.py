"""The tracing and restart proxies pass on every packet unchanged, in both directions."""
import itertools, sys
from mc import enumr, sched, wire, env, explore, relay
from mc.env import Env
BOUNDS = {"quick": "both proxies: every interleaving of up to 4 packets of 10 kinds from the two sides, one at a time or at once, with every way a side can end at every place; sends of 1, 2 and 5 bytes; every 1 and 2 cuts of a session; refused connections; the terminating message at every place; two connections at once with every schedule of 1 preemption at any line of the proxy, and of 2 at every socket operation; control messages at every place; the command line",
          "thorough": "up to 5 packets; 3 cuts; 2 preemptions at any line"}
ASSUMPTIONS = ["paho.mqtt.client is not installed: the restart proxy is imported with a stand-in for it, and its control message is given to on_message",
               "a packet which has begun to arrive is completed before packets of the other side have to be passed on"]
E = lambda ver, **p: wire.encode(ver, p)
CLIENT = {
  "connect3": E(3, type="CONNECT", clientid="x", clean=True, keepalive=60),
  "connect5": E(5, type="CONNECT", clientid="x", clean=True, keepalive=60, props=[(33, 5)]),
  "publish3": E(3, type="PUBLISH", topic="a/b", payload=b"\x00\xffdata", qos=1, id=7),
  "publish5": E(5, type="PUBLISH", topic="a", payload=b"p", qos=2, id=9, props=[(38, ("k", "v"))]),
  "ping": E(3, type="PINGREQ"),
  "long length": b"\x30\x86\x80\x00\x00\x01aXYZ",
  "type 0": b"\x00\x02\x01\x02",
  "type 15": b"\xf0\x00",
  "bad utf8": b"\x30\x05\x00\x02\xff\xfeQ",
  "big": E(3, type="PUBLISH", topic="big", payload=bytes(range(256)) * 2, qos=0, id=0),
}
SERVER = dict(CLIENT)
SERVER["connack3"] = E(3, type="CONNACK", rc=0, sp=False)
SERVER["disconnect5"] = E(5, type="DISCONNECT", rc=0x8d)
TERMINATE = E(3, type="PUBLISH", topic="MQTTSAS topic", payload=b"TERMINATE", qos=0, id=0)
NEARLY = [E(3, type="PUBLISH", topic="MQTTSAS topic", payload=b"TERMINATE ", qos=0, id=0), E(3, type="PUBLISH", topic="MQTTSAS topi", payload=b"TERMINATE", qos=0, id=0), E(3, type="SUBSCRIBE", id=3, filters=[("MQTTSAS topic", 0)])]
NAMES = ("mqttsas", "netproxy")
ENDS = (("eof", 0, "c"), ("rst", 0, "c"), ("eof", 0, "s"), ("rst", 0, "s"))


def groupings(events, head=()):
  "every way to divide the events into moments"
  n = len(events)
  for bits in range(1 << max(n - 1, 0)):
    res, cur = [], []
    for i, e in enumerate(events):
      if i and bits >> (i - 1) & 1:
        res.append(tuple(cur))
        cur = []
      cur.append(e)
    if cur:
      res.append(tuple(cur))
    yield tuple(head) + tuple(res)


def check(c):
  name, script, conns = c[:3]
  r = relay.Relay(name, script, dict(c[3]) if len(c) > 3 else {}, conns)
  r.go()
  return r.outcome, r.error, len(script)


OPEN = ((("connect", 0),),)


def session_cases(thorough):
  kinds = sorted(CLIENT)
  pairs = [("c", k, CLIENT[k]) for k in kinds] + [("s", k, SERVER[k]) for k in sorted(SERVER)]
  for name in NAMES:
    # every sequence of 2 packets, with every ending at every place
    for n in (1, 2):
      for seq in itertools.product(pairs, repeat=n):
        ev = [(side, 0, b) for side, k, b in seq]
        yield name, OPEN + tuple((e,) for e in ev), 1
        for at in range(n + 1):
          for end in ENDS:
            if n == 2 and seq[0][1] not in ("connect3", "connect5", "type 0") and not thorough:
              continue
            for g in groupings(ev[:at] + [end] + ev[at:], OPEN):
              yield name, g, 1
    # longer ones: the sides in every order
    few = {"c": ["connect5", "publish3", "long length"], "s": ["connack3", "publish5", "type 0"]}
    for n in (3, 4, 5) if thorough else (3, 4):
      for sides in itertools.product("cs", repeat=n):
        i = {"c": 0, "s": 0}
        ev = []
        for x in sides:
          ev.append((x, 0, (CLIENT if x == "c" else SERVER)[few[x][i[x] % 3]]))
          i[x] += 1
        for g in groupings(ev, OPEN):
          for room in (None, 1, 2, 5):
            yield name, ((("room", room),),) + g, 1
        for at in range(n + 1):
          for end in ENDS:
            for g in groupings(ev[:at] + [end] + ev[at:], OPEN) if n < 4 or thorough else [OPEN + (tuple(ev[:at]), (end,), tuple(ev[at:])), OPEN + (tuple(ev[:at]) + (end,), tuple(ev[at:]))]:
              yield name, tuple(m for m in g if m), 1
    # both sides end
    for a, b in itertools.product(ENDS, repeat=2):
      for g in groupings([("c", 0, CLIENT["connect5"]), a, b, ("s", 0, SERVER["connack3"])], OPEN):
        yield name, g, 1
    # the broker cannot be reached, everything is there before the handler starts
    yield name, ((("refuse",),), (("connect", 0),), (("c", 0, CLIENT["connect3"]),)), 1
    yield name, ((("refuse",), ("connect", 0), ("c", 0, CLIENT["connect3"])),), 1
    yield name, ((("connect", 0), ("c", 0, CLIENT["connect3"] + CLIENT["publish3"]), ("eof", 0, "c")),), 1
    for size in (126, 127, 128, 129, 16382, 16383, 16384, 16385, 70000, 2097150) if thorough else (126, 127, 128, 16383, 16384, 70000):
      big = E(3, type="PUBLISH", topic="b", payload=bytes(i % 251 for i in range(size - 3)), qos=0, id=0)
      yield name, OPEN + ((("c", 0, big),), (("s", 0, big),)), 1
      yield name, OPEN + ((("c", 0, big + CLIENT["ping"]), ("s", 0, big + SERVER["connack3"])),), 1
    # not cut into packets
    for bad in (b"\x30\xff\xff\xff\xff", b"\x30\xff\xff\xff\xff\x01", b"\x10\x80\x80\x80\x80\x00"):
      for side in "cs":
        yield name, OPEN + ((("c", 0, CLIENT["connect3"]),), ((side, 0, bad),)), 1
        yield name, OPEN + (((side, 0, bad),), (("c", 0, CLIENT["connect3"]),)), 1


def split_cases(thorough):
  buf = {"c": CLIENT["connect3"] + CLIENT["publish3"] + CLIENT["ping"], "s": SERVER["connack3"] + SERVER["publish5"] + SERVER["type 15"]}
  other = {"c": ("s", 0, SERVER["connack3"]), "s": ("c", 0, CLIENT["connect5"])}
  for name in NAMES:
    for side in "cs":
      b = buf[side]
      for k in (1, 2, 3) if thorough else (1, 2):
        for cuts in itertools.combinations(range(1, len(b)), k):
          parts = [b[x:y] for x, y in zip((0,) + cuts, cuts + (len(b),))]
          ev = [((side, 0, p),) for p in parts]
          yield name, OPEN + tuple(ev), 1
          if k == 1:
            for end in (None,) + ENDS:
              e = [] if end is None else [(end,)]
              yield name, OPEN + (ev[0], (other[side],), ev[1]) + tuple(e), 1
              yield name, OPEN + (ev[0] + (other[side],), ev[1]) + tuple(e), 1
              if end:
                yield name, OPEN + (ev[0], (end,)), 1
                yield name, OPEN + (ev[0] + (end,),), 1
                yield name, OPEN + (ev[0], (end,), ev[1]), 1
      yield name, OPEN + tuple(((side, 0, b[i:i + 1]),) for i in range(len(b))), 1


def command_cases(thorough):
  for name in NAMES:
    ev = [("c", 0, CLIENT["connect3"]), ("c", 0, CLIENT["publish3"]), ("s", 0, SERVER["publish3"])]
    for x in [TERMINATE] + NEARLY:
      for at in range(4):
        if at == 0 and x == TERMINATE:
          continue      # a command of a connected client
        for g in groupings(ev[:at] + [("c", 0, x)] + ev[at:], OPEN):
          yield name, g, 1
          yield name, g + ((("eof", 0, "c"),),), 1
        for g in groupings(ev[:at] + [("s", 0, x)] + ev[at:], OPEN):
          yield name, g, 1
  two = [("c", 0, CLIENT["connect3"]), ("s", 0, SERVER["connack3"]), ("connect", 1), ("c", 1, CLIENT["connect5"]), ("eof", 1, "c"), ("c", 0, CLIENT["publish3"]), ("s", 0, SERVER["publish3"])]
  for at in range(len(two) + 1):
    for conns in (1, 2):
      ev = [e for e in two if conns == 2 or e[1] == 0]
      if at <= len(ev):
        yield "netproxy", OPEN + tuple((e,) for e in ev[:at] + [("break",)] + ev[at:]), conns
        yield "netproxy", OPEN + tuple((e,) for e in ev[:at] + [("break",), ("break",)] + ev[at:]), conns
  yield "netproxy", ((("break",),),) + OPEN + ((("c", 0, CLIENT["connect3"]),),), 1


def port_cases(thorough):
  for name in NAMES:
    for argv in ((), ("localhost",), ("localhost", "1885"), ("other",), ("other", "1885"), ("10.0.0.1", "1883")):
      yield name, argv


def ports(c):
  name, argv = c
  m = relay.modules()[name]
  seen = []
  class Stop(BaseException): pass
  class Server:
    def __init__(self, address, handler, *a, **k):
      seen.append((tuple(address), handler))
    def serve_forever(self, *a, **k): raise Stop()
    def __enter__(self): return self
    def __exit__(self, *a): pass
  old, m.ThreadingTCPServer, args = m.ThreadingTCPServer, Server, sys.argv
  m.print = lambda *a, **k: None
  sys.argv = ["proxy"] + list(argv)
  try:
    m.run()
  except Stop:
    pass
  finally:
    m.ThreadingTCPServer, sys.argv = old, args
  host = argv[0] if argv else "localhost"
  port = int(argv[1]) if len(argv) > 1 else 1883
  own = port + 1 if host == "localhost" else 1883
  err = None
  if (m.brokerhost, m.brokerport) != (host, port):
    err = "takes %s:%s for the broker's address" % (m.brokerhost, m.brokerport)
  elif len(seen) != 1 or seen[0][0][1] != own:
    err = "listens on %r instead of port %d" % (seen, own)
  return repr(seen and seen[0][0]), err, 1


def races():
  a = [("c", 0, CLIENT["connect3"]), ("s", 0, SERVER["connack3"]), ("c", 0, CLIENT["publish3"])]
  b = [("c", 1, CLIENT["connect5"]), ("s", 1, SERVER["disconnect5"]), ("s", 1, SERVER["publish5"])]
  both = (("connect", 0), ("connect", 1))
  yield "connect at once", (both, tuple(a[:2] + b[:2]), tuple(a[2:] + b[2:]))
  yield "connect one by one", OPEN + ((a[0],), (a[1], ("connect", 1)), tuple([a[2]] + b))
  yield "one reconnects", OPEN + ((a[0],), (("eof", 0, "c"), ("connect", 1)), tuple(b), (("eof", 1, "s"),))
  yield "both end", (both + tuple(a + b), (("eof", 0, "s"), ("eof", 1, "c")))
  yield "the first breaks", (both, tuple(a + b), (("rst", 0, "c"), b[2]), (b[0],))
  yield "short sends", ((("room", 3),) + both, tuple(a + b))


RACES = [(n, name) for name in NAMES for n, s in races()]


def execute(race, schedule, traced):
  n, name = race
  r = relay.Relay(name, dict(races())[n], dict(schedule), 2)
  r.go(traced)
  return r.outcome, r.error, r.log, r.steps


def race_case(task):
  race, first, start, used, bound, traced = task
  outs, n, err = sched.subtree(lambda schedule: execute(race, schedule, traced), first, start, used, bound)
  return "%s: %d results" % (race, len(outs)), err, n


def tasks(race, bound, traced):
  return [(race, first, start, used, b, traced) for first, start, used, b in sched.tasks(lambda schedule: execute(race, schedule, traced), bound)]


PARTS = {"sessions": (check, session_cases), "split": (check, split_cases), "commands": (check, command_cases), "ports": (ports, port_cases)}


def run(ctx):
  for part, (fn, cases) in PARTS.items():
    enumr.enumerate_all(ctx, part, cases(not ctx.quick), fn, chunk=64)
    if ctx.violations:
      return
  for traced, bound in ((False, 2), (True, 1)) if ctx.quick else ((False, 3), (True, 2)):
    items = []
    for race, (r, err) in zip(RACES, enumr.parallel(lambda n: tasks(n, bound, traced), RACES)):
      if err:
        ctx.violation({"part": "races", "case": (race, (), 10**9, 0, 0, traced)}, "exception: " + err)
        return
      items += r
    enumr.enumerate_all(ctx, "%d preemptions, %s" % (bound, "lines" if traced else "socket operations"), items, race_case, chunk=4)
    if ctx.violations:
      return


def replay(what):
  outcome, err, n = PARTS.get(what["part"], (race_case,))[0](what["case"])
  print("REPRODUCED: %s" % err if err else "not reproduced")
  return 1 if err else 0
