"""Will messages."""
from mc.lib import *
BOUNDS = {"quick": "every way a connection can end, will delay shorter/longer than session expiry, ticks in between; depth 5-6", "thorough": "depth 6-7"}


def W(topic="w", qos=1, retain=False, payload=b"will", **props):
  ids = {"delay": 24, "expiry": 2, "fmt": 1, "ctype": 3}
  return (("topic", topic), ("payload", payload), ("qos", qos), ("retain", retain), ("props", tuple((ids[k], v) for k, v in sorted(props.items())) + (((38, ("k", "v")),) if props else ())))


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  pre = [connect("x"), ("sub", "x", (("w", 2),))]
  # 5.0: delays; errors of every class
  bads = [b"\x00\x00", b"\x30\x08\x00\x01a\x03\x23\x00\x03x", b"\x30\x81\x02\x00\x01a\x00" + b"x" * 253, b"\x82\x08\x00\x01\x00\x00\x02a+\x00", b"\xd0\x00"]
  for exp, delay in ((10, 0), (10, 5), (10, 20), (0, 5), (30, 20)):
    c = connect("p", clean=False, expiry=exp, will=W(delay=delay, ctype="t"))
    en = simple({"p": [("drop", "p"), ("disconnect", "p"), ("disconnect", "p", 4), ("disconnect", "p", 0, ((17, 0),)), ("disconnect", "p", 4, ((17, 3),)), c, ("connect_again", "p")] + [("raw", "p", x) for x in bads]},
                [(down("p"), c), (down("p"), connect("p", clean=False, expiry=exp)), (None, connect("p", clean=True))] + [(None, ("tick", t)) for t in (4.1, 8.2)],
                limits=[(("tick",), 4)])
    res.append(broker_scenario("v5 expiry %d delay %d" % (exp, delay), {"x": 5, "p": 5}, en, 6 + d, prefix=pre + [c]))
  # 3.1.1
  c = connect("p", clean=False, will=W(retain=True, qos=2))
  en = simple({"p": [("drop", "p"), ("disconnect", "p"), c, ("raw", "p", b"\x00\x00"), ("connect_again", "p"), ("ping", "p")], "x": [("sub", "x", (("#", 1),))]},
              [(down("p"), c), (down("p"), connect("p", clean=True, will=W(qos=0, payload=b"")))] + [(None, ("tick", t)) for t in (40.1,)], limits=[(("tick",), 2)])
  res.append(broker_scenario("v3", {"x": 3, "p": 3}, en, 6 + d, prefix=pre + [c]))
  # connections with and without clean session, each ended by the next one
  for v in (3, 5):
    cs = [connect("p", clean=k, **({"will": W(payload=b"c%d" % k)} if w else {}), **({"expiry": e} if e else {})) for k in (True, False) for w in (True, False) for e in ((0, 100) if v == 5 else (0,))]
    en = simple({"p": [("drop", "p"), ("disconnect", "p")]}, [(None, c) for c in cs])
    res.append(broker_scenario("v%d taken over" % v, {"x": v, "p": v}, en, 5 + d, prefix=pre + [cs[0]]))
  # keep alive loss, two wills, the willing client subscribed to its own will, persistence
  a = connect("p", clean=True, expiry=100, keepalive=4, will=W())
  b = connect("q", clean=False, keepalive=4, will=W(qos=2, payload=b"q", retain=True))
  en = simple({"p": [("drop", "p"), ("sub", "p", (("w", 1, True),)), ("ping", "p"), ("disconnect", "p")], "q": [("drop", "q"), ("sub", "q", (("#", 1),)), ("disconnect", "q")]},
              [(down("p"), connect("p", clean=False, expiry=100)), (down("q"), b), (None, ("tick", 3.5))], limits=[(("tick",), 4)])
  res.append(broker_scenario("two wills", {"x": 5, "p": 5, "q": 3}, en, 5 + d, prefix=pre + [a, b]))
  # wills with a message expiry and application properties, delayed
  c = connect("p", clean=False, expiry=50, will=W(delay=5, expiry=6, fmt=1, ctype="c"))
  en = simple({"p": [("drop", "p")], "x": [("drop", "x")]}, [(down("p"), c), (down("x"), connect("x", clean=False, expiry=100)), (None, ("tick", 3.3)), (None, ("tick", 6.1))])
  res.append(broker_scenario("will properties", {"x": 5, "p": 5}, en, 6 + d, prefix=[connect("x", expiry=100), ("sub", "x", (("w", 1),)), c]))
  return res
