"""Inbound QoS 2: exactly once."""
from mc.lib import *
BOUNDS = {"quick": "1 publisher, packet ids 1-2, retransmission, lost connection and takeover at any point, both release policies; depth 6", "thorough": "depth 7"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  for v, kw in ((5, {"expiry": 1000}), (3, {})):
    for late in (False, True):
      re = connect("p", clean=False, **kw)
      en = simple({"p": [("pub", "p", "a", 2, False, b"1", 1), ("pub", "p", "a", 2, False, b"1", 1, True), ("pub", "p", "a", 2, False, b"2", 2),
                         ("pub", "p", "a", 1, False, b"q", 1), ("pubrel", "p", 1), ("pubrel", "p", 2), ("drop", "p"), ("disconnect", "p"), re]},
                  [(down("p"), re), (down("p"), connect("p", clean=True, **kw))])
      res.append(broker_scenario("v%d %s" % (v, "on PUBREL" if late else "on PUBLISH"), {"p": v, "x": 5}, en, 7 + d,
                                 prefix=[re, connect("x"), ("sub", "x", (("a", 0),))], options={"publish_on_pubrel": late}))
  # two publishers use the same packet identifiers
  for late in (False, True):
    en = simple({"p": [("pub", "p", "a", 2, False, b"1", 1), ("pubrel", "p", 1), ("drop", "p")], "q": [("pub", "q", "a", 2, True, b"2", 1), ("pubrel", "q", 1), ("drop", "q")],
                 "x": [("unsub", "x", ("a",)), ("sub", "x", (("a", 0),))]},
                [(down("p"), connect("p", clean=False, expiry=1000)), (down("q"), connect("q", clean=False))])
    res.append(broker_scenario("two publishers %s" % late, {"p": 5, "q": 3, "x": 5}, en, 7 + d,
               prefix=[connect("p", expiry=1000), connect("q", clean=False), connect("x"), ("sub", "x", (("a", 0),))], options={"publish_on_pubrel": late}))
  return res
