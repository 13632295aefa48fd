"""Keep alive."""
from mc.lib import *
BOUNDS = {"quick": "keep alive 0/4/10/100 with server limits 60/5, activity of several kinds at any point, ticks below and above 1.5 intervals; reconnection with another keep alive; depth 5", "thorough": "depth 6"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  will = (("topic", "w"), ("payload", b"dead"), ("qos", 1), ("retain", False), ("props", ()))
  for v in (5, 3):
    for ka, limit in ((4, 60), (0, 60), (10, 5), (10, 60)):
      c = connect("x", keepalive=ka, will=will)
      eff = limit if v == 5 and ka > limit else ka or 4
      ticks = [eff * 0.6, eff * 1.0 + 0.1, eff * 1.4, eff * 1.6]
      ops = [("ping", "x"), ("sub", "x", (("a", 0),)), ("pub", "x", "a", 1, False, b"1", 1), ("pub", "x", "b", 2, False, b"2", 1)]
      ops += [("pubrel", "x", 1), ("unsub", "x", ("a",)), ("stray", "x", "PUBACK", 3)]
      en = simple({"x": ops, "y": [("pub", "y", "a", 0), ("sub", "y", (("a", 0),))]}, [(None, ("tick", round(t, 3))) for t in ticks] + [(down("x"), c)], limits=[(("tick",), 4), (("sub",), 2)])
      res.append(broker_scenario("v%d keepalive %d limit %d" % (v, ka, limit), {"x": v, "y": v}, en, 5 + d, prefix=[connect("y"), ("sub", "y", (("w", 0),)), c],
                                 options={"serverKeepAlive": limit}))
  # the keep alive of a session is that of its latest connection
  for v in (5, 3):
    ex = {"expiry": 1000} if v == 5 else {}
    C = lambda ka: connect("x", keepalive=ka, clean=False, **ex)
    en = simple({"x": [("ping", "x"), ("drop", "x"), C(4), C(20)], "y": []}, [(None, ("tick", 5.3)), (None, ("tick", 6.4)), (None, ("tick", 23.9)), (down("x"), C(0)), (down("x"), C(4)), (down("x"), C(20))],
                limits=[(("tick",), 4)])
    res.append(broker_scenario("v%d reconnection" % v, {"x": v, "y": v}, en, 5 + d, prefix=[connect("y"), C(20)]))
  return res
