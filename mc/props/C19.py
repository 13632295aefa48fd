"""MQTT 5.0 subscription options and identifiers."""
from mc.lib import *
BOUNDS = {"quick": "No Local, Retain As Published, Retain Handling 0-2, subscription identifiers, overlapping filters, resubscription, any pair of filters in one SUBSCRIBE; depth 4-5", "thorough": "depth 5-6"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  subs = []
  for f in ("a", "+"):
    for nl, rap, rh, sid in ((0, 0, 0, None), (1, 0, 0, 5), (0, 1, 1, 6), (1, 1, 2, None), (0, 0, 1, 300000)):
      subs.append(("sub", "x", ((f, 1, bool(nl), bool(rap), rh),), sid))
  ops = {"x": subs + [("pub", "x", "a", 1, False, b"own", 1), ("pub", "x", "a", 0, True, b"ownr"), ("unsub", "x", ("a",)), ("unsub", "x", ("+",))],
         "p": [("pub", "p", "a", 1, True, b"r", 1), ("pub", "p", "a", 0, False, b"n"), ("pub", "p", "a", 0, True, b"")]}
  for ov in (True, False):
    res.append(broker_scenario("options, overlapping %s" % ov, {"x": 5, "p": 5}, simple(ops, limits=[(("pub",), 3), (("sub",), 3)]), 4 + d, prefix=[connect("x"), connect("p")],
                               options={"overlapping_single": ov}))
  # options survive reconnection; retained messages are only sent as the option says
  re = connect("x", clean=False, expiry=100)
  ops = {"x": [s for s in subs if s[2][0][0] == "a"] + [("pub", "x", "a", 1, True, b"own", 1), ("drop", "x"), ("unsub", "x", ("a",))], "p": [("pub", "p", "a", 1, True, b"r", 1)]}
  res.append(broker_scenario("options and sessions", {"x": 5, "p": 5}, simple(ops, [(down("x"), re)], limits=[(("pub",), 2), (("drop",), 1)]), 5 + d, prefix=[re, connect("p")]))
  # several filters with different options in one SUBSCRIBE
  pre = [connect("x"), connect("p")] + [("pub", "p", t, 1, True, t.encode(), 1) for t in ("a", "b")]
  fs = [(f, q, nl, rap, rh) for f, q in (("a", 1), ("+", 2), ("b", 0)) for nl, rap, rh in ((False, False, 0), (True, False, 1), (False, True, 2), (True, True, 0))]
  for ov in (True, False):
    def en2(w, h):
      n = len(h)
      if n == 0:
        return [("sub", "x", (f, g), sid) for f in fs for g in fs for sid in (None, 5)] + [("sub", "x", (f,), 6) for f in fs]
      if n == 1 and len(h[-1][2]) == 1:
        return [("sub", "x", (f, g), sid) for f in fs for g in fs for sid in (7,)]
      return [("pub", c, t, 1, r, b"z", 1) for c in "xp" for t in "ab" for r in (False, True)]
    res.append(broker_scenario("several filters, overlapping %s" % ov, {"x": 5, "p": 5}, en2, 3 + d, prefix=pre, options={"overlapping_single": ov, "receiveMaximum": 10}))
  return res
