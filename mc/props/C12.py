"""Session life cycle."""
from mc.lib import *
BOUNDS = {"quick": "clean/resume, expiry 0/10/30 s/never, expiry changed on DISCONNECT, takeover, ticks around expiry; depth 5", "thorough": "depth 6"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  cons = [connect("x", clean=c, expiry=e) for c in (True, False) for e in (0, 10, 4294967295)]
  en = simple({"x": [("sub", "x", (("a", 1),)), ("drop", "x"), ("disconnect", "x"), ("disconnect", "x", 0, ((17, 0),)), ("disconnect", "x", 0, ((17, 30),)), ("disconnect", "x", 4)] + cons[:2] + cons[3:5],
               "p": [("pub", "p", "a", 1, False, b"1")]},
              [(down("x"), c) for c in cons] + [(None, ("tick", 7.1)), (None, ("tick", 25.3))], limits=[(("tick",), 3), (("pub",), 2), (("sub",), 1)])
  res.append(broker_scenario("v5", {"x": 5, "p": 5}, en, 5 + d, prefix=[connect("p"), connect("x", expiry=10), ("sub", "x", (("b", 0), ("a", 1)))]))
  res.append(broker_scenario("v5 from nothing", {"x": 5, "p": 5}, en, 4 + d, prefix=[connect("p")]))
  cons = [connect("x", clean=c) for c in (True, False)]
  en = simple({"x": [("sub", "x", (("b", 0), ("a", 1), ("$c", 0))), ("unsub", "x", ("a",)), ("drop", "x"), ("disconnect", "x")] + cons, "p": [("pub", "p", "a", 1, False, b"1")]},
              [(down("x"), c) for c in cons] + [(None, ("tick", 100000.0))], limits=[(("pub",), 2), (("tick",), 1)], acks_of=("x",))
  res.append(broker_scenario("v3", {"x": 3, "p": 3}, en, 6 + d, prefix=[connect("p")]))
  # the moment of the expiry, before the background thread has come by
  en = simple({"x": [("drop", "x"), ("disconnect", "x"), ("disconnect", "x", 0, ((17, 2),)), ("sub", "x", (("b", 1),))], "p": [("pub", "p", "a", 1, True, b"1"), ("pub", "p", "b", 1, False, b"2", 2)]},
              [(down("x"), connect("x", clean=False, expiry=1)), (down("x"), connect("x", clean=True, expiry=1)), (None, ("wait", 0.6)), (None, ("wait", 0.7)), (None, ("tick", 0.6))],
              limits=[(("wait", "tick"), 3), (("pub",), 2), (("drop",), 2)])
  res.append(broker_scenario("the moment of expiry", {"x": 5, "p": 5}, en, 6 + d, prefix=[connect("p"), connect("x", expiry=1), ("sub", "x", (("a", 1),))]))
  # sessions of different clients are independent; assigned identifiers
  en = simple({"x": [("drop", "x"), ("sub", "x", (("a", 1),))], "y": [("drop", "y"), ("disconnect", "y", 0, ((17, 0),)), ("sub", "y", (("a", 1),))], "p": [("pub", "p", "a", 1, False, b"1")]},
              [(down("x"), connect("x", clean=False, expiry=10)), (down("x"), connect("x", clientid="")), (down("y"), connect("y", clean=False, expiry=30)), (down("y"), connect("y", clientid="", expiry=5)),
               (None, ("tick", 15.3))], limits=[(("tick",), 2), (("pub",), 1)])
  res.append(broker_scenario("independent sessions", {"x": 5, "y": 5, "p": 5}, en, 5 + d, prefix=[connect("p")]))
  en = simple({"x": [("drop", "x"), ("sub", "x", (("a", 1),))], "p": [("pub", "p", "a", 1, False, b"1")]},
              [(down("x"), connect("x", clientid="")), (down("x"), connect("x", clientid="", clean=False)), (down("x"), connect("x", clean=False)), (down("x"), connect("x", clientid="n" * 30))])
  for z in (True, False):
    res.append(broker_scenario("v3 client ids, empty %s" % ("allowed" if z else "refused"), {"x": 3, "p": 3}, en, 4 + d, prefix=[connect("p")], options={"zero_length_clientids": z}))
  return res
