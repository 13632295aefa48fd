"""Message expiry."""
from mc.lib import *
BOUNDS = {"quick": "expiry 5/12 s, publication, waiting, queueing, flow control and redelivery in any order; depth 6", "thorough": "depth 7"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  E = lambda e, q, pid=1, r=False: ("pub", "p", "a", q, r, b"%d" % e, pid, False, ((2, e),))
  re = connect("x", clean=False, expiry=1000)
  en = simple({"p": [E(5, 1), E(12, 2, 2), ("pub", "p", "a", 1, False, b"n", 3)], "x": [("drop", "x")]}, [(down("x"), re), (None, ("tick", 4.7)), (None, ("tick", 7.4))], acks_of=("x",),
              limits=[(("pub",), 2), (("tick",), 3), (("drop",), 1)])
  res.append(broker_scenario("offline", {"p": 5, "x": 5}, en, 6 + d, prefix=[connect("p"), re, ("sub", "x", (("a", 2),)), ("drop", "x")], options={"receiveMaximum": 10}))
  re1 = connect("x", clean=False, expiry=1000, recv_max=1)
  en = simple({"p": [E(5, 1), E(12, 2, 2), E(5, 0)], "x": [("drop", "x")]}, [(down("x"), re1), (None, ("tick", 3.3)), (None, ("tick", 6.1))], acks_of=("x",),
              limits=[(("pub",), 3), (("tick",), 3), (("drop",), 1)])
  res.append(broker_scenario("held by flow control", {"p": 5, "x": 5}, en, 6 + d, prefix=[connect("p"), re1, ("sub", "x", (("a", 2),))], options={"receiveMaximum": 10}))
  # retained, several hops, release on PUBREL
  en = simple({"p": [E(5, 2, 1, True), ("pubrel", "p", 1), E(12, 1, 2, True)], "x": [("sub", "x", (("a", 1),)), ("drop", "x")], "y": [("sub", "y", (("#", 0),))]},
              [(down("x"), re), (None, ("tick", 3.3)), (None, ("tick", 6.1))], limits=[(("tick",), 3), (("drop",), 1), (("pub",), 2)])
  res.append(broker_scenario("retained, on PUBREL", {"p": 5, "x": 5, "y": 5}, en, 5 + d, prefix=[connect("p"), re, connect("y")], options={"publish_on_pubrel": True}))
  # 3.1.1 subscribers and queues
  en = simple({"p": [E(5, 1), ("pub", "p", "a", 1, False, b"n", 3)], "x": [("drop", "x")]}, [(down("x"), connect("x", clean=False)), (None, ("tick", 3.3)), (None, ("tick", 6.1))], acks_of=("x",),
              limits=[(("pub",), 2), (("tick",), 2)])
  res.append(broker_scenario("to 3.1.1", {"p": 5, "x": 3}, en, 6 + d, prefix=[connect("p"), connect("x", clean=False), ("sub", "x", (("a", 2),))]))
  return res
