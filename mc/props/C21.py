"""3.1.1 and 5.0 clients are one community."""
from mc.lib import *
BOUNDS = {"quick": "publisher and subscriber of either version, properties, QoS, retain, wills, persistent sessions; depth 5", "thorough": "depth 6"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  props = ((1, 1), (2, 50), (3, "ct"), (8, "r/t"), (9, b"\x00c"), (38, ("k", "v")))
  will = lambda r: (("topic", "a/w"), ("payload", b"w"), ("qos", 1), ("retain", r), ("props", ()))
  for vp, vx in ((5, 3), (3, 5)):
    pp = props if vp == 5 else ()
    kwx = {"expiry": 1000} if vx == 5 else {}
    rx = connect("x", clean=False, **kwx)
    cp = connect("p", will=will(True))
    en = simple({"p": [("pub", "p", "a/b", 2, True, b"1", 1, False, pp), ("pub", "p", "a/b", 1, False, b"2", 2, False, pp), ("pub", "p", "a/c", 0, False, b"3", 1, False, pp),
                       ("pub", "p", "a/b", 0, True, b""), ("pubrel", "p", 1), ("drop", "p")],
                 "x": [("sub", "x", (("a/#", 2),)), ("sub", "x", (("+/b", 0),)), ("unsub", "x", ("a/#",)), ("drop", "x"), rx]},
                [(down("x"), rx), (down("p"), cp)], acks_of=("x",), limits=[(("pub",), 3), (("drop",), 2)])
    res.append(broker_scenario("v%d to v%d" % (vp, vx), {"p": vp, "x": vx}, en, 4 + d, prefix=[cp, rx, ("sub", "x", (("a/#", 2),))], options={"receiveMaximum": 10}))
    for late in (True,):
      en = simple({"p": [("pub", "p", "a/b", 2, True, b"1", 1, False, pp), ("pubrel", "p", 1), ("drop", "p")], "x": [("sub", "x", (("a/#", 1),)), ("drop", "x")], "y": [("sub", "y", (("#", 1),)), ("unsub", "y", ("#",))]},
                  [(down("x"), rx), (down("p"), connect("p", clean=False, **({"expiry": 10} if vp == 5 else {})))], acks_of=("x",))
      res.append(broker_scenario("v%d to both, on PUBREL" % vp, {"p": vp, "x": vx, "y": vp}, en, 5 + d,
                 prefix=[connect("p", clean=False, **({"expiry": 10} if vp == 5 else {})), rx, connect("y")], options={"publish_on_pubrel": True}))
  return res
