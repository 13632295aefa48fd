"""Routing: who receives a publication, how often, at which QoS, in which order."""
from mc.lib import *
BOUNDS = {"quick": "3 clients, 6 filters, 4 topics, QoS 0-2, all operation sequences to depth 4-5",
          "thorough": "as quick to depth 5-6, more filters"}
ASSUMPTIONS = ["topics the broker reserves for its test hooks (cmd/..., test/...) are outside the alphabet"]


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  up3 = [connect("x"), connect("y"), connect("p")]
  # mixed versions, overlapping filters
  for ov in (True, False):
    x = [("sub", "x", (("a/b", 1),)), ("sub", "x", (("a/+", 0), ("#", 2))), ("sub", "x", (("a/b", 0),)), ("unsub", "x", ("a/b",)), ("unsub", "x", ("a/+", "#"))]
    y = [("sub", "y", (("a/#", 2),)), ("sub", "y", (("+/b", 1),)), ("unsub", "y", ("a/#",)), ("unsub", "y", ("zz", "+/b")), ("drop", "y")]
    p = [("pub", "p", "a/b", 2, False, b"1"), ("pub", "p", "a", 1, False, b"2"), ("pub", "p", "c/b", 0, False, b"3")]
    if ov or not ctx.quick:
      p.append(("pub", "p", "$d/b", 0, False, b"4"))
    for vx, vy, vp in ((5, 3, 5), (3, 5, 3)):
      en = simple({"x": x, "y": y, "p": p}, [(down("y"), connect("y"))], limits=[(("pub",), 3 + d)])
      res.append(broker_scenario("overlapping=%s %d/%d/%d" % ("single" if ov else "all", vx, vy, vp), {"x": vx, "y": vy, "p": vp}, en, 4 + d,
                                 prefix=up3, options={"overlapping_single": ov, "maximumPacketSize": 2**28}))
  # a publisher that is its own subscriber, and subscriptions made between publications: ordering
  s = [("sub", "x", (("t", 2),)), ("pub", "x", "t", 2, False, b"1", 1), ("pub", "x", "t", 1, False, b"2", 2), ("pub", "x", "t", 0, False, b"3"),
       ("unsub", "x", ("t",)), ("pubrel", "x", 1)]
  for v in (3, 5):
    res.append(broker_scenario("own publications v%d" % v, {"x": v}, simple({"x": s}, acks_of=("x",)), 5 + d, prefix=[connect("x")]))
  # level structure of filters and topics through the broker
  f = ["+", "#", "/", "/+", "+/", "a/+/c", "a/#", "+/+", "a//c", "$SYS/#", "+/x", "$s/+"]
  t = ["a", "/", "a/", "/a", "a//c", "a/b/c", "$s/x", "a/b", "\u00e9/x"]
  if ctx.quick:
    f = f[:9]
  for v in (3, 5):
    en = lambda w, h, f=f, t=t: [("sub", "x", ((g, 1),)) for g in f] if not h else \
        [("pub", "x", u, 0) for u in t] + ([("sub", "x", ((g, 0),)) for g in f] if len(h) == 1 else []) + ([("unsub", "x", (g,)) for g in f] if len(h) == 2 else [])
    res.append(broker_scenario("filter shapes v%d" % v, {"x": v}, en, 3, prefix=[connect("x")]))
  return res
