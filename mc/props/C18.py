"""Every request gets exactly the acknowledgement that belongs to it."""
from mc.lib import *
BOUNDS = {"quick": "every client packet incl. unexpected acknowledgements, any order, packet ids 1/2/65535; depth 5-6", "thorough": "depth 6-7"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  for v in (5, 3):
    big = 65535
    ops = [("sub", "x", (("a", 2), ("b", 0), ("a/#", 1)), None, big), ("sub", "x", (("b", 1),), None, 1), ("sub", "x", (("test/nosubscribe", 2), ("c", 1)), None, 2),
           ("sub", "x", (("test/QoS 1 only", 2), ("test/QoS 0 only", 1), ("test/QoS 1 only", 0)), None, 4),
           ("unsub", "x", ("b",), 1), ("unsub", "x", ("zz", "a", "b"), big), ("unsub", "x", ("a", "zz", "a", "c"), 3), ("sub", "x", (("a", 0), ("c", 2), ("a", 1)), None, 5), ("ping", "x"),
           ("pub", "x", "a", 1, False, b"1", big), ("pub", "x", "a", 2, False, b"2", 1), ("pub", "x", "n", 1, False, b"3", 1), ("pub", "x", "n", 2, False, b"3", 2),
           ("pubrel", "x", 1), ("pubrel", "x", 2), ("stray", "x", "PUBACK", 9), ("stray", "x", "PUBREC", 9), ("stray", "x", "PUBCOMP", 9)]
    en = simple({"x": ops}, acks_of=("x",))
    res.append(broker_scenario("all requests v%d" % v, {"x": v}, en, 5 + d, prefix=[connect("x")]))
  # acknowledgements for one client do not go to another
  en = simple({"x": [("sub", "x", (("a", 1),), None, 3), ("pub", "x", "a", 2, False, b"x", 1), ("pubrel", "x", 1), ("ping", "x")],
               "y": [("sub", "y", (("a", 2),), None, 3), ("pub", "y", "a", 1, False, b"y", 1), ("unsub", "y", ("a",), 3), ("ping", "y")]}, acks_of=("x", "y"))
  res.append(broker_scenario("two clients", {"x": 5, "y": 3}, en, 6 + d, prefix=[connect("x"), connect("y")]))
  return res
