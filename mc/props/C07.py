"""Shared subscriptions."""
from mc.lib import *
BOUNDS = {"quick": "3 subscribers, 2 share names, every choice of the group member, depth 4-5", "thorough": "depth 5-6"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  cl = {"x": 5, "y": 5, "p": 5}
  pre = [connect("x", expiry=100), connect("y"), connect("p")]
  X = [("sub", "x", (("$share/g/a", 1),)), ("sub", "x", (("a", 0),)), ("unsub", "x", ("$share/g/a",)), ("drop", "x")]
  Y = [("sub", "y", (("$share/g/a", 2),)), ("sub", "y", (("$share/h/a", 0),), 7), ("sub", "y", (("$share/g/+", 1),)), ("unsub", "y", ("$share/g/a", "$share/h/a")), ("drop", "y")]
  P = [("pub", "p", "a", 2, False, b"1"), ("pub", "p", "a", 0, False, b"2")]
  res.append(broker_scenario("groups", cl, simple({"x": X, "y": Y, "p": P}, [(down("x"), connect("x", clean=False, expiry=100)), (down("y"), connect("y"))],
             choose=2, limits=[(("pub",), 3), (("drop",), 2)]), 4 + d, prefix=pre))
  # three members, publishers inside and outside, retained messages
  cl = {"x": 5, "y": 5, "z": 5}
  pre = [connect("x"), connect("y"), connect("z"), ("sub", "x", (("$share/g/#", 1),)), ("sub", "y", (("$share/g/#", 2, False, True),), 3)]
  ops = [("sub", "z", (("$share/g/#", 0),)), ("unsub", "x", ("$share/g/#",)), ("disconnect", "x"), ("pub", "y", "a", 1, True, b"r", 1), ("pub", "z", "a/b", 1, False, b"s", 2),
         ("pub", "z", "$SYS/q", 0, False, b"t"), ("sub", "y", (("a", 1, True),)), ("pub", "y", "a", 1, False, b"n", 3), ("sub", "x", (("$share/k/a", 1),))]
  en = lambda w, h: [x for op in ops if w.conn[op[1]] for x in ([("?", k, op) for k in range(3)] if op[0] == "pub" else [op])]
  res.append(broker_scenario("three members", cl, en, 4 + d, prefix=pre))
  # outcome of redelivery inside a group: messages assigned to a member stay with it
  cl = {"x": 5, "y": 5, "p": 5}
  pre = [connect("x", expiry=100), connect("y", expiry=100), connect("p"), ("sub", "x", (("$share/g/a", 1),)), ("sub", "y", (("$share/g/a", 2),))]
  en = simple({"p": [("pub", "p", "a", 2, False, b"1", 1), ("pub", "p", "a", 1, False, b"2", 2), ("pubrel", "p", 1)], "x": [("drop", "x")], "y": [("drop", "y")]},
              [(down("x"), connect("x", clean=False, expiry=100)), (down("y"), connect("y", clean=False, expiry=100))], acks_of=("x", "y"), choose=2,
              limits=[(("pub",), 2), (("drop",), 2)])
  res.append(broker_scenario("group members offline", cl, en, 5 + d, prefix=pre))
  # a member whose session has just expired is no member any more, although the background thread has not come by yet
  cl = {"x": 5, "y": 5, "p": 5}
  pre = [connect("x", expiry=1), connect("y", expiry=1), connect("p"), ("sub", "x", (("$share/g/a", 1),)), ("sub", "y", (("$share/g/a", 2), ("$share/h/a", 0)))]
  en = simple({"p": [("pub", "p", "a", 1, False, b"2", 2)], "x": [("drop", "x")], "y": [("drop", "y"), ("unsub", "y", ("$share/g/a",))]},
              [(down("x"), connect("x", clean=False, expiry=1)), (down("y"), connect("y", clean=False, expiry=1)), (None, ("wait", 0.6)), (None, ("wait", 0.7))], choose=3,
              limits=[(("pub",), 2), (("drop",), 2), (("wait",), 2)])
  res.append(broker_scenario("members whose session expires", cl, en, 5 + d, prefix=pre))
  return res
