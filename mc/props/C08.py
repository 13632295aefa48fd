"""Retained messages."""
import itertools
from mc.lib import *
BOUNDS = {"quick": "2 clients, 3 topics, set/replace/clear, 4 kinds of subscription, depth 5; any pair of filters in a SUBSCRIBE after any other", "thorough": "depth 6, triples of filters"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  for vp, vx in ((5, 5), (3, 3), (5, 3), (3, 5)):
    P = [("pub", "p", "a/b", 1, True, b"1", 1), ("pub", "p", "a/b", 0, True, b""), ("pub", "p", "a/b", 0, False, b"n"), ("pub", "p", "a/c", 2, True, b"2", 2),
         ("pub", "p", "a/b", 0, True, b"3"), ("pub", "p", "$x/b", 0, True, b"4")]
    X = [("sub", "x", (("a/+", 1),)), ("sub", "x", (("a/b", 2), ("#", 0))), ("unsub", "x", ("a/+",)), ("sub", "x", (("$x/#", 0),))]
    if vx == 5:
      X += [("sub", "x", (("a/+", 1, False, True, 1),), 9), ("sub", "x", (("a/b", 1, False, False, 2),))]
    en = simple({"p": P, "x": X}, limits=[(("sub",), 3), (("pub",), 3 + d)])
    res.append(broker_scenario("v%d to v%d" % (vp, vx), {"p": vp, "x": vx}, en, 4 + d, prefix=[connect("p"), connect("x")],
                               options={"receiveMaximum": 10}))
  # retained messages survive their publisher, and arrive through wills
  will = (("topic", "a"), ("payload", b"w"), ("qos", 1), ("retain", True), ("props", ()))
  wille = (("topic", "a"), ("payload", b""), ("qos", 0), ("retain", True), ("props", ()))
  for v in (5, 3):
    en = simple({"p": [("pub", "p", "a", 1, True, b"1"), ("drop", "p"), ("disconnect", "p")], "x": [("sub", "x", (("a", 1),)), ("sub", "x", (("#", 0),)), ("disconnect", "x")]},
                [(down("p"), connect("p")), (down("p"), connect("p", will=will)), (down("p"), connect("p", will=wille)), (down("x"), connect("x"))])
    res.append(broker_scenario("retained wills v%d" % v, {"p": v, "x": v}, en, 5 + d, prefix=[connect("p"), connect("x")]))
  # expiry of retained messages and their properties
  props = ((1, 1), (3, "text"), (8, "r/t"), (9, b"cd"), (38, ("k", "v")), (38, ("k", "w")))
  en = simple({"p": [("pub", "p", "a", 1, True, b"1", 1, False, props + ((2, 10),)), ("pub", "p", "b", 0, True, b"2", 1, False, props), ("pub", "p", "a", 0, True, b"3")],
               "x": [("sub", "x", (("a", 1),), 3), ("sub", "x", (("#", 0),)), ("sub", "x", (("a", 1, False, True, 1),))]},
              [(None, ("tick", 4.3)), (None, ("tick", 8.1))], limits=[(("pub",), 2), (("tick",), 3)])
  res.append(broker_scenario("expiry", {"p": 5, "x": 5}, en, 5 + d, prefix=[connect("p"), connect("x")]))
  # several filters in one SUBSCRIBE, after another one; then a publication
  pre = [connect("p"), connect("x")] + [("pub", "p", t, q, True, t.encode(), 1) for t, q in (("a", 1), ("b", 0), ("a/b", 2))]
  for v in (5, 3):
    fs = [(f, q) + o for f, q in (("a", 2), ("b", 1), ("+", 0), ("#", 2)) for o in (((False, True, 0), (False, False, 1), (False, True, 2)) if v == 5 else ((),))]
    def en(w, h, fs=fs, k=3 + d):
      n = len(h)
      if n == 0:
        return [("sub", "x", (f,)) for f in fs]
      if n == 1:
        return [("sub", "x", fl) for j in (2, 3) for fl in itertools.product(fs, repeat=j) if j < k or j == 2]
      return [("pub", "p", "a", 1, True, b"n", 1), ("pub", "p", "b", 1, False, b"m", 1)]
    res.append(broker_scenario("several filters v%d" % v, {"p": v, "x": v}, en, 3, prefix=pre, options={"receiveMaximum": 10}))
  return res
