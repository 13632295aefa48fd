"""Topic aliases in both directions."""
from mc.lib import *
BOUNDS = {"quick": "alias values 0-3, server and client maxima 0-2, reconnection with another maximum; depth 5-7", "thorough": "depth 6-8"}


def scenarios(ctx):
  d = 1 if ctx.quick else 2
  res = []
  A = lambda t, a, q=0, r=False, pl=None: ("pub", "p", t, q, r, pl or b"%d" % a, 1, False, ((35, a),))
  for n in (2, 0, 1):
    en = simple({"p": [A("a", 1), A("", 1), A("b", 1), A("b", 2), A("", 2, 1), A("a", 3), A("c", 0), A("", 1, 1, True), ("pub", "p", "", 0), ("drop", "p"), ("pub", "p", "a", 1, False, b"x")],
                 "x": [("sub", "x", (("b", 1),))]},
                [(down("p"), connect("p", clean=False, expiry=100))], limits=[(("sub",), 1)])
    if n != 1:
      en1 = en
    res.append(broker_scenario("to the server, maximum %d" % n, {"p": 5, "x": 5}, en, (4 if n else 1) + d, prefix=[connect("x"), ("sub", "x", (("#", 1),)), connect("p", expiry=100)],
                               options={"topicAliasMaximum": n}))
  # two publishers use the same aliases for different topics
  B = lambda c, t, a: ("pub", c, t, 0, False, (c + t).encode(), 1, False, ((35, a),))
  en = simple({"p": [B("p", "a", 1), B("p", "", 1), B("p", "c", 1)], "q": [B("q", "b", 1), B("q", "", 1)], "x": []}, [(down("p"), connect("p")), (down("q"), connect("q"))])
  res.append(broker_scenario("two publishers", {"p": 5, "q": 5, "x": 5}, en, 5 + d, prefix=[connect("x"), ("sub", "x", (("#", 0),)), connect("p"), connect("q")]))
  # to clients
  for m in (1, 2, 0):
    pubs = [("pub", "p", t, q, False, t.encode(), 1) for t, q in (("a", 0), ("b", 1), ("c", 0), ("a", 1))]
    en = simple({"p": pubs, "x": [("drop", "x")]}, [(down("x"), connect("x", clean=False, expiry=100, alias_max=k)) for k in (m, 1)] + [(down("x"), connect("x", clean=False, expiry=100))], acks_of=("x",), limits=[(("drop",), 1)])
    res.append(broker_scenario("to the client, maximum %d" % m, {"p": 3, "x": 5}, en, 5 + d, prefix=[connect("p"), connect("x", expiry=100, alias_max=m), ("sub", "x", (("#", 1),))]))
  # held back by Receive Maximum: the alias must be known to the connection it is used on
  en = simple({"p": [("pub", "p", t, 1, False, t.encode(), 1) for t in ("a", "b")], "x": [("drop", "x")]},
              [(down("x"), connect("x", clean=False, expiry=100, alias_max=k, recv_max=1)) for k in (0, 1, 2)], acks_of=("x",), limits=[(("drop",), 2), (("pub",), 3)])
  res.append(broker_scenario("aliases and flow control", {"p": 5, "x": 5}, en, 6 + d, prefix=[connect("p"), connect("x", expiry=100, alias_max=2, recv_max=1), ("sub", "x", (("#", 1),))]))
  # an alias whose first use does not reach the client: too big, or expired while it waits
  P = lambda t, k, q=0, props=(): ("pub", "p", t, q, False, b"B" * k, 1, False, props)
  en = simple({"p": [P("a", 60), P("a", 1), P("b", 60), P("b", 1), P("a", 60, 1), P("a", 1, 1)], "x": [("drop", "x")]},
              [(down("x"), connect("x", clean=False, expiry=100, alias_max=k, max_packet=50)) for k in (1, 2)], acks_of=("x",), limits=[(("drop",), 1)])
  res.append(broker_scenario("aliases and messages which are too big", {"p": 5, "x": 5}, en, 4 + d, prefix=[connect("p"), connect("x", expiry=100, alias_max=1, max_packet=50), ("sub", "x", (("#", 1),))]))
  en = simple({"p": [P("a", 1, 1, ((2, 5),)), P("a", 2, 1), P("b", 1, 1, ((2, 5),)), P("b", 2, 1)], "x": [("drop", "x")]},
              [(down("x"), connect("x", clean=False, expiry=100, alias_max=k)) for k in (1, 2)] + [(None, ("wait", 5.5))], acks_of=("x",), limits=[(("drop",), 1), (("wait",), 1), (("pub",), 3)])
  res.append(broker_scenario("aliases and expired messages", {"p": 5, "x": 5}, en, 5 + d, prefix=[connect("p"), connect("x", expiry=100, alias_max=1, recv_max=1), ("sub", "x", (("#", 1),))]))
  # two subscribers with different maxima
  en = simple({"p": [("pub", "p", t, 0, False, t.encode()) for t in ("a", "b", "c")], "x": [("drop", "x")], "y": [("drop", "y")]},
              [(down("x"), connect("x", alias_max=2)), (down("x"), connect("x", clean=False, expiry=100, alias_max=1))], limits=[(("drop",), 2)])
  res.append(broker_scenario("two subscribers", {"p": 5, "x": 5, "y": 5}, en, 5 + d,
             prefix=[connect("p"), connect("x", alias_max=1, expiry=50), connect("y", alias_max=2), ("sub", "x", (("#", 0),)), ("sub", "y", (("+", 0),))]))
  return res
