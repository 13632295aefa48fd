"""Maximum packet size in both directions."""
from mc.lib import *
BOUNDS = {"quick": "client maxima 20-40, server maximum 60, payload lengths around every limit, with and without properties, aliases, flow control; depth 4-5", "thorough": "depth 5-6"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  # to the client: PUBLISH a, QoS 1 is 2 + 3 + 2 + 1 + payload
  lens = (11, 12, 13, 20, 1)
  pubs = [("pub", "p", "a", q, False, bytes([97 + n]) * n, 1) for n in lens for q in ((1,) if n != 13 else (0, 1, 2))]
  en = simple({"p": pubs, "x": [("drop", "x")]}, [(down("x"), connect("x", clean=False, expiry=100, max_packet=m)) for m in (20, 21)] + [(down("x"), connect("x", clean=False, expiry=100))],
              acks_of=("x",), limits=[(("pub",), 3), (("drop",), 2)])
  for m in (20, 21):
    res.append(broker_scenario("to the client, %d" % m, {"p": 3, "x": 5}, en, 4 + d, prefix=[connect("p"), connect("x", expiry=100, max_packet=m), ("sub", "x", (("a", 2),))]))
  en = simple({"p": [("pub", "p", "a", 1, False, b"z" * n, 1, False, ((38, ("k", "v" * k)),)) for n in (1, 8) for k in (1, 12)] + [("pub", "p", "a", 1, False, b"ok", 1)], "x": [("drop", "x")],
               "y": []}, [(down("x"), connect("x", clean=False, expiry=100, max_packet=m, recv_max=1)) for m in (24, 30)], acks_of=("x",), limits=[(("pub",), 3)])
  res.append(broker_scenario("with properties and flow control", {"p": 5, "x": 5, "y": 5}, en, 5 + d,
             prefix=[connect("p"), connect("x", expiry=100, max_packet=24, recv_max=1), ("sub", "x", (("a", 2),)), connect("y"), ("sub", "y", (("a", 0),))]))
  # acknowledgements are sent whatever the limit; their optional properties are not
  for m in (6, 8, 25):
    en = simple({"x": [("pub", "x", "nobody", 1, False, b"1", 1), ("pub", "x", "nobody", 2, False, b"2", 2), ("pubrel", "x", 2), ("pubrel", "x", 9), ("sub", "x", (("t", 0),)),
                       ("unsub", "x", ("t",)), ("ping", "x"), ("pub", "x", "t", 1, False, b"1", 3)]})
    res.append(broker_scenario("acknowledgements, %d" % m, {"x": 5}, en, 3 + d, prefix=[connect("x", max_packet=m)], options={"maximumPacketSize": 2**28 - 1, "receiveMaximum": 65535, "topicAliasMaximum": 0}))
  # to the server
  en = simple({"p": [("pub", "p", "a", 1, False, b"z" * n, 1) for n in (51, 52, 53, 54, 150)] + [("drop", "p")]}, [(down("p"), connect("p", clean=False, expiry=100))])
  res.append(broker_scenario("to the server", {"p": 5, "x": 5}, en, 3 + d, prefix=[connect("x"), ("sub", "x", (("a", 1),)), connect("p", expiry=100)], options={"maximumPacketSize": 60}))
  return res
