"""Receive Maximum in both directions."""
from mc.lib import *
BOUNDS = {"quick": "Receive Maximum 1-2, up to 4 messages, acknowledgements in any order incl. refusals, reconnection with another limit; depth 6", "thorough": "depth 7"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  P = [("pub", "p", "a", 1, False, b"1", 1), ("pub", "p", "a", 2, False, b"2", 2), ("pub", "p", "a", 0, False, b"0")]
  for n in (1, 2):
    en0 = simple({"p": P, "x": [("drop", "x")]}, [(down("x"), connect("x", clean=False, expiry=1000, recv_max=m)) for m in (1, 2)] + [(None, ("pubrel", "p", 2))],
                 acks_of=("x",), limits=[(("pub",), 4), (("drop",), 1), (("pubrel",), 1)])
    def en(w, h, en0=en0):
      ops = en0(w, h)
      return ops + [op + (128,) for op in ops if op[0] == "pubrec"] + [op + (0x10,) for op in ops if op[0] == "pubrec" and op[2] == 0] + \
          [op + (0x80,) for op in ops if op[0] == "puback" and op[2] == 0]
    res.append(broker_scenario("to the client, %d" % n, {"p": 5, "x": 5}, en, 6 + d, prefix=[connect("p"), connect("x", expiry=1000, recv_max=n), ("sub", "x", (("a", 2),))],
                               options={"receiveMaximum": 10}))
  # wide window filled while away
  en = simple({"p": P[:2], "x": [("drop", "x")]}, [(down("x"), connect("x", clean=False, expiry=1000, recv_max=1)), (down("x"), connect("x", clean=False, expiry=1000))],
              acks_of=("x",), limits=[(("drop",), 2), (("pub",), 2)])
  res.append(broker_scenario("filled while away", {"p": 3, "x": 5}, en, 5 + d,
             prefix=[connect("p"), connect("x", expiry=1000, recv_max=2), ("sub", "x", (("a", 2),)), ("drop", "x")] + [("pub", "p", "a", 1, False, b"9", 7)]))
  # to the server
  for n in (1, 2):
    pubs = [("pub", "p", "a", q, False, b"%d" % q, i) for q in (1, 2) for i in (1, 2, 3) if q == 2 or i == 3]
    en = simple({"p": pubs + [("pubrel", "p", i) for i in (1, 2)] + [("drop", "p")]}, [(down("p"), connect("p", clean=False, expiry=1000))])
    res.append(broker_scenario("to the server, %d" % n, {"p": 5, "x": 3}, en, 5 + d, prefix=[connect("x"), ("sub", "x", (("a", 0),)), connect("p", expiry=1000)],
                               options={"receiveMaximum": n}))
  return res
