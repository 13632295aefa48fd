"""Test hooks: topics that provoke a particular behaviour, and echoed user properties."""
from mc.lib import *
BOUNDS = {"quick": "every disconnection code 0-300 and malformed ones; all sequences of up to 6 publications to the error topics, ordinary publications, releases, losses and reconnections, with and without user properties, both release policies", "thorough": "depth 7"}
U = ((38, ("k", "v")), (38, ("k", "w")), (38, ("", "")))
CMD = "cmd/disconnectWithRC"


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  opt = {"maximumPacketSize": 2**28 - 1, "topicAliasMaximum": 2}
  # disconnection on request: every code, whatever the QoS; a will is kept back, the session stays
  texts = [b"%d" % n for n in range(0, 301) if n not in (4, 140)] + [b"", b"x", b"-1", b"1.5", b"\xff", b"0x87", b"135 ", b" 135"]
  en = simple({"p": [("pub", "p", CMD, q, q == 2, t, 1) for t in texts for q in ((0, 1, 2) if t in (b"0", b"139", b"x") else (0,))]},
              [(down("p"), connect("p", clean=False, expiry=100))])
  will = (("topic", "w"), ("payload", b"bye"), ("qos", 0), ("retain", True))
  pre = [connect("x"), ("sub", "x", (("#", 2),)), connect("p", expiry=100, will=will), ("sub", "p", (("a", 1),))]
  res.append(broker_scenario("disconnect on request", {"p": 5, "x": 3}, en, 2, prefix=pre, options=opt))
  en = simple({"p": [("pub", "p", CMD, 0, False, t, 1) for t in (b"0", b"139", b"x")] + [("drop", "p")], "x": [("pub", "x", "a", 1, False, b"m", 1), ("pub", "x", CMD, 1, False, b"139", 1)]},
              [(down("p"), connect("p", clean=False, expiry=e, will=will)) for e in (0, 100)] + [(None, ("tick", 60.5))], acks_of=("p",), limits=[(("pub",), 3)])
  res.append(broker_scenario("disconnect on request, session", {"p": 5, "x": 3}, en, 5 + d, prefix=[connect("x"), connect("p", expiry=100, will=will), ("sub", "p", (("a", 1),))], options=opt))
  # error topics
  for late in (False, True):
    for rm in (65535, 1):
      pubs = []
      for u in ((), U):
        pubs += [("pub", "p", "test_qos_1_2_errors", 1, False, b"1", 1, False, u), ("pub", "p", "test_qos_1_2_errors", 2, False, b"2", 2, False, u)]
      pubs += [("pub", "p", "test_qos_1_2_errors_pubcomp", 2, False, b"3", 3), ("pub", "p", "test_qos_1_2_errors_pubcomp", 2, False, b"3", 3, True), ("pub", "p", "test_qos_1_2_errors_pubcomp", 2, False, b"4", 4),
               ("pub", "p", "test_qos_1_2_errors_pubcomp", 1, False, b"5", 5), ("pub", "p", "a", 2, False, b"6", 6), ("pub", "p", "a", 1, False, b"7", 7)]
      rels = [("pubrel", "p", 3), ("pubrel", "p", 3, U), ("pubrel", "p", 4), ("pubrel", "p", 2), ("pubrel", "p", 6, U)]
      en = simple({"p": pubs + rels + [("drop", "p")]}, [(down("p"), connect("p", clean=c, expiry=100)) for c in (False, True)])
      res.append(broker_scenario("errors %s %d" % ("on PUBREL" if late else "on PUBLISH", rm), {"p": 5, "x": 5}, en, 6 + d,
                 prefix=[connect("x"), ("sub", "x", (("a", 2),)), connect("p", expiry=100)], options=dict(opt, publish_on_pubrel=late, receiveMaximum=rm)))
    # two clients, and a 3.1.1 client for which these topics are ordinary
    t2 = "test_qos_1_2_errors_pubcomp"
    en = simple({"p": [("pub", "p", t2, 2, False, b"3", 3), ("pubrel", "p", 3, U), ("drop", "p")], "q": [("pub", "q", t2, 2, False, b"3", 3), ("pub", "q", "a", 2, False, b"3", 3), ("pubrel", "q", 3, U)],
                 "o": [("pub", "o", "test_qos_1_2_errors", 1, False, b"o", 3), ("pub", "o", t2, 2, False, b"o", 3), ("pubrel", "o", 3)]},
                [(down("p"), connect("p", clean=c, expiry=100)) for c in (False, True)])
    res.append(broker_scenario("errors, several clients %s" % late, {"p": 5, "q": 5, "o": 3}, en, 5 + d,
               prefix=[connect("p", expiry=100), connect("q"), connect("o")], options=dict(opt, publish_on_pubrel=late)))
  # subscriptions: refused, downgraded, with user properties echoed
  en = simple({"p": [("sub", "p", fs, None, 9, u) for u in ((), U[:1], U) for fs in ((("a", 2),), (("test/nosubscribe", 1),), (("test/QoS 1 only", 2), ("test/nosubscribe", 2), ("test/QoS 0 only", 2), ("a", 1)))] +
                    [("unsub", "p", fs, 10, u) for u in ((), U[:1], U) for fs in (("a",), ("test/nosubscribe", "test/QoS 1 only"))] + [("drop", "p")],
               "x": [("pub", "x", t, 2, r, b"m", 3) for t, r in (("a", False), ("test/nosubscribe", True), ("test/QoS 1 only", True), ("test/QoS 0 only", True))] + [("pubrel", "x", 3)]},
              [(down("p"), connect("p", clean=False, expiry=100))], limits=[(("pub",), 2), (("sub",), 2)])
  res.append(broker_scenario("subscriptions", {"p": 5, "x": 5}, en, 5 + d, prefix=[connect("x"), connect("p", expiry=100)], options=dict(opt, publish_on_pubrel=False)))
  return res
