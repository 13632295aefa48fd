"""A misbehaving client harms only itself."""
from mc.lib import *
from mc import wire, malformed
from mc.refbroker import ERR
BOUNDS = {"quick": "violations of every kind, before and after CONNECT, at any point of a well behaved pair's exchange; depth 4; every malformed corpus packet once", "thorough": "depth 5"}


def bad5():
  P = lambda d: wire.encode(5, d)
  yield b"\x00\x00"                                   # reserved type
  yield b"\x30\x02\x00\x05"                           # topic runs past the end
  yield b"\x36\x05\x00\x01a\x00\x00"                  # QoS 3
  yield b"\x32\x06\x00\x01a\x00\x00\x00"              # packet id 0
  yield b"\x82\x03\x00\x01\x00"                     # subscribe without filters
  yield b"\x80\x07\x00\x01\x00\x00\x01a\x00"          # subscribe flags
  yield b"\x82\x08\x00\x01\x00\x00\x02a+\x00"         # invalid filter
  yield b"\x20\x03\x00\x00\x00"                       # CONNACK from a client
  yield b"\xd0\x00"                                   # PINGRESP
  yield b"\x30\xff\xff\xff\xff\x01"                   # length too long
  yield P({"type": "SUBSCRIBE", "id": 1, "filters": [("$share/g", 0)], "props": []})
  yield P({"type": "SUBSCRIBE", "id": 1, "filters": [("$share/g/a", 4)], "props": []})
  yield P({"type": "SUBSCRIBE", "id": 1, "filters": [("a", 0)], "props": [(11, 0)]})
  yield b"\x30\x06\x00\x03a/#\x00"                    # wildcard in a topic name
  yield b"\x90\x04\x00\x01\x00\x00"                   # SUBACK
  yield b"\x30\x08\x00\x01a\x03\x23\x00\x03x"         # topic alias above the maximum
  yield b"\x30\x08\x00\x01a\x03\x23\x00\x00x"         # topic alias 0
  yield b"\x30\x07\x00\x00\x03\x23\x00\x01x"          # topic alias which is not set
  yield b"\x30\x04\x00\x00\x00x"                     # no topic
  yield b"\x30\x81\x02\x00\x01a\x00" + b"x" * 253      # larger than the maximum packet size


def bad3():
  yield b"\x00\x00"
  yield b"\xf0\x00"
  yield b"\x30\x02\x00\x05"
  yield b"\x36\x05\x00\x01a\x00\x01"
  yield b"\x80\x06\x00\x01\x00\x01a\x00"
  yield b"\x82\x07\x00\x01\x00\x02a+\x00"
  yield b"\x82\x06\x00\x01\x00\x01a\x03"
  yield b"\x20\x02\x00\x00"
  yield b"\xd0\x00"
  yield b"\x30\xff\xff\xff\xff\x01"
  yield b"\x30\x05\x00\x03a/+"
  yield b"\xa2\x02\x00\x01"
  yield b"\x60\x02\x00\x01"


def firsts(v):
  yield b"\xc0\x00"
  yield b"\x30\x04\x00\x01ab" if v == 3 else b"\x30\x05\x00\x01a\x00b"
  yield b"\x00\x00"
  yield b"\x10\x02\x00\x04"
  yield wire.encode(v, {"type": "SUBSCRIBE", "id": 1, "filters": [("a", 0)], "props": []})
  yield b"\x10\xff\xff\xff\xff\x01"
  if v == 3:
    yield wire.encode(v, {"type": "CONNECT", "clientid": "z", "will": {"topic": "a/#", "payload": b"", "qos": 0, "retain": False, "props": []}})
  else:
    for props in ([(33, 0)], [(39, 0)]):
      yield wire.encode(v, {"type": "CONNECT", "clientid": "z", "props": props})
    yield wire.encode(v, {"type": "CONNECT", "clientid": "z", "will": {"topic": "a/#", "payload": b"", "qos": 0, "retain": False, "props": []}})


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  will = (("topic", "a"), ("payload", b"w"), ("qos", 0), ("retain", False), ("props", ()))
  for v in (5, 3):
    # after an over-long length field the connection cannot be resynchronised: a DISCONNECT is optional
    bads = [("raw", "b", x) + ((tuple(sorted(ERR)) + (None,),) if x[1] == 255 else ()) for x in (bad5() if v == 5 else bad3())] + [("connect_again", "b")]
    c = connect("b", clean=False, will=will, **({"expiry": 100} if v == 5 else {}))
    fst = [("rawconn", "b", x) for x in firsts(v)]
    en = simple({"b": bads + [("sub", "b", (("a", 1),))], "p": [("pub", "p", "a", 1, False, b"1")]}, [(down("b"), c)] + [(down("b"), x) for x in fst], acks_of=("x",),
                limits=[(("raw", "connect_again"), 2), (("rawconn",), 1), (("pub",), 2)])
    res.append(broker_scenario("bad client v%d" % v, {"b": v, "p": 5, "x": 3}, en, 6 + d, prefix=[connect("p"), connect("x"), ("sub", "x", (("a", 1),)), c]))
    # every malformed packet of the corpus, once
    corpus = []
    for buf in malformed.mutants(v, False):
      if malformed.is_malformed(v, buf):
        corpus.append(buf)
    seen = sorted(set(corpus))
    step = max(1, len(seen) // (3000 if ctx.quick else 20000))
    seen = seen[::step]
    def en2(w, h, seen=seen):
      return [("raw", "b", x) for x in seen] if not h else [("pub", "p", "a", 0, False, b"1")]
    res.append(broker_scenario("malformed corpus v%d" % v, {"b": v, "p": 5, "x": 3}, en2, 2, prefix=[connect("p"), connect("x"), ("sub", "x", (("a", 1),)), c]))
  return res
