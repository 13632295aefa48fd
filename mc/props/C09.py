"""Outbound QoS 1 and QoS 2 delivery across disconnections."""
from mc import enumr, wire
from mc.lib import *
from mc.refbroker import Mismatch
from mc.world import World, FakeSock
BOUNDS = {"quick": "1 persistent subscriber, up to 3 messages, acknowledgements in any order, connection loss at any point; depth 6; 65545 messages to a connected subscriber some of which stay unacknowledged, and 65536 stored ones, for each version and QoS",
          "thorough": "up to 4 messages, depth 7-8"}


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  for v, kw in ((5, {"expiry": 1000}), (3, {})):
    re = connect("x", clean=False, **kw)
    for q in (1, 2):
      en = simple({"p": [("pub", "p", "a", q, False, b"1", 1), ("pub", "p", "a", 3 - q, False, b"2", 2), ("pub", "p", "a", 0, False, b"0")], "x": [("drop", "x")]},
                  [(down("x"), re), (None, ("pubrel", "p", 1 if q == 2 else 2))], acks_of=("x",), limits=[(("pub",), 3), (("drop",), 2), (("pubrel",), 1)])
      res.append(broker_scenario("v%d first QoS %d" % (v, q), {"p": 5, "x": v}, en, 6 + d, prefix=[connect("p"), re, ("sub", "x", (("a", 2),))],
                                 options={"receiveMaximum": 10}))
  # queued while away, dropQoS0 off, retries and takeover during redelivery
  for v, kw in ((5, {"expiry": 1000}), (3, {})):
    re = connect("x", clean=False, **kw)
    en = simple({"p": [("pub", "p", "a", 2, False, b"1", 1), ("pub", "p", "b", 0, False, b"0"), ("pub", "p", "b", 1, False, b"2", 3)],
                 "x": [("drop", "x"), ("disconnect", "x"), re, connect("x", clean=True, **kw), ("stray", "x", "PUBREC", 1), ("stray", "x", "PUBACK", 2)]},
                [(down("x"), re)], acks_of=("x",), limits=[(("pub",), 3), (("stray",), 2)])
    res.append(broker_scenario("queueing v%d" % v, {"p": 3, "x": v}, en, 5 + d,
                               prefix=[connect("p"), re, ("sub", "x", (("a", 2), ("b", 1))), ("drop", "x")], options={"dropQoS0": False}))
  # two subscribers: acknowledgements of one do not affect the other
  en = simple({"p": [("pub", "p", "a", 1, False, b"1", 1), ("pub", "p", "a", 1, False, b"2", 2)], "x": [("drop", "x")], "y": [("drop", "y")]},
              [(down("x"), connect("x", clean=False, expiry=1000)), (down("y"), connect("y", clean=False))], acks_of=("x", "y"), limits=[(("pub",), 2), (("drop",), 2)])
  res.append(broker_scenario("two subscribers", {"p": 5, "x": 5, "y": 3}, en, 6 + d,
             prefix=[connect("p"), connect("x", clean=False, expiry=1000), connect("y", clean=False), ("sub", "x", (("a", 1),)), ("sub", "y", (("a", 1),))]))
  return res


# ---------------------------------------------------------------- more messages than there are packet identifiers
def many_cases(thorough):
  for v in (5, 3):
    for q in (1, 2):
      for unfinished in ((1,), (1, 2, 3, 65534, 65535), (7,)) if thorough else ((1, 2, 65535),):
        yield v, q, "connected", unfinished
      yield v, q, "stored", 65536 if q == 1 else 65535
      if thorough:
        yield v, q, "stored", 65535 if q == 1 else 65600


def receiver(data, ver):
  "splits (id, qos, dup, payload) and ids of PUBREL out of what a subscriber to the topic a gets; properties are empty"
  at = 0
  while at < len(data):
    n, k = 0, at + 1
    sh = 0
    while True:
      n |= (data[k] & 0x7f) << sh
      sh += 7
      k += 1
      if not data[k-1] & 0x80:
        break
    body = data[k:k+n]
    t = data[at] >> 4
    if t == 3:
      q = data[at] >> 1 & 3
      i = 3 + (2 if q else 0) + (1 if ver == 5 else 0)
      yield "pub", int.from_bytes(body[3:5], "big") if q else 0, q, bool(data[at] & 8), body[i:]
    elif t == 6:
      yield "rel", int.from_bytes(body[:2], "big"), 0, False, b""
    at = k + n


def many(case):
  ver, q, kind, arg = case
  w = World({"p": 3, "x": ver}, {"topicAliasMaximum": 0, "receiveMaximum": 65535, "maximumPacketSize": 2**28 - 1})
  b = w.b5 if ver == 5 else w.b3
  p, x = FakeSock("p"), FakeSock("x")
  ack = lambda t, i: bytes([t, 2]) + i.to_bytes(2, "big")

  def send(br, s, data):
    s.inb += data
    while s.inb and not s.closed:
      br.handleRequest(s)
    return not s.closed

  def got(s):
    r = b"".join(s.out)
    del s.out[:]
    return list(receiver(r, ver))

  def publish(k):
    body = b"\0\1a" + (1).to_bytes(2, "big") + b"%d" % k
    if not send(w.b3, p, bytes([0x30 | q << 1, len(body)]) + body) or q == 2 and not send(w.b3, p, ack(0x62, 1)):
      raise Mismatch("the publisher is disconnected after %d messages" % k)
    del p.out[:]

  con = {"type": "CONNECT", "clientid": "x", "clean": False, "keepalive": 0}
  if ver == 5:
    con["props"] = [(17, 0xffffffff)]
  send(w.b3, p, wire.encode(3, {"type": "CONNECT", "clientid": "p", "keepalive": 0}))
  send(b, x, wire.encode(ver, con))
  send(b, x, wire.encode(ver, {"type": "SUBSCRIBE", "id": 1, "filters": [("a", q)], "props": []}))
  got(x)
  used = set()
  trans = 0
  if kind == "connected":
    keep = set(arg)
    total = 65545
    for k in range(1, total + 1):
      publish(k)
      r = got(x)
      if len(r) != 1 or r[0][0] != "pub" or r[0][2:] != (q, False, b"%d" % k):
        raise Mismatch("message %d arrives as %r" % (k, r))
      i = r[0][1]
      if not 0 < i < 65536 or i in used:
        raise Mismatch("message %d has packet id %d, unacknowledged are %s" % (k, i, sorted(used)))
      if k in keep:
        used.add(i)
      elif q == 1:
        send(b, x, ack(0x40, i))
      else:
        send(b, x, ack(0x50, i))
        if [y[:2] for y in got(x)] != [("rel", i)]:
          raise Mismatch("PUBREC of message %d is not answered" % k)
        send(b, x, ack(0x70, i))
      if x.closed or x.out:
        raise Mismatch("after the acknowledgement of message %d: %r" % (k, got(x)))
    want = len(keep)
    trans = total
  else:
    x.eof = True
    b.handleRequest(x)
    for k in range(1, arg + 1):
      publish(k)
    want = arg
    trans = 2 * arg
  # again
  y = FakeSock("y")
  if kind == "connected":
    x.eof = True
    b.handleRequest(x)
  send(b, y, wire.encode(ver, con))
  seen, out = [], set()
  queue = got(y)
  while queue:
    for n, (t, i, qq, dup, payload) in enumerate(queue):
      if t != "pub" or qq != q or dup != (kind == "connected") or not 0 < i < 65536 or i in out:
        raise Mismatch("after the reconnection message %d arrives as %r" % (len(seen) + 1, (t, i, qq, dup, payload)))
      out.add(i)
      seen.append(int(payload))
    batch, queue = queue, []
    for t, i, qq, dup, payload in batch:
      out.discard(i)
      if q == 1:
        send(b, y, ack(0x40, i))
      else:
        send(b, y, ack(0x50, i))
        r = got(y)
        if ("rel", i) not in [z[:2] for z in r]:
          raise Mismatch("PUBREC %d is not answered" % i)
        queue += [z for z in r if z[0] == "pub"]
        send(b, y, ack(0x70, i))
      queue += got(y)
      trans += 1
  expected = sorted(arg) if kind == "connected" else list(range(1, arg + 1))
  if seen != expected:
    raise Mismatch("of %d messages %d were received: %s... instead of %s..." % (len(expected), len(seen), seen[:5], expected[:5]))
  if y.closed:
    raise Mismatch("the connection was closed")
  return kind, None, trans


def many_case(case):
  try:
    return many(case)
  except Mismatch as e:
    return "", str(e), 1


def run(ctx):
  enumr.enumerate_all(ctx, "more messages than identifiers", many_cases(not ctx.quick), many_case, chunk=1)


def replay(what):
  o, e, n = many_case(what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
