"""Framing: packets are cut out of the byte stream wherever the network splits it."""
import itertools
from mc import enumr, wire, env
from mc.world import World, FakeSock
BOUNDS = {"quick": "streams of 1-3 packets with every length-field size; every segmentation of streams up to 13 bytes, every 1 and 2 cuts of longer ones, byte by byte; end of stream and time out after every byte; over-long length fields",
          "thorough": "every segmentation up to 17 bytes; all 3-cut segmentations; bodies up to 2097152 bytes with cuts around every boundary"}


class SegSock(FakeSock):
  "delivers a list of segments; then end of file or a time out"

  def __init__(self, segs, end):
    FakeSock.__init__(self, "seg")
    self.segs = [s for s in segs if s]
    self.end = end
    self.taken = 0

  def recv(self, n):
    assert n > 0
    if not self.segs:
      if self.end == "eof":
        return b""
      raise TimeoutError("timed out")
    s = self.segs[0]
    r, rest = s[:n], s[n:]
    if rest:
      self.segs[0] = rest
    else:
      self.segs.pop(0)
    self.taken += len(r)
    return r


def cut(buf, cuts):
  c = [0] + list(cuts) + [len(buf)]
  return [buf[a:b] for a, b in zip(c, c[1:])]


def cutsets(n, full, upto):
  if n - 1 <= full:
    for k in range(n):
      yield from itertools.combinations(range(1, n), k)
  else:
    for k in range(upto + 1):
      yield from itertools.combinations(range(1, n), k)
    yield tuple(range(1, n))


def fmtmod(ver):
  import mqtt.formats.MQTTV5, mqtt.formats.MQTTV311
  return mqtt.formats.MQTTV5 if ver == 5 else mqtt.formats.MQTTV311


def read(ver, sock, n):
  "up to n packets"
  m = fmtmod(ver)
  getp = getattr(m, "getPacket", None) or m.MQTTV5.getPacket
  got = []
  for i in range(n):
    before = sock.taken
    try:
      p = getp(sock)
    except Exception as e:
      got.append("raised")
      return got
    if p is None:
      got.append(None)
      return got
    if sock.taken - before != len(p):
      got.append("consumed %d bytes for a packet of %d" % (sock.taken - before, len(p)))
      return got
    got.append(bytes(p))
  return got


def body(n):
  return bytes(i % 251 for i in range(n))


def pk(n, first=0x30):
  return bytes([first]) + wire.vbi(n) + body(n)


def streams(thorough):
  yield [pk(0, 0xc0)]
  yield [pk(0, 0xc0), pk(2), pk(0, 0xd0)]
  yield [pk(4), pk(3, 0x32)]
  yield [pk(1), pk(1), pk(1), pk(1)]
  yield [pk(127), pk(0, 0xe0)]
  yield [pk(128), pk(1)]
  if thorough:
    yield [pk(6), pk(6)]


def big(thorough):
  for n in [129, 255, 256, 16383, 16384, 16385, 65536] + ([2097151, 2097152] if thorough else []):
    yield n


def case(c):
  ver, kind, pkts, segs, end = c
  sock = SegSock(segs, end)
  avail = b"".join(segs)
  want = []
  pos = 0
  for p in pkts:
    if pos + len(p) > len(avail):
      break
    want.append(p)
    pos += len(p)
  got = read(ver, sock, len(want) + 1)
  if got[:-1] != want[:len(got) - 1] or len(got) != len(want) + 1:
    bad = [g for g in got if isinstance(g, str)]
    return "", "read %r from the stream, %d complete packets were in it" % (bad or [g if g is None else g[:10].hex() for g in got], len(want)), 1
  if got[-1] not in (None, "raised"):
    return "", "an incomplete packet was returned: %r" % (got[-1],), 1
  return "%d packets then %s" % (len(want), got[-1]), None, len(got)


def cases(thorough):
  full = 16 if thorough else 12
  for ver in (5, 3):
    for pkts in streams(thorough):
      buf = b"".join(pkts)
      for cuts in cutsets(len(buf), full, (2 if len(buf) > 60 else 3) if thorough else 1 if len(buf) > 60 else 2):
        yield ver, "complete", pkts, cut(buf, cuts), "eof"
      for k in range(len(buf)):
        for end in ("eof", "timeout"):
          for cuts in ((), tuple(range(1, k))):
            yield ver, "truncated", pkts, cut(buf[:k], cuts), end
    for n in big(thorough):
      p, q = pk(n), pk(2, 0x32)
      hdr = len(wire.vbi(n)) + 1
      marks = sorted(set(x for x in list(range(1, hdr + 2)) + [n // 2, n + hdr - 1, n + hdr, n + hdr + 1] if 0 < x < n + hdr + 4))
      for k in range(3):
        for cuts in itertools.combinations(marks, k):
          yield ver, "complete", [p, q], cut(p + q, cuts), "eof"
      for m in marks:
        if m < n + hdr:
          yield ver, "truncated", [p], [p[:m]], "eof"
    for extra in (b"", b"\x00", b"\x01" * 9):
      for hdr in (b"\x30\xff\xff\xff\xff", b"\x30\x80\x80\x80\x80", b"\x10\xff\x80\xff\xff", b"\x30\xff\xff\xff\xff\xff\xff"):
        yield ver, "over-long length", [hdr + extra + b"\0" * 10 ** 6], [hdr + extra], "eof"


def session(ver):
  "a client's byte stream, and the operations it stands for"
  e = lambda d: wire.encode(ver, d)
  return [e({"type": "CONNECT", "clientid": "x"}), e({"type": "SUBSCRIBE", "id": 1, "filters": [("a", 2)], "props": []}),
          e({"type": "PUBLISH", "topic": "a", "qos": 2, "payload": b"p", "id": 7, "retain": False, "dup": False}), e({"type": "PUBREL", "id": 7}),
          b"\xc0\x00", e({"type": "PUBLISH", "topic": "a", "qos": 0, "payload": b"q" * 130, "id": 0, "retain": False, "dup": False}), e({"type": "DISCONNECT"})]


def broker_case(c):
  "the same bytes through a broker, split differently: the same answers"
  ver, segs, end = c
  outs = []
  for ss in ([b"".join(segs)], segs):
    w = World({"x": ver}, {"maximumPacketSize": 2 ** 28 - 1})
    sock = SegSock(ss, "eof")
    n = 0
    term = False
    while not term and n < 50:
      term = w.broker("x").handleRequest(sock)
      n += 1
    outs.append((b"".join(sock.out), n, sock.taken))
    env.Env.active = False
  if outs[0] != outs[1]:
    return "", "the broker answers a split stream differently: %r, whole: %r" % (outs[1], outs[0]), 2
  return "%d requests" % n, None, n


def broker_cases(thorough):
  for ver in (5, 3):
    buf = b"".join(session(ver))
    for k in range(1 + (2 if thorough else 1)):
      for cuts in itertools.combinations(range(1, len(buf)), k):
        yield ver, cut(buf, cuts), "eof"
    yield ver, cut(buf, range(1, len(buf))), "eof"
    for k in range(len(buf)):
      yield ver, cut(buf[:k], range(1, k)), "eof"


def run(ctx):
  enumr.enumerate_all(ctx, "packet reader", cases(not ctx.quick), case, chunk=200)
  enumr.enumerate_all(ctx, "broker", broker_cases(not ctx.quick), broker_case, chunk=20)


def replay(what):
  c = what["case"]
  o, e, n = case(c) if what["part"] == "packet reader" else broker_case(c)
  print(e or "not reproduced")
  return 1 if e else 0
