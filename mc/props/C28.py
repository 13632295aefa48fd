"""MQTT-SN: packets survive packing and unpacking; datagrams reach the MQTT subscribers."""
import itertools
from mc import enumr, env, canon
from mc.lib import *
from mc.world import World, FakeSock
from mc.refbroker import Mismatch, Msg
BOUNDS = {"quick": "codec: all 256 flag bytes, every data and client id length 0-300 and around 65535, ids and durations at byte boundaries, every truncation and every wrong length byte of sample packets, all strings of length <= 2; server: SN connects (flags, ids, protocols), QoS -1/0 publishes (retained, empty, wildcards, $ topics, other topic types), malformed datagrams, from two addresses, against V3 and V5 subscribers, depth 6",
          "thorough": "codec: every length to 2000, all strings of length 3; server: depth 7"}


# ------------------------------------------------------------------ reference codec
class Bad(Exception):
  pass


def enc(typ, body):
  n = len(body) + 2
  if n < 256:
    return bytes([n, typ]) + body
  n += 2
  return bytes([1, n >> 8, n & 255, typ]) + body


def flags(dup=0, qos=0, retain=0, will=0, clean=0, tid=0):
  return bytes([dup << 7 | (qos & 3) << 5 | retain << 4 | will << 3 | clean << 2 | tid])


def e_connect(cid, clean=1, will=0, proto=1, duration=0, fl=None):
  return enc(4, (flags(clean=clean, will=will) if fl is None else bytes([fl])) + bytes([proto, duration >> 8, duration & 255]) + cid.encode())


def e_publish(topic, data, qos=-1, retain=0, tid=2, mid=0, fl=None):
  return enc(12, (flags(qos=qos, retain=retain, tid=tid) if fl is None else bytes([fl])) + topic + bytes([mid >> 8, mid & 255]) + data)


def dec(b):
  "(type, fields, exact length) or Bad"
  if len(b) < 2:
    raise Bad("short")
  if b[0] == 1:
    if len(b) < 4:
      raise Bad("short")
    n, i = b[1] << 8 | b[2], 3
  else:
    n, i = b[0], 1
  if n < i + 1 or n > len(b):
    raise Bad("length")
  exact = n == len(b)
  t, body = b[i], b[i + 1:n]
  def fl(x):
    q = x >> 5 & 3
    return (bool(x & 128), -1 if q == 3 else q, bool(x & 16), bool(x & 8), bool(x & 4), x & 3)
  if t == 4:
    if len(body) < 4:
      raise Bad("short")
    try:
      cid = body[4:].decode()
    except UnicodeDecodeError:
      raise Bad("client id")
    return "CONNECT", (fl(body[0]), body[1], body[2] << 8 | body[3], cid), exact
  if t == 5:
    if n != 3 or i != 1:
      raise Bad("length")
    return "CONNACK", (body[0],), exact
  if t == 12:
    if len(body) < 5:
      raise Bad("short")
    return "PUBLISH", (fl(body[0]), body[1] << 8 | body[2], body[3] << 8 | body[4], body[5:]), exact
  raise Bad("type")


def fields(p):
  n = type(p).__name__
  def fl(f):
    return (bool(f.DUP), f.QoS, bool(f.RETAIN), bool(f.Will), bool(f.CleanSession), f.TopicIdType)
  if n == "Connects":
    return "CONNECT", (fl(p.Flags), p.ProtocolId, p.Duration, p.ClientId)
  if n == "Connacks":
    return "CONNACK", (p.ReturnCode,)
  if n == "Publishes":
    return "PUBLISH", (fl(p.Flags), p.TopicId, p.MsgId, bytes(p.Data))
  return n, ()


def sn():
  import mqtt.formats.MQTTSN as f
  return f


def build(kind, fs):
  f = sn()
  p = {"CONNECT": f.Connects, "CONNACK": f.Connacks, "PUBLISH": f.Publishes}[kind]()
  if kind == "CONNACK":
    p.ReturnCode = fs[0]
    return p
  (p.Flags.DUP, p.Flags.QoS, p.Flags.RETAIN, p.Flags.Will, p.Flags.CleanSession, p.Flags.TopicIdType) = fs[0]
  if kind == "CONNECT":
    p.ProtocolId, p.Duration, p.ClientId = fs[1:]
  else:
    p.TopicId, p.MsgId, p.Data = fs[1:]
  return p


class Gone:
  "a stream socket which delivers the bytes one by one, and then its end"

  def __init__(self, data, step):
    self.data, self.step, self.n = data, step, 0

  def recv(self, n):
    self.n += 1
    if self.n > 200000:
      raise Mismatch("getPacket does not notice the end of the connection")
    k = min(n, self.step)
    r, self.data = self.data[:k], self.data[k:]
    return r


def trip(case):
  "pack, compare with the reference encoding; unpack into the same"
  env.Env.reset()
  kind, fs = case
  f = sn()
  p = build(kind, fs)
  raw = p.pack()
  fb = bytes([fs[0][0] << 7 | (fs[0][1] & 3) << 5 | fs[0][2] << 4 | fs[0][3] << 3 | fs[0][4] << 2 | fs[0][5]]) if kind != "CONNACK" else b""
  if kind == "CONNECT":
    want = enc(4, fb + bytes([fs[1], fs[2] >> 8, fs[2] & 255]) + fs[3].encode())
  elif kind == "CONNACK":
    want = enc(5, bytes(fs))
  else:
    want = enc(12, fb + bytes([fs[1] >> 8, fs[1] & 255, fs[2] >> 8, fs[2] & 255]) + fs[3])
  if raw != want:
    return kind, "%s packed as %s.. instead of %s.." % (kind, raw[:12].hex(), want[:12].hex()), 1
  q = f.unpackPacket(raw)
  if q is None or fields(q) != (kind, tuple(fs)):
    return kind, "%r unpacked as %r" % ((kind, fs), q and fields(q)), 2
  if not (p == q):
    return kind, "%r: the unpacked packet differs from the packed one" % (fs,), 2
  if kind != "CONNACK":
    for other in (build("CONNACK", (0,)),):
      if p == other:
        return kind, "%s equals a CONNACK" % kind, 2
  n = 2
  if len(raw) < 400:
    for k in (1, 7, len(raw)):
      n += 1
      got = f.getPacket(Gone(raw + b"\2\x16", k))
      if got != raw:
        return kind, "%s read in pieces of %d bytes: %r" % (raw.hex(), k, got), n
  return kind + " %d" % (0 if len(raw) < 256 else 1), None, n


def differ(case):
  "packets that differ in one field are not equal"
  env.Env.reset()
  kind, fs, gs = case
  p, q, p2 = build(kind, fs), build(kind, gs), build(kind, fs)
  if not (p == p2) or p == q or p.pack() == q.pack():
    return kind, "%s: %r and %r" % (kind, fs, gs), 3
  return kind, None, 3


def odd(raw):
  "any bytes: unpacked as the reference does, or refused"
  env.Env.reset()
  f = sn()
  try:
    want = dec(raw)
  except Bad as e:
    want = None
  try:
    p = f.unpackPacket(raw)
    got = p and fields(p)
  except Exception as e:
    p = got = None
  if want is None:
    if got is not None:
      return "accepted", "malformed %s.. is unpacked as %r" % (raw[:16].hex(), got), 1
    return "refused", None, 1
  if got is None and not want[2]:
    return "trailing bytes refused", None, 1
  if got != want[:2]:
    return "wrong", "%s.. is unpacked as %r instead of %r" % (raw[:16].hex(), got, want[:2]), 1
  n = 1
  if len(raw) < 300:
    for k in range(len(raw)):
      if k and raw[0] == 1 and k < 3:
        continue
      n += 1
      try:
        r = f.getPacket(Gone(raw[:k], 3))
      except Mismatch as e:
        return "loop", str(e), n
      except Exception:
        r = None
      if r is not None and want[2]:
        return "short", "%s cut after %d bytes is returned as a packet: %r" % (raw.hex(), k, r), n
  return "unpacked", None, n


def allflags():
  for b in range(256):
    q = b >> 5 & 3
    yield (bool(b & 128), -1 if q == 3 else q, bool(b & 16), bool(b & 8), bool(b & 4), b & 3)


def trips(quick):
  f0 = (False, -1, False, False, True, 2)
  for fl in allflags():
    yield "CONNECT", (fl, 1, 10, "c")
    yield "PUBLISH", (fl, 0x6162, 1, b"x")
  for x in range(256):
    yield "CONNACK", (x,)
    yield "CONNECT", (f0, x, 0, "ab")
  edges = sorted(set(v for k in (0, 1, 127, 255, 256, 257, 511, 4095, 32767, 65279, 65280) for v in (k, k + 1) if v < 65536) | {65534, 65535})
  for x in edges:
    yield "CONNECT", (f0, 1, x, "")
    for y in edges:
      yield "PUBLISH", (f0, x, y, b"\0")
  for n in itertools.chain(range(300 if quick else 2000), (65500, 65520, 65524, 65526)):
    yield "PUBLISH", (f0, 1, 2, bytes(k & 255 for k in range(n)))
    yield "CONNECT", (f0, 1, 2, "k" * n)
    if n < 33000:
      yield "CONNECT", (f0, 1, 2, "\u00fc" * n)


def differs():
  f0 = (False, 0, False, False, False, 0)
  alt = [(True,) + f0[1:]] + [f0[:1] + (q,) + f0[2:] for q in (1, 2, -1)] + [f0[:2] + (True,) + f0[3:], f0[:3] + (True,) + f0[4:], f0[:4] + (True,) + f0[5:]] + [f0[:5] + (t,) for t in (1, 2, 3)]
  for fl in alt:
    yield "CONNECT", (f0, 1, 10, "c"), (fl, 1, 10, "c")
    yield "PUBLISH", (f0, 1, 10, b"c"), (fl, 1, 10, b"c")
  yield "CONNECT", (f0, 1, 10, "c"), (f0, 2, 10, "c")
  yield "CONNECT", (f0, 1, 10, "c"), (f0, 1, 11, "c")
  yield "CONNECT", (f0, 1, 10, "c"), (f0, 1, 10, "d")
  yield "PUBLISH", (f0, 1, 10, b"c"), (f0, 2, 10, b"c")
  yield "PUBLISH", (f0, 1, 10, b"c"), (f0, 1, 11, b"c")
  yield "PUBLISH", (f0, 1, 10, b"c"), (f0, 1, 10, b"d")
  yield "CONNACK", (0,), (1,)


def odds(quick):
  yield b""
  for n in (1, 2) if quick else (1, 2, 3):
    for t in itertools.product(range(256), repeat=n):
      yield bytes(t)
  good = [e_connect("abc", duration=300), e_connect(""), enc(5, b"\0"), e_publish(b"ab", b"data"), e_publish(b"ab", b""),
          e_publish(b"ab", b"z" * 260), e_connect("k" * 260)]
  for g in good:
    yield g
    short = len(g) < 250
    for k in range(len(g)):
      yield g[:k]
    for x in range(256):
      yield bytes([x]) + g[1:]          # another length
      if short:
        yield g[:1] + bytes([x]) + g[2:]  # another type
        yield b"\1" + bytes([0, x]) + g[1:]
    if not short:
      for x in (0, 1, 2, 3, 4, 5, 255, 256, len(g) - 1, len(g), len(g) + 1, 65535):
        yield g[:1] + bytes([x >> 8, x & 255]) + g[3:]
      for x in range(256):
        yield g[:3] + bytes([x]) + g[4:]
    for tail in (b"\0", b"\2\x16", g):
      yield g + tail
    if short:   # the same with a three byte length
      yield b"\1" + bytes([0, len(g) + 2]) + g[1:]
  for t in range(256):
    for body in (b"", b"\0", b"\0" * 4, b"\0\1\0\0ab", b"\x64ab\0\0x"):
      yield enc(t, body)
  for b in (b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"a\x80"):
    yield enc(4, b"\4\1\0\0" + b)


# ------------------------------------------------------------------ the server
def topic_ok(t):
  try:
    s = t.decode()
  except UnicodeDecodeError:
    return None
  return None if "+" in s or "#" in s or "\0" in s else s


class SnWorld(World):
  def __init__(self, clients, options=None):
    World.__init__(self, clients, options)
    self.models[0].sn = {}     # address -> client id
    self.sent = []

  def model_text(self, m):
    return World.model_text(self, m) + repr(sorted(m.sn.items()))

  def key(self):
    def opaque(o):
      if isinstance(o, FakeSock):
        return "S"
      if o is self.b3 or o is self.b5 or type(o).__module__ == type(self).__module__ or callable(o):
        return "H"
    return World.key(self) + canon.digest(self.bsn, opaque=opaque)

  def op_sn(self, addr, data):
    from mqtt.brokers.listeners import UDPListeners
    self.sent = []
    sent = self.sent
    address = ("10.0.0.%d" % addr, 5000 + addr)
    class Sock:
      def sendto(self, data, to):
        sent.append((bytes(data), to))
    def impl():
      h = object.__new__(UDPListeners.UDPHandler)
      h.request, h.client_address, h.server = (data, Sock()), address, None
      try:
        h.handle()
      except Exception:
        pass   # the socket server reports it, and goes on
    def act(m, pick):
      want = []
      try:
        kind, fs, exact = dec(data)
      except Bad:
        kind = None
      if kind is not None and not exact and pick(2):
        kind = None
      if kind == "CONNECT":
        fl, proto, duration, cid = fs
        if proto != 1:
          want = [b"\3\5"]
          m.sn.pop(addr, None)
        elif addr in m.sn:
          if pick(2):
            m.sn.pop(addr)    # a second CONNECT may be answered, or end the connection
          else:
            want = [b"\3\5\0"]
            m.sn[addr] = cid or "?"
        elif cid == "" and not fl[4]:
          want = [b"\3\5"]
        else:
          want = [b"\3\5\0"]
          for a in [a for a, c in m.sn.items() if c == cid and cid != ""]:
            del m.sn[a]
          m.sn[addr] = cid or "?"
      elif kind == "PUBLISH":
        fl, tid, mid, payload = fs
        topic = topic_ok(bytes([tid >> 8, tid & 255]))
        if fl[1] in (0, -1) and fl[5] == 2 and topic is not None and (fl[1] == -1 or addr in m.sn):
          m.distribute(Msg(topic, payload, 0, fl[2], [], None, None), None, pick)
      if len(want) != len(sent):
        raise Mismatch("SN %s from address %d is answered with %r" % (kind, addr, sent))
      for w, (d, to) in zip(want, sent):
        if to != address or len(d) != 3 or not d.startswith(w) or (len(w) == 2 and d[2] == 0):
          raise Mismatch("SN %s from address %d is answered with %s to %r" % (kind, addr, d.hex(), to))
    return impl, act


def servers(ctx):
  d = 0 if ctx.quick else 1
  res = []
  P = lambda *a, **k: ("sn", 1, e_publish(*a, **k))
  Q = lambda *a, **k: ("sn", 2, e_publish(*a, **k))
  for va, vb in ((3, 5), (5, 3)):
    ka = {"expiry": 1000} if va == 5 else {}
    a1 = connect("a", clean=False, **ka)
    en = simple({"a": [("sub", "a", (("a/", 1), ("+/#", 0), ("ab", 2))), ("drop", "a")],
                 "b": [("sub", "b", (("#", 2), ("$x", 1))), ("unsub", "b", ("#",)), ("pub", "b", "ab", 1, True, b"mqtt", 4)]},
                [(down("a"), a1), (None, ("sn", 1, e_connect("one"))), (None, P(b"ab", b"one", qos=0)), (None, P(b"ab", b"two", retain=1)),
                 (None, P(b"ab", b"", qos=0, retain=1)), (None, P(b"a/", b"\xff" * 100, mid=7)), (None, Q(b"$x", b"dollar", retain=1))],
                limits=[(("pub",), 1), (("drop",), 1)])
    res.append(broker_scenario("deliveries, v%d and v%d" % (va, vb), {"a": va, "b": vb}, en, 6 + d, prefix=[a1, connect("b")], cls=SnWorld))
    en = simple({"b": [("unsub", "b", ("#",))]},
                [(None, ("sn", 1, e_connect("one"))), (None, ("sn", 2, e_connect("one", clean=0))), (None, ("sn", 2, e_connect("two", will=1, duration=9))),
                 (None, ("sn", 1, e_connect("", clean=1))), (None, ("sn", 2, e_connect("", clean=0))), (None, ("sn", 1, e_connect("one", proto=2))),
                 (None, ("sn", 2, e_connect("two", proto=0))),
                 (None, P(b"ab", b"p1", qos=0)), (None, Q(b"ab", b"p2", qos=0, retain=1)), (None, Q(b"\xc3\xbc", b"p3", qos=0))])
    res.append(broker_scenario("connections, v%d and v%d" % (va, vb), {"a": va, "b": vb}, en, 7 + d,
                               prefix=[connect("b"), ("sub", "b", (("#", 2),)), a1, ("sub", "a", (("ab", 1),))], cls=SnWorld))
    junk = [b"", b"\0", b"\2\x18", b"\2\x16", b"\xff" * 9, b"\1", b"\1\0\4\4", e_connect("x")[:-3], e_publish(b"ab", b"cut")[:-2], e_publish(b"ab", b"m")[:5],
            e_publish(b"+a", b"m", retain=1), e_publish(b"a#", b"m"), e_publish(b"\xff\xfe", b"m"), e_publish(b"\0a", b"m", retain=1), e_publish(b"a+", b"m", qos=0),
            e_publish(b"ab", b"m", tid=0), e_publish(b"ab", b"m", tid=1, retain=1), e_publish(b"ab", b"m", tid=3, qos=0),
            enc(5, b"\0"), enc(18, b"\0\0\1ab"), enc(255, b"zz"), enc(4, b"\4\1\0\0\xff"), e_publish(b"ab", b"m") + b"trailing", b"\x30\4\0\1ab"]
    en = simple({"a": [("pub", "a", "ab", 1, False, b"ok", 5)]},
                [(None, ("sn", 1, j)) for j in junk] + [(None, ("sn", 1, e_connect("one"))), (None, P(b"ab", b"good", qos=0)), (None, Q(b"ab", b"good")), (None, Q(b"ab", b"kept", retain=1))],
                limits=[(("pub",), 1)])
    res.append(broker_scenario("malformed, v%d and v%d" % (va, vb), {"a": va, "b": vb}, en, 4 + d,
                               prefix=[connect("b"), ("sub", "b", (("#", 2),)), a1], cls=SnWorld))
  return res


scenarios = servers
PARTS = {"packets": trip, "comparison": differ, "odd bytes": odd}


def run(ctx):
  for part, items in (("packets", trips(ctx.quick)), ("comparison", differs()), ("odd bytes", odds(ctx.quick))):
    enumr.enumerate_all(ctx, part, items, PARTS[part], chunk=256)


def replay(what):
  outcome, err, n = PARTS[what["part"]](what["case"])
  env.Env.active = False
  print("REPRODUCED: %s" % err if err else "not reproduced")
  return 1 if err else 0
