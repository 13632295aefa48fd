"""Independent reference codec for MQTT 3.1.1 and MQTT 5.0 control packets.

Written from the OASIS specifications, not from the code in /repo.  A packet is a plain
dict:  {"type": <name>, ...}.  ``encode(version, pkt)`` gives wire bytes, ``decode(version,
buf)`` gives the dict or raises ``Malformed``.  The decoder is strict: it accepts exactly
the well formed packets of the specification.
"""

TYPES = ["RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
         "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH"]
NUM = dict((n, i) for i, n in enumerate(TYPES))


class Malformed(Exception):
  pass


# ---------------------------------------------------------------- primitives

def vbi(n):
  if not 0 <= n <= 268435455:
    raise ValueError(n)
  out = bytearray()
  while True:
    d = n & 127
    n >>= 7
    if n:
      out.append(d | 128)
    else:
      out.append(d)
      return bytes(out)


def u16(n):
  return n.to_bytes(2, "big")


def u32(n):
  return n.to_bytes(4, "big")


def binstr(b):
  return u16(len(b)) + b


def utf(s):
  return binstr(s.encode("utf-8"))


class Reader:
  def __init__(self, buf):
    self.b = buf
    self.p = 0

  def left(self):
    return len(self.b) - self.p

  def take(self, n):
    if self.left() < n:
      raise Malformed("short")
    r = self.b[self.p:self.p + n]
    self.p += n
    return r

  def u8(self):
    return self.take(1)[0]

  def u16(self):
    return int.from_bytes(self.take(2), "big")

  def u32(self):
    return int.from_bytes(self.take(4), "big")

  def vbi(self, strict=True):
    v = 0
    for i in range(4):
      d = self.u8()
      v |= (d & 127) << (7 * i)
      if not d & 128:
        if strict and i > 0 and d == 0:
          raise Malformed("non minimal variable byte integer")
        return v
    raise Malformed("variable byte integer too long")

  def bin(self):
    return bytes(self.take(self.u16()))

  def utf(self):
    raw = self.bin()
    try:
      s = raw.decode("utf-8")
    except UnicodeDecodeError:
      raise Malformed("bad utf-8")
    if "\0" in s:
      raise Malformed("null in string")
    return s


# ---------------------------------------------------------------- properties (5.0 table 2-4)

PROPS = {
  1: ("byte", {"PUBLISH", "WILL"}), 2: ("u32", {"PUBLISH", "WILL"}), 3: ("utf", {"PUBLISH", "WILL"}),
  8: ("utf", {"PUBLISH", "WILL"}), 9: ("bin", {"PUBLISH", "WILL"}),
  11: ("vbi", {"PUBLISH", "SUBSCRIBE"}), 17: ("u32", {"CONNECT", "CONNACK", "DISCONNECT"}),
  18: ("utf", {"CONNACK"}), 19: ("u16", {"CONNACK"}), 21: ("utf", {"CONNECT", "CONNACK", "AUTH"}),
  22: ("bin", {"CONNECT", "CONNACK", "AUTH"}), 23: ("byte", {"CONNECT"}), 24: ("u32", {"WILL"}),
  25: ("byte", {"CONNECT"}), 26: ("utf", {"CONNACK"}), 28: ("utf", {"CONNACK", "DISCONNECT"}),
  31: ("utf", {"CONNACK", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK", "DISCONNECT", "AUTH"}),
  33: ("u16", {"CONNECT", "CONNACK"}), 34: ("u16", {"CONNECT", "CONNACK"}), 35: ("u16", {"PUBLISH"}),
  36: ("byte", {"CONNACK"}), 37: ("byte", {"CONNACK"}),
  38: ("pair", {"CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE",
                "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "DISCONNECT", "AUTH", "WILL"}),
  39: ("u32", {"CONNECT", "CONNACK"}), 40: ("byte", {"CONNACK"}), 41: ("byte", {"CONNACK"}),
  42: ("byte", {"CONNACK"}),
}
PNAME = {
  1: "PayloadFormatIndicator", 2: "MessageExpiryInterval", 3: "ContentType", 8: "ResponseTopic",
  9: "CorrelationData", 11: "SubscriptionIdentifier", 17: "SessionExpiryInterval",
  18: "AssignedClientIdentifier", 19: "ServerKeepAlive", 21: "AuthenticationMethod",
  22: "AuthenticationData", 23: "RequestProblemInformation", 24: "WillDelayInterval",
  25: "RequestResponseInformation", 26: "ResponseInformation", 28: "ServerReference",
  31: "ReasonString", 33: "ReceiveMaximum", 34: "TopicAliasMaximum", 35: "TopicAlias",
  36: "MaximumQoS", 37: "RetainAvailable", 38: "UserProperty", 39: "MaximumPacketSize",
  40: "WildcardSubscriptionAvailable", 41: "SubscriptionIdentifierAvailable",
  42: "SharedSubscriptionAvailable"}
PID = dict((v, k) for k, v in PNAME.items())
# property identifiers that may appear more than once: user property everywhere, subscription
# identifier in a server-to-client PUBLISH
MULTI = {38}

REASONS = {
  "CONNACK": {0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 154, 155, 156, 157, 159},
  "PUBACK": {0, 16, 128, 131, 135, 144, 145, 151, 153},
  "PUBREC": {0, 16, 128, 131, 135, 144, 145, 151, 153},
  "PUBREL": {0, 146}, "PUBCOMP": {0, 146},
  "SUBACK": {0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162},
  "UNSUBACK": {0, 17, 128, 131, 135, 143, 145},
  "DISCONNECT": {0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151,
                 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162},
  "AUTH": {0, 24, 25},
}
# combinations on which the tables of the specification disagree with each other: either reading is accepted
REASONS_EITHER = {("CONNACK", 153), ("DISCONNECT", 140)}


def enc_value(kind, v):
  if kind == "byte":
    return bytes([v])
  if kind == "u16":
    return u16(v)
  if kind == "u32":
    return u32(v)
  if kind == "vbi":
    return vbi(v)
  if kind == "utf":
    return utf(v)
  if kind == "bin":
    return binstr(v)
  return utf(v[0]) + utf(v[1])


def enc_props(props):
  """props: list of (id, value)"""
  body = b"".join(vbi(i) + enc_value(PROPS[i][0], v) for i, v in props)
  return vbi(len(body)) + body


def dec_props(r, where, multi_subid=False):
  n = r.vbi()
  sub = Reader(r.take(n))
  out = []
  seen = set()
  while sub.left():
    i = sub.vbi()
    if i not in PROPS or where not in PROPS[i][1]:
      raise Malformed("property %d not allowed in %s" % (i, where))
    if i in seen and i not in MULTI and not (i == 11 and multi_subid):
      raise Malformed("duplicate property %d" % i)
    seen.add(i)
    k = PROPS[i][0]
    if k == "byte":
      v = sub.u8()
    elif k == "u16":
      v = sub.u16()
    elif k == "u32":
      v = sub.u32()
    elif k == "vbi":
      v = sub.vbi()
    elif k == "utf":
      v = sub.utf()
    elif k == "bin":
      v = sub.bin()
    else:
      v = (sub.utf(), sub.utf())
    out.append((i, v))
  return out


# ---------------------------------------------------------------- packets

def frame(ptype, flags, body):
  return bytes([(NUM[ptype] << 4) | flags]) + vbi(len(body)) + body


def encode(ver, p):
  t = p["type"]
  props = p.get("props", [])
  P = (lambda: enc_props(props)) if ver == 5 else (lambda: b"")
  if t == "CONNECT":
    will = p.get("will")
    flags = (2 if p.get("clean", True) else 0)
    if will:
      flags |= 4 | (will["qos"] << 3) | (32 if will["retain"] else 0)
    if p.get("username") is not None:
      flags |= 128
    if p.get("password") is not None:
      flags |= 64
    flags |= p.get("reserved", 0)
    b = utf(p.get("proto", "MQTT")) + bytes([p.get("level", 5 if ver == 5 else 4), flags])
    b += u16(p.get("keepalive", 0)) + P() + utf(p["clientid"])
    if will:
      if ver == 5:
        b += enc_props(will.get("props", []))
      b += utf(will["topic"]) + binstr(will["payload"])
    if p.get("username") is not None:
      b += utf(p["username"])
    if p.get("password") is not None:
      b += binstr(p["password"])
    return frame(t, 0, b)
  if t == "CONNACK":
    return frame(t, 0, bytes([1 if p["sp"] else 0, p["rc"]]) + P())
  if t == "PUBLISH":
    flags = (8 if p.get("dup") else 0) | (p["qos"] << 1) | (1 if p.get("retain") else 0)
    b = utf(p["topic"])
    if p["qos"]:
      b += u16(p["id"])
    return frame(t, flags, b + P() + p["payload"])
  if t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    b = u16(p["id"])
    if ver == 5:
      # canonical: shortest form
      if props:
        b += bytes([p.get("rc", 0)]) + P()
      elif p.get("rc", 0):
        b += bytes([p["rc"]])
    return frame(t, 2 if t == "PUBREL" else 0, b)
  if t == "SUBSCRIBE":
    b = u16(p["id"]) + P()
    for f, o in p["filters"]:
      b += utf(f) + bytes([o])
    return frame(t, 2, b)
  if t == "SUBACK":
    return frame(t, 0, u16(p["id"]) + P() + bytes(p["codes"]))
  if t == "UNSUBSCRIBE":
    return frame(t, 2, u16(p["id"]) + P() + b"".join(utf(f) for f in p["filters"]))
  if t == "UNSUBACK":
    return frame(t, 0, u16(p["id"]) + P() + (bytes(p["codes"]) if ver == 5 else b""))
  if t in ("PINGREQ", "PINGRESP"):
    return frame(t, 0, b"")
  if t == "DISCONNECT":
    if ver != 5:
      return frame(t, 0, b"")
    if props:
      return frame(t, 0, bytes([p.get("rc", 0)]) + P())
    return frame(t, 0, bytes([p["rc"]]) if p.get("rc", 0) else b"")
  if t == "AUTH":
    return frame(t, 0, bytes([p.get("rc", 0)]) + P())
  raise ValueError(t)


def split(buf):
  """first packet's length in buf, or None if incomplete"""
  v = 0
  for i in range(4):
    if len(buf) < 2 + i:
      return None
    d = buf[1 + i]
    v |= (d & 127) << (7 * i)
    if not d & 128:
      n = 2 + i + v
      return n if len(buf) >= n else None
  raise Malformed("remaining length")


def decode(ver, buf, from_server=True):
  """decode exactly one packet; anything left over, missing or out of place is Malformed"""
  r = Reader(buf)
  b0 = r.u8()
  t = TYPES[b0 >> 4]
  fl = b0 & 15
  n = r.vbi()
  if n != r.left():
    raise Malformed("length")
  if t == "RESERVED" or (t == "AUTH" and ver != 5):
    raise Malformed("type")
  if t != "PUBLISH" and fl != (2 if t in ("PUBREL", "SUBSCRIBE", "UNSUBSCRIBE") else 0):
    raise Malformed("flags")
  p = {"type": t}
  V5 = ver == 5

  def props():
    if V5:
      p["props"] = dec_props(r, t, multi_subid=(t == "PUBLISH" and from_server))

  if t == "CONNECT":
    if r.utf() != "MQTT":
      raise Malformed("protocol name")
    p["level"] = r.u8()
    if p["level"] != (5 if V5 else 4):
      raise Malformed("level")
    f = r.u8()
    if f & 1:
      raise Malformed("reserved flag")
    p["clean"] = bool(f & 2)
    wf, wq, wr = bool(f & 4), (f >> 3) & 3, bool(f & 32)
    pf, uf = bool(f & 64), bool(f & 128)
    if wq == 3 or (not wf and (wq or wr)):
      raise Malformed("will flags")
    if pf and not uf and not V5:
      raise Malformed("password without username")
    p["keepalive"] = r.u16()
    props()
    p["clientid"] = r.utf()
    p["will"] = None
    if wf:
      w = {"qos": wq, "retain": wr}
      if V5:
        w["props"] = dec_props(r, "WILL")
      w["topic"] = r.utf()
      w["payload"] = r.bin()
      p["will"] = w
    p["username"] = r.utf() if uf else None
    p["password"] = r.bin() if pf else None
  elif t == "CONNACK":
    a = r.u8()
    if a > 1:
      raise Malformed("ack flags")
    p["sp"] = a == 1
    p["rc"] = r.u8()
    if V5 and p["rc"] not in REASONS[t]:
      raise Malformed("reason")
    props()
  elif t == "PUBLISH":
    p["dup"], p["qos"], p["retain"] = bool(fl & 8), (fl >> 1) & 3, bool(fl & 1)
    if p["qos"] == 3 or (p["qos"] == 0 and p["dup"]):
      raise Malformed("publish flags")
    p["topic"] = r.utf()
    p["id"] = r.u16() if p["qos"] else None
    if p["id"] == 0:
      raise Malformed("packet id 0")
    props()
    p["payload"] = bytes(r.take(r.left()))
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    p["id"] = r.u16()
    if V5:
      p["rc"] = 0
      p["props"] = []
      if r.left():
        p["rc"] = r.u8()
        if p["rc"] not in REASONS[t]:
          raise Malformed("reason")
        if r.left():
          props()
  elif t == "SUBSCRIBE":
    p["id"] = r.u16()
    if p["id"] == 0:
      raise Malformed("packet id 0")
    props()
    fs = []
    while r.left():
      f = r.utf()
      o = r.u8()
      if (o & 3) == 3 or (V5 and ((o >> 4) & 3) == 3) or (o & (0xC0 if V5 else 0xFC)):
        raise Malformed("subscribe options")
      fs.append((f, o))
    if not fs:
      raise Malformed("no filters")
    p["filters"] = fs
  elif t == "SUBACK":
    p["id"] = r.u16()
    props()
    p["codes"] = list(r.take(r.left()))
    for c in p["codes"]:
      if c not in (REASONS[t] if V5 else (0, 1, 2, 128)):
        raise Malformed("reason")
  elif t == "UNSUBSCRIBE":
    p["id"] = r.u16()
    if p["id"] == 0:
      raise Malformed("packet id 0")
    props()
    fs = []
    while r.left():
      fs.append(r.utf())
    if not fs:
      raise Malformed("no filters")
    p["filters"] = fs
  elif t == "UNSUBACK":
    p["id"] = r.u16()
    props()
    if V5:
      p["codes"] = list(r.take(r.left()))
      for c in p["codes"]:
        if c not in REASONS[t]:
          raise Malformed("reason")
  elif t == "DISCONNECT":
    if V5:
      p["rc"] = 0
      p["props"] = []
      if r.left():
        p["rc"] = r.u8()
        if p["rc"] not in REASONS[t]:
          raise Malformed("reason")
        if r.left():
          props()
  elif t == "AUTH":
    p["rc"] = 0
    p["props"] = []
    if r.left():
      p["rc"] = r.u8()
      if p["rc"] not in REASONS[t]:
        raise Malformed("reason")
      if r.left():
        props()
  if r.left():
    raise Malformed("trailing bytes")
  return p
