"""Bounded space of damaged packets, and the verdict on each."""
from . import fmt, wire

WILLP = {"qos": 1, "retain": True, "topic": "w", "payload": b"x", "props": []}


def corpus(ver):
  c = [{"type": "CONNECT", "clean": True, "keepalive": 9, "clientid": "c\u00e9", "will": None, "username": None, "password": None},
       {"type": "CONNECT", "clean": False, "keepalive": 0, "clientid": "d", "will": WILLP, "username": "u", "password": b"pw"},
       {"type": "CONNECT", "clean": True, "keepalive": 1, "clientid": "", "will": None, "username": "u", "password": None},
       {"type": "CONNACK", "sp": True, "rc": 0}, {"type": "CONNACK", "sp": False, "rc": 128 if ver == 5 else 2},
       {"type": "PUBLISH", "qos": 0, "dup": False, "retain": False, "topic": "a/b", "payload": b"m", "id": None},
       {"type": "PUBLISH", "qos": 1, "dup": True, "retain": True, "topic": "\u20ac", "payload": b"", "id": 258},
       {"type": "PUBLISH", "qos": 2, "dup": False, "retain": False, "topic": "t", "payload": b"mm", "id": 1},
       {"type": "SUBSCRIBE", "id": 1, "filters": [("a", 1)]},
       {"type": "SUBSCRIBE", "id": 2, "filters": [("a/#", 2), ("+", 0)]},
       {"type": "SUBACK", "id": 1, "codes": [0, 2, 128]},
       {"type": "UNSUBSCRIBE", "id": 1, "filters": ["a"]},
       {"type": "UNSUBSCRIBE", "id": 3, "filters": ["a", "\u00e9/b"]},
       {"type": "UNSUBACK", "id": 1, "codes": [0, 17]},
       {"type": "PINGREQ"}, {"type": "PINGRESP"}, {"type": "DISCONNECT", "rc": 0}]
  for t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    c.append({"type": t, "id": 1, "rc": 0})
    if ver == 5:
      c.append({"type": t, "id": 2, "rc": 146 if t in ("PUBREL", "PUBCOMP") else 16})
      c.append({"type": t, "id": 3, "rc": 0, "props": [(31, "r"), (38, ("k", "v"))]})
  if ver == 5:
    c.append({"type": "DISCONNECT", "rc": 4})
    c.append({"type": "DISCONNECT", "rc": 0, "props": [(17, 5)]})
    c.append({"type": "AUTH", "rc": 24, "props": [(21, "m"), (22, b"\x00")]})
    c.append({"type": "AUTH", "rc": 0, "props": []})
    c.append({"type": "CONNECT", "clean": True, "keepalive": 9, "clientid": "c", "username": None, "password": b"q",
              "will": dict(WILLP, props=[(24, 2), (1, 1), (3, "t"), (8, "r"), (9, b"\x01"), (2, 9), (38, ("a", "b"))]),
              "props": [(17, 1), (33, 2), (39, 99), (34, 3), (25, 1), (23, 0), (38, ("a", "")), (21, "m"), (22, b"d")]})
    c.append({"type": "CONNACK", "sp": False, "rc": 0,
              "props": [(17, 1), (33, 1), (36, 1), (37, 1), (39, 64), (18, "i"), (34, 1), (31, "r"), (38, ("a", "b")), (40, 1),
                        (41, 1), (42, 1), (19, 1), (26, "ri"), (28, "s"), (21, "m"), (22, b"d")]})
    c.append({"type": "PUBLISH", "qos": 1, "dup": False, "retain": False, "topic": "", "payload": b"m", "id": 5,
              "props": [(1, 1), (2, 3), (35, 1), (8, "r"), (9, b"c"), (38, ("a", "b")), (11, 300), (3, "ct")]})
    c.append({"type": "SUBSCRIBE", "id": 1, "filters": [("a", 0x2d)], "props": [(11, 200), (38, ("k", "v"))]})
    c.append({"type": "SUBACK", "id": 1, "codes": [1, 143], "props": [(31, "r")]})
    c.append({"type": "UNSUBSCRIBE", "id": 1, "filters": ["a"], "props": [(38, ("k", "v"))]})
    c.append({"type": "UNSUBACK", "id": 1, "codes": [0], "props": [(31, "r"), (38, ("k", "v"))]})
  return [wire.encode(ver, p) for p in c]


def reframe(raw, body):
  return raw[:1] + wire.vbi(len(body)) + body


def body_of(raw):
  i = 1
  while raw[i] & 128:
    i += 1
  return raw[i + 1:]


INTERESTING = [0, 1, 2, 3, 4, 0x10, 0x26, 0x7f, 0x80, 0x82, 0xc0, 0xff]


def mutants(ver, wide=False):
  "every damaged form of every packet of the corpus, within the bounds described in DESIGN.md"
  for raw in corpus(ver):
    yield raw
    body = body_of(raw)
    for n in range(1, len(raw)):
      yield raw[:n]                                # truncated
    for n in range(len(body)):
      yield reframe(raw, body[:n])                 # shorter, with a consistent length
      yield reframe(raw, body[:n] + body[n + 1:])  # one byte removed
    for i in range(len(raw)):                      # every byte replaced by every value
      for v in range(256):
        if v != raw[i]:
          yield raw[:i] + bytes([v]) + raw[i + 1:]
    for i in range(len(body) + 1):                 # a byte inserted
      for v in INTERESTING:
        yield reframe(raw, body[:i] + bytes([v]) + body[i:])
    for i in range(len(body)):                     # a byte duplicated, two bytes swapped
      yield reframe(raw, body[:i + 1] + body[i:])
      if i + 1 < len(body):
        yield reframe(raw, body[:i] + body[i + 1:i + 2] + body[i:i + 1] + body[i + 2:])
    for extra in (b"\x00", b"\xff\xff", b"\x00\x00\x00"):
      yield reframe(raw, body + extra)
      yield raw + extra                            # bytes beyond the packet
    # over-long forms of the remaining length
    for pad in (1, 2, 3, 4):
      v = bytearray(wire.vbi(len(body)))
      v[-1] |= 128
      v += b"\x80" * (pad - 1) + b"\x00"
      yield raw[:1] + bytes(v) + body
    if wide:
      for i in range(len(body)):
        for j in range(i + 1, len(body)):
          for a in INTERESTING:
            for b in INTERESTING:
              yield reframe(raw, body[:i] + bytes([a]) + body[i + 1:j] + bytes([b]) + body[j + 1:])


def small(wide=False):
  "every first byte, with every body of up to three (four) bytes over an alphabet of boundary values"
  al = [0, 1, 2, 4, 0x61, 0x80, 0xff] if not wide else [0, 1, 2, 3, 4, 5, 0x10, 0x61, 0x80, 0x90, 0xff]
  bodies = [b""]
  level = [b""]
  for n in range(4):
    level = [b + bytes([v]) for b in level for v in al]
    bodies += level
  for b0 in range(256):
    yield bytes([b0])
    for b in bodies:
      yield bytes([b0, len(b)]) + b


VALUE_LIMITS = {1: (0, 1), 23: (0, 1), 25: (0, 1), 36: (0, 1), 37: (0, 1), 40: (0, 1), 41: (0, 1), 42: (0, 1),
                33: (1, 65535), 39: (1, 2 ** 32), 35: (1, 65535), 11: (1, 2 ** 28)}


def dubious(ver, buf):
  """the specification makes this an error of another kind (a property value out of range, data beyond the packet that
  framing would have removed), or its tables disagree: a parser may accept or reject"""
  try:
    p = wire.decode(ver, buf)
  except wire.Malformed:
    return False
  allprops = p.get("props", []) + (p.get("will") or {}).get("props", [])
  for i, v in allprops:
    if i in VALUE_LIMITS and not VALUE_LIMITS[i][0] <= v <= VALUE_LIMITS[i][1]:
      return True
    if i == 8 and any(c in v for c in "+#"):
      return True
  t = p["type"]
  if t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBACK", "UNSUBACK") and p["id"] == 0:
    return True
  if t == "SUBACK" and not p["codes"] or t == "UNSUBACK" and ver == 5 and not p["codes"]:
    return True
  if t == "CONNACK" and p["sp"] and p["rc"]:
    return True
  if t == "CONNACK" and ver == 3 and p["rc"] > 5:
    return True
  if t == "PUBLISH" and (p["topic"] == "" or any(c in p["topic"] for c in "+#")):
    return True
  if t in ("SUBSCRIBE", "UNSUBSCRIBE"):
    fs = [f if t == "UNSUBSCRIBE" else f[0] for f in p["filters"]]
    from . import topicref
    if not all(topicref.valid_filter(f) for f in fs):
      return True
    if t == "SUBSCRIBE" and any(f.startswith("$share") and o & 4 for f, o in p["filters"]):
      return True
  if t == "AUTH" and len(buf) == 3:
    return True
  strings = [v for i, v in allprops if isinstance(v, str)]
  strings += [x for i, v in allprops if isinstance(v, tuple) for x in v]
  for k in ("clientid", "username", "topic"):
    if isinstance(p.get(k), str):
      strings.append(p[k])
  if p.get("will"):
    strings.append(p["will"]["topic"])
    if p["will"]["topic"] == "":
      return True
  # control characters and non-characters SHOULD not / MAY be refused
  return any(ord(ch) < 32 or 127 <= ord(ch) < 160 or 0xfdd0 <= ord(ch) <= 0xfdef or (ord(ch) & 0xfffe) == 0xfffe
             for s in strings for ch in s)


def verdict(ver, buf):
  "(outcome, error)"
  try:
    n = wire.split(buf)
  except (wire.Malformed, IndexError):
    n = None
  try:
    if n is None:
      raise wire.Malformed("frame")
    want = fmt.norm(ver, wire.decode(ver, buf[:n]))
  except wire.Malformed as e:
    want = None
    why = str(e)
  try:
    o = fmt.parse(ver, buf)
  except Exception as e:
    got = None
    exc = type(e).__name__
  else:
    try:
      got = fmt.norm(ver, fmt.fields(ver, o))
    except Exception as e:
      return "", "parsing %s returned an unusable packet: %r" % (buf[:40].hex(), e)
  if want is None:
    if got is None:
      return "rejected:" + why, None
    if ver == 3 and why in ("level", "non minimal variable byte integer"):
      # a server answers an unsupported level with CONNACK 1; 3.1.1 does not ask for minimal lengths
      return "either", None
    if len(buf) > 2 and buf[0] >> 4 in (2, 14):
      for (t, rc) in wire.REASONS_EITHER:
        if got["type"] == t and got.get("rc") == rc:
          return "either", None
    return "", "malformed packet (%s) %s is accepted as %s" % (why, buf[:60].hex(), fmt.short(got))
  if got is None:
    if dubious(ver, buf[:n]) or n < len(buf):
      return "either", None
    return "", "well formed packet %s is rejected (%s)" % (buf[:60].hex(), exc)
  if got != want:
    return "", "packet %s is misunderstood: %s" % (buf[:60].hex(), fmt.differ(got, want))
  return "accepted:" + want["type"], None


def is_malformed(ver, buf):
  "one complete packet that is malformed"
  try:
    if wire.split(buf) != len(buf):
      return False
  except (wire.Malformed, IndexError):
    return False
  try:
    wire.decode(ver, buf)
    return False
  except wire.Malformed as e:
    return not (buf[0] >> 4 in (2, 14)) and not (ver == 3 and str(e) in ("level", "non minimal variable byte integer"))
