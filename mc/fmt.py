"""Adapter between packet dictionaries (mc.wire) and the packet objects of the code under test."""
from . import env, wire
from .wire import PNAME, PID
import mqtt.formats.MQTTV5.MQTTV5 as M5
import mqtt.formats.MQTTV311.MQTTV311 as M3

CLASS = {"CONNECT": "Connects", "CONNACK": "Connacks", "PUBLISH": "Publishes", "PUBACK": "Pubacks", "PUBREC": "Pubrecs",
         "PUBREL": "Pubrels", "PUBCOMP": "Pubcomps", "SUBSCRIBE": "Subscribes", "SUBACK": "Subacks",
         "UNSUBSCRIBE": "Unsubscribes", "UNSUBACK": "Unsubacks", "PINGREQ": "Pingreqs", "PINGRESP": "Pingresps",
         "DISCONNECT": "Disconnects", "AUTH": "Auths"}
TYPE = dict((v, k) for k, v in CLASS.items())


def set_props(target, props):
  for i, v in props:
    setattr(target, PNAME[i], v)


def get_props(p):
  res = []
  for i, n in sorted(PNAME.items()):
    if hasattr(p, n):
      v = getattr(p, n)
      if i in (11, 38):
        for x in v:
          res.append((i, tuple(x) if i == 38 else x))
      else:
        res.append((i, v))
  return res


def sorted_props(props):
  return sorted(props, key=lambda x: x[0])    # stable: keeps the order of repeated ones


def norm(ver, p):
  "normal form of a packet dictionary"
  p = dict(p)
  if "props" in p:
    p["props"] = sorted_props(p["props"])
  if p.get("will") and "props" in p["will"]:
    p["will"] = dict(p["will"], props=sorted_props(p["will"]["props"]))
  if ver == 3:
    p.pop("props", None)
    if p.get("will"):
      p["will"] = dict((k, v) for k, v in p["will"].items() if k != "props")
  return p


def build(ver, p):
  "an object of the code under test holding the fields of p"
  M = M5 if ver == 5 else M3
  t = p["type"]
  o = getattr(M, CLASS[t])()
  pid = "packetIdentifier" if ver == 5 else "messageIdentifier"
  if ver == 5 and p.get("props"):
    set_props(o.properties, p["props"])
  if t == "CONNECT":
    setattr(o, "CleanStart" if ver == 5 else "CleanSession", p["clean"])
    o.KeepAliveTimer = p["keepalive"]
    o.ClientIdentifier = p["clientid"]
    w = p["will"]
    if w:
      o.WillFlag = True
      o.WillQoS, o.WillRETAIN = w["qos"], w["retain"]
      o.WillTopic, o.WillMessage = w["topic"], w["payload"]
      if ver == 5:
        set_props(o.WillProperties, w.get("props", []))
    if p["username"] is not None:
      o.usernameFlag, o.username = True, p["username"]
    if p["password"] is not None:
      o.passwordFlag, o.password = True, p["password"]
  elif t == "CONNACK":
    if ver == 5:
      o.sessionPresent = p["sp"]
      o.reasonCode = M.ReasonCodes(M.PacketTypes.CONNACK, identifier=p["rc"])
    else:
      o.flags, o.returnCode = int(p["sp"]), p["rc"]
  elif t == "PUBLISH":
    o.fh.DUP, o.fh.QoS, o.fh.RETAIN = p["dup"], p["qos"], p["retain"]
    o.topicName, o.data = p["topic"], p["payload"]
    if p["qos"]:
      setattr(o, pid, p["id"])
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    setattr(o, pid, p["id"])
    if ver == 5:
      o.reasonCode.value = p["rc"]
  elif t == "SUBSCRIBE":
    setattr(o, pid, p["id"])
    if ver == 5:
      o.data = [(f, M.SubscribeOptions(x & 3, bool(x & 4), bool(x & 8), x >> 4)) for f, x in p["filters"]]
    else:
      o.data = list(p["filters"])
  elif t == "SUBACK":
    setattr(o, pid, p["id"])
    if ver == 5:
      o.reasonCodes = [M.ReasonCodes(M.PacketTypes.SUBACK, identifier=c) for c in p["codes"]]
    else:
      o.data = list(p["codes"])
  elif t == "UNSUBSCRIBE":
    setattr(o, pid, p["id"])
    if ver == 5:
      o.topicFilters = list(p["filters"])
    else:
      o.data = list(p["filters"])
  elif t == "UNSUBACK":
    setattr(o, pid, p["id"])
    if ver == 5:
      o.reasonCodes = [M.ReasonCodes(M.PacketTypes.UNSUBACK, identifier=c) for c in p["codes"]]
  elif t in ("DISCONNECT", "AUTH") and ver == 5:
    o.reasonCode.value = p["rc"]
  return o


def fields(ver, o):
  "packet dictionary of an object of the code under test"
  t = TYPE[type(o).__name__]
  pid = "packetIdentifier" if ver == 5 else "messageIdentifier"
  p = {"type": t}
  if ver == 5 and t not in ("PINGREQ", "PINGRESP"):
    p["props"] = get_props(o.properties)
  if t == "CONNECT":
    p["level"] = o.ProtocolVersion
    p["clean"] = o.CleanStart if ver == 5 else o.CleanSession
    p["keepalive"], p["clientid"] = o.KeepAliveTimer, o.ClientIdentifier
    p["will"] = None
    if o.WillFlag:
      p["will"] = {"qos": o.WillQoS, "retain": bool(o.WillRETAIN), "topic": o.WillTopic, "payload": o.WillMessage}
      if ver == 5:
        p["will"]["props"] = get_props(o.WillProperties)
    p["username"] = o.username if o.usernameFlag else None
    p["password"] = o.password if o.passwordFlag else None
  elif t == "CONNACK":
    if ver == 5:
      p["sp"], p["rc"] = bool(o.sessionPresent), o.reasonCode.value
    else:
      p["sp"], p["rc"] = bool(o.flags), o.returnCode
  elif t == "PUBLISH":
    p.update(dup=o.fh.DUP, qos=o.fh.QoS, retain=o.fh.RETAIN, topic=o.topicName, payload=o.data,
             id=getattr(o, pid) if o.fh.QoS else None)
  elif t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    p["id"] = getattr(o, pid)
    if ver == 5:
      p["rc"] = o.reasonCode.value
  elif t == "SUBSCRIBE":
    p["id"] = getattr(o, pid)
    p["filters"] = [(f, x.QoS | x.noLocal << 2 | x.retainAsPublished << 3 | x.retainHandling << 4) if ver == 5 else (f, x)
                    for f, x in o.data]
  elif t == "SUBACK":
    p["id"] = getattr(o, pid)
    p["codes"] = [c.value for c in o.reasonCodes] if ver == 5 else list(o.data)
  elif t == "UNSUBSCRIBE":
    p["id"] = getattr(o, pid)
    p["filters"] = list(o.topicFilters if ver == 5 else o.data)
  elif t == "UNSUBACK":
    p["id"] = getattr(o, pid)
    if ver == 5:
      p["codes"] = [c.value for c in o.reasonCodes]
  elif t in ("DISCONNECT", "AUTH") and ver == 5:
    p["rc"] = o.reasonCode.value
  return p


def parse(ver, buf):
  return (M5 if ver == 5 else M3).unpackPacket(buf)


def differ(a, b):
  ks = sorted(set(a) | set(b))
  return ", ".join("%s: %r, should be %r" % (k, a.get(k, "absent"), b.get(k, "absent")) for k in ks if a.get(k, "absent") != b.get(k, "absent"))


def short(p):
  r = repr(p)
  return r if len(r) < 400 else r[:400] + "..."


def roundtrip(ver, p):
  """serialise with the code under test and decode with the reference; serialise with the reference
  and parse with the code under test; compare all fields.  Returns an error or None."""
  want = norm(ver, dict(p, **({"level": 5 if ver == 5 else 4} if p["type"] == "CONNECT" else {})))
  ref = wire.encode(ver, p)
  o = build(ver, p)
  raw = o.pack()
  try:
    got = norm(ver, wire.decode(ver, raw, from_server=True))
  except wire.Malformed as e:
    return "serialised form is malformed (%s): %s for %s" % (e, raw[:60].hex(), short(p))
  if got != want:
    return "serialised form of %s means something else: %s" % (p["type"], differ(got, want))
  if ver == 3 and raw != ref:
    return "serialised form is %s, should be %s" % (raw[:60].hex(), ref[:60].hex())
  for buf in {ref, raw}:
    q = parse(ver, buf)
    f = norm(ver, fields(ver, q))
    if f != want:
      return "parsing %s gives wrong fields: %s" % (buf[:60].hex(), differ(f, want))
    again = q.pack()
    if norm(ver, wire.decode(ver, again)) != want:
      return "parsing and serialising again changes %s to %s" % (buf[:60].hex(), again[:60].hex())
    if not (q == parse(ver, again)):
      return "a packet is not equal to itself after serialising and parsing: %s" % short(p)
  return None


# ---------------------------------------------------------------- bounded packet spaces

STR = ["", "a", "a/b", "\u00e9", "\u20ac/\u00e9", "\U00010348", "x" * 127, "x" * 128]
BIN = [b"", b"\x00", b"\xff\xfe", b"\xc3\xa9", b"y" * 128]
U8 = [0, 1]
U16 = [0, 1, 255, 256, 65535]
U32 = [0, 1, 255, 256, 65536, 16777216, 4294967295]
VBI = [1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]
VALS = {"byte": U8, "u16": U16, "u32": U32, "vbi": VBI, "utf": STR, "bin": BIN,
        "pair": [("", ""), ("k", "v"), ("\u00e9", ""), ("", "\u20ac"), ("k" * 128, "v")]}
IDS = [1, 2, 127, 128, 255, 256, 32768, 65535]


def allowed(where):
  return [i for i, (k, w) in sorted(wire.PROPS.items()) if where in w]


def prop_sets(where, pairs=True):
  "no property, each property with each value, all pairs of properties, repeated user properties, all at once"
  yield []
  ids = allowed(where)
  for i in ids:
    for v in VALS[wire.PROPS[i][0]]:
      yield [(i, v)]
  if pairs:
    for i in ids:
      for j in ids:
        if i < j:
          yield [(i, VALS[wire.PROPS[i][0]][1]), (j, VALS[wire.PROPS[j][0]][-1])]
  if 38 in ids:
    yield [(38, ("a", "1")), (38, ("a", "2"))]
    yield [(38, ("b", "2")), (38, ("a", "1")), (38, ("b", "2"))]
  if where == "PUBLISH":
    yield [(11, 3), (11, 200), (11, 3)]
  yield [(i, VALS[wire.PROPS[i][0]][-1]) for i in ids]


def packets(ver, wide=False):
  """the bounded packet space: per type the product of small field alphabets containing every boundary of the
  wire representation"""
  small = lambda where: [[], [(38, ("k", "v"))]] if ver == 5 else [[]]
  full = lambda where: prop_sets(where) if ver == 5 else [[]]
  # CONNECT
  wills = [None]
  for q in (0, 1, 2):
    for r in (False, True):
      wills.append({"qos": q, "retain": r, "topic": "w/\u00e9", "payload": b"bye", "props": []})
  for tpc in STR[1:]:
    wills.append({"qos": 1, "retain": False, "topic": tpc, "payload": b"", "props": []})
  for b in BIN:
    wills.append({"qos": 2, "retain": True, "topic": "w", "payload": b, "props": []})
  creds = [(None, None), ("u", None), ("u", b"p"), ("", b""), ("\u00e9\u20ac", b"\x00\xff"), ("u" * 128, b"p" * 128)]
  if ver == 5:
    creds += [(None, b"p"), (None, b"")]
  for will in wills:
    for u, pw in creds:
      for clean in (True, False):
        for ka in (0, 65535) if not wide else U16:
          for cid in ("", "c\u00e9") if not wide else STR:
            yield {"type": "CONNECT", "clean": clean, "keepalive": ka, "clientid": cid, "will": will, "username": u,
                   "password": pw, "props": []}
  for ka in U16:
    for cid in STR + ["z" * 65535]:
      yield {"type": "CONNECT", "clean": True, "keepalive": ka, "clientid": cid, "will": None, "username": None,
             "password": None, "props": []}
  if ver == 5:
    for ps in prop_sets("CONNECT"):
      for will in (None, wills[1]):
        yield {"type": "CONNECT", "clean": True, "keepalive": 1, "clientid": "c", "will": will, "username": "u",
               "password": None, "props": ps}
    for ps in prop_sets("WILL"):
      yield {"type": "CONNECT", "clean": True, "keepalive": 1, "clientid": "c", "username": None, "password": b"p",
             "will": dict(wills[1], props=ps), "props": [(17, 7)]}
  # CONNACK
  for sp in (True, False):
    for rc in sorted(wire.REASONS["CONNACK"]) if ver == 5 else range(6):
      for ps in small("CONNACK"):
        yield {"type": "CONNACK", "sp": sp, "rc": rc, "props": ps}
  if ver == 5:
    for ps in prop_sets("CONNACK"):
      yield {"type": "CONNACK", "sp": False, "rc": 0, "props": ps}
  # PUBLISH
  sizes = [b"", b"\x00", b"\xc3", b"m" * 100] + [b"m" * n for n in range(112, 132)]
  for q in (0, 1, 2):
    for d in ((False, True) if q else (False,)):
      for r in (False, True):
        for tpc in STR[1:] + ["t" * 65535]:
          for pay in BIN + sizes:
            for i in ((1, 65535) if not wide else IDS):
              if q == 0 and i != 1:
                continue
              yield {"type": "PUBLISH", "qos": q, "dup": d, "retain": r, "topic": tpc, "payload": pay,
                     "id": i if q else None, "props": []}
  for n in (16370, 16380, 16383, 16384, 16390, 2097140, 2097152, 2097160):
    for k in range(3):
      yield {"type": "PUBLISH", "qos": 1, "dup": False, "retain": False, "topic": "t" * (1 + k), "payload": b"m" * n, "id": 7, "props": []}
  if ver == 5:
    for ps in prop_sets("PUBLISH"):
      for q in (0, 1):
        yield {"type": "PUBLISH", "qos": q, "dup": False, "retain": True, "topic": "t", "payload": b"m", "id": 9 if q else None, "props": ps}
    for i in IDS:
      yield {"type": "PUBLISH", "qos": 2, "dup": True, "retain": False, "topic": "", "payload": b"m", "id": i, "props": [(35, 1)]}
  # acknowledgements
  for t in ("PUBACK", "PUBREC", "PUBREL", "PUBCOMP"):
    for i in IDS:
      for rc in sorted(wire.REASONS[t]) if ver == 5 else (0,):
        for ps in (prop_sets(t) if i in (1, 65535) and ver == 5 else small(t)):
          p = {"type": t, "id": i}
          if ver == 5:
            p.update(rc=rc, props=ps)
          yield p
  # SUBSCRIBE / SUBACK / UNSUBSCRIBE / UNSUBACK
  opts = [q | nl | rap | rh for q in (0, 1, 2) for nl in (0, 4) for rap in (0, 8) for rh in (0, 16, 32)] if ver == 5 else [0, 1, 2]
  for i in IDS:
    for f in STR[1:] + ["#", "a/+/b", "$share/g/t"]:
      for o in opts:
        yield {"type": "SUBSCRIBE", "id": i, "filters": [(f, o)], "props": []}
  for n in (2, 3):
    for o in opts:
      yield {"type": "SUBSCRIBE", "id": 5, "filters": [("f%d\u00e9" % k, o if k == n - 1 else opts[0]) for k in range(n)], "props": []}
  if ver == 5:
    for ps in prop_sets("SUBSCRIBE"):
      yield {"type": "SUBSCRIBE", "id": 3, "filters": [("a", 1), ("b/#", 2)], "props": ps}
  codes = sorted(wire.REASONS["SUBACK"]) if ver == 5 else [0, 1, 2, 128]
  for i in IDS:
    for c in codes:
      for c2 in [None] + codes:
        yield {"type": "SUBACK", "id": i, "codes": [c] if c2 is None else [c, c2], "props": []}
  if ver == 5:
    for ps in prop_sets("SUBACK"):
      yield {"type": "SUBACK", "id": 1, "codes": [1, 128, 0], "props": ps}
  for i in IDS:
    for f in STR[1:]:
      for f2 in [None] + STR[1:]:
        yield {"type": "UNSUBSCRIBE", "id": i, "filters": [f] if f2 is None else [f, f2], "props": []}
  if ver == 5:
    for ps in prop_sets("UNSUBSCRIBE"):
      yield {"type": "UNSUBSCRIBE", "id": 1, "filters": ["a", "b"], "props": ps}
    ucodes = sorted(wire.REASONS["UNSUBACK"])
    for i in IDS:
      for c in ucodes:
        for c2 in [None] + ucodes:
          yield {"type": "UNSUBACK", "id": i, "codes": [c] if c2 is None else [c, c2], "props": []}
    for ps in prop_sets("UNSUBACK"):
      yield {"type": "UNSUBACK", "id": 1, "codes": [0], "props": ps}
    for t in ("DISCONNECT", "AUTH"):
      for rc in sorted(wire.REASONS[t]):
        for ps in prop_sets(t):
          yield {"type": t, "rc": rc, "props": ps}
  else:
    for i in IDS:
      yield {"type": "UNSUBACK", "id": i}
    yield {"type": "DISCONNECT"}
  yield {"type": "PINGREQ"}
  yield {"type": "PINGRESP"}
