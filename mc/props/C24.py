"""Every connection is dispatched by its version and cleaned up when it ends."""
import itertools
from mc import enumr, wire, env
from mc.conn import *
BOUNDS = {"quick": "sessions of both versions on plain and TLS-like connections: every 1 and 2 cuts, byte by byte, all packets at once; end, reset and stall after every byte; every first byte; protocol names and levels; every length field size of CONNECT; sends of 1..n bytes, failing sends at every byte; keep alive ticks; take-over",
          "thorough": "also 3 cuts, and cuts combined with every place where the stream ends"}


def cut(buf, cuts):
  c = [0] + list(cuts) + [len(buf)]
  return [buf[a:b] for a, b in zip(c, c[1:]) if b > a]


def complete(pkts, n):
  "the packets completely inside of the first n bytes"
  res = []
  for p in pkts:
    if n < len(p):
      break
    n -= len(p)
    res.append(p)
  return res


def segs(parts):
  return [("seg", p) for p in parts]


def pk(pkts):
  return [("pkt", p) for p in pkts]


def run_case(c):
  ver, tls, script, ref, closed, pre, opts = c
  r = Run(OBS, dict(opts), tls, pre)
  r.go(script)
  env.Env.active = False
  d = direct(ver, ref, OBS, dict(opts), pre)
  env.Env.active = False
  err = verdict(r, d, closed=closed)
  return "%s, %d bytes, %s" % (script[-1][0] if script else "", len(d[0]) // 16 * 16, "closed" if r.conn.closed_early else "open"), err, len(script)


def split_cases(thorough):
  pre = observer()
  for ver in (3, 5):
    for end in ([], ["disconnect"], ["eof"]):
      pkts = session(ver)
      if end == ["disconnect"]:
        pkts.append(wire.encode(ver, {"type": "DISCONNECT"}))
      buf = b"".join(pkts)
      tail = [("eof",)] if end == ["eof"] else []
      ref = pk(pkts) + tail
      n = 3 if thorough and end == [] else 2 if thorough or end == [] else 1
      for tls in (False, True):
        for k in range(n + 1):
          for cuts in itertools.combinations(range(1, len(buf)), k):
            yield ver, tls, segs(cut(buf, cuts)) + tail, ref, None, pre, ()
        yield ver, tls, segs(cut(buf, range(1, len(buf)))) + tail, ref, None, pre, ()
        yield ver, tls, segs(pkts) + tail, ref, None, pre, ()


def end_cases(thorough):
  "the connection ends or stalls after every byte"
  pre = observer()
  for ver in (3, 5):
    pkts = session(ver)
    buf = b"".join(pkts)
    ends = set(itertools.accumulate(len(p) for p in pkts))
    for tls in (False, True):
      for n in range(len(buf)):
        done = complete(pkts, n)
        for parts in ([buf[:n]], cut(buf[:n], range(1, n)), cut(buf[:n], sorted(x for x in ends if x < n))) + tuple(cut(buf[:n], (k,)) for k in range(1, n) if thorough):
          parts = [p for p in parts if p]
          for e in ("eof", "rst"):
            # bytes which arrived before a reset may be lost with it; here they are not
            yield ver, tls, segs(parts) + [(e,)], pk(done) + [("eof",)], True, pre, ()
          if n in ends or n == 0:
            yield ver, tls, segs(parts) + [("tick", 20)], pk(done) + [("tick", 20)], False, pre, ()
          elif n > len(pkts[0]):
            # a packet which does not go on for a long time: the client is disconnected
            yield ver, tls, segs(parts) + [("tick", 200)], pk(done) + [("eof",), ("tick", 200)], True, pre, ()
    # nothing at all is no session
    for e in ("eof", "rst"):
      yield ver, False, [(e,)], [], True, pre, ()


def dispatch_cases(thorough):
  pre = observer()
  e5 = wire.encode(5, {"type": "CONNECT", "clientid": "x"})
  e3 = wire.encode(3, {"type": "CONNECT", "clientid": "x"})
  for b in range(256):
    if b not in (0x10, 0x47):
      for rest in (b"", b"\x00", e5[1:], b"\x10\x00\x04MQTT\x05"):
        yield 5, False, [("seg", bytes([b]) + rest)], [], True, pre, ()
        yield 5, False, [("seg", bytes([b])), ("eof",)], [], True, pre, ()
  ping = [("seg", b"\xc0\x00")]
  for lvl in range(256):
    if lvl not in (4, 5):
      for name in (b"MQTT",):
        yield 5, False, [("seg", b"\x10\x0c\x00\x04" + name + bytes([lvl]) + b"\x02\x00\x3c\x00\x00")] + ping, [], True, pre, ("unknown level",)
  for name in (b"MQIsdp", b"mqtt", b"MQTTX", b"", b"MQT", b"XQTT", b"GETX"):
    body = len(name).to_bytes(2, "big") + name + b"\x04\x02\x00\x3c\x00\x01x"
    for parts in ([b"\x10" + wire.vbi(len(body)) + body], cut(b"\x10" + wire.vbi(len(body)) + body, range(1, 10))):
      yield 3, False, segs(parts) + ping, [], True, pre, ("unknown level",)
  # every size of the length field
  for ver in (3, 5):
    for n in (127, 128, 16383, 16384, 2097151, 2097152):
      p = {"type": "CONNECT", "clientid": "x", "keepalive": 60}
      base = wire.encode(ver, dict(p, username="u", password=b""))
      body = len(base) - 2
      if n - body > 65535:
        if ver == 3:
          continue
        p["props"] = [(38, ("k" * 60000, "v" * 60000))] * ((n - body) // 120005 + 1)
        fill = 0
        for i in range(6):
          q = dict(p, props=p["props"][:-1] + [(38, ("k" * max(0, fill), "v"))])
          l = len(wire.encode(ver, dict(q, username="u", password=b"")))
          hdr = len(wire.vbi(n)) + 1
          fill += n + hdr - l
        buf = wire.encode(ver, dict(q, username="u", password=b""))
      else:
        pad = n - body
        buf = wire.encode(ver, dict(p, username="u", password=b"z" * pad))
      if len(buf) != 1 + len(wire.vbi(n)) + n:
        continue
      for parts in ([buf], cut(buf, range(1, 14)), cut(buf, (2,)), cut(buf, (1 + len(wire.vbi(n)),))):
        yield ver, False, segs(parts) + ping, pk([buf, b"\xc0\x00"]), None, pre, (("maximumPacketSize", 2 ** 28 - 1),)


def dispatch(c):
  ver, tls, script, ref, closed, pre, opts = c
  unknown = "unknown level" in opts
  r = Run(OBS, dict(o for o in opts if isinstance(o, tuple)), tls, pre)
  r.go(script)
  env.Env.active = False
  d = direct(ver, ref, OBS, dict(o for o in opts if isinstance(o, tuple)), pre)
  env.Env.active = False
  if unknown and not r.stuck and r.conn.out:
    # a CONNACK which refuses the protocol version is allowed as well
    if r.conn.out in (b"\x20\x02\x00\x01", b"\x20\x03\x00\x84\x00", b"\x20\x02\x00\x84"):
      r.conn.out = b""
  err = verdict(r, d, closed=closed)
  return "%s" % ("closed" if r.conn.closed_early else "open"), err, len(script)


def send_cases(thorough):
  pre = observer()
  for ver in (3, 5):
    pkts = session(ver)
    total = len(direct(ver, pk(pkts), OBS, {}, pre)[0])
    env.Env.active = False
    for tls in (False, True):
      for k in range(1, total + 1):
        yield ver, tls, "room", k
      for k in range(0, total):
        for room in (None, 1, 2, 3):
          yield ver, tls, "full", (k, room)


def send_case(c):
  ver, tls, kind, k = c
  pre = observer()
  pkts = session(ver)
  want = direct(ver, pk(pkts), OBS, {}, pre)
  env.Env.active = False
  r = Run(OBS, {}, tls, pre)
  if kind == "room":
    r.go([("room", k)] + segs(pkts))
    env.Env.active = False
    return "complete", verdict(r, want), len(pkts)
  n, room = k
  r.go([("full", n), ("room", room)] + segs(pkts) + [("tick", 1), ("tick", 1)])
  env.Env.active = False
  if r.stuck or r.blocked:
    return "", "the listener is stuck", 1
  out = r.conn.out
  if not want[0].startswith(out):
    return "", "after a send which failed more was sent: %r instead of a beginning of %r" % (out, want[0]), 1
  if r.conn.after_failure:
    return "", "after a send which failed more was sent", 1
  cutoff = [0]
  buf = want[0]
  while buf:
    m = wire.split(buf)
    cutoff.append(cutoff[-1] + m)
    buf = buf[m:]
  if len(out) not in cutoff and not r.conn.closed_early:
    return "", "part of a packet was sent and the connection is still open", 1
  return "%s %s" % ("boundary" if len(out) in cutoff else "inside", "closed" if r.conn.closed_early else "open"), None, len(pkts)


def time_cases(thorough):
  "keep alive as the listener sees it; other clients in between; take-over"
  pre = observer()
  ping5 = b"\xc0\x00"
  for ver in (3, 5):
    for ka in (0, 4):
      pkts = session(ver, keepalive=ka)
      for tls in (False, True):
        for ticks in itertools.product((1.3, 3.1, 5.9, 6.1), repeat=3 if thorough else 2):
          for place in range(1, len(pkts) + 1):
            a, b = pkts[:place], pkts[place:]
            t = [("tick", x) for x in ticks]
            yield ver, tls, segs(a) + t + segs(b), pk(a) + t + pk(b), None, pre, ()
            yield ver, tls, segs(a) + t[:1] + segs(b) + t[1:], pk(a) + t[:1] + pk(b) + t[1:], None, pre, ()
  pub = wire.encode(5, {"type": "PUBLISH", "topic": "a", "qos": 1, "payload": b"other", "id": 3, "retain": False, "dup": False})
  for ver in (3, 5):
    pkts = session(ver)
    over = wire.encode(5, {"type": "CONNECT", "clientid": "x"})
    for place in range(len(pkts) + 1):
      for what in (pub, b"\xe0\x00", over):
        if what == over:
          continue
        for n in (1, 2):
          ev = [("do", "o", what)] * (n if what == pub else 1)
          yield ver, False, segs(pkts[:place]) + ev + segs(pkts[place:]), pk(pkts[:place]) + ev + pk(pkts[place:]), None, pre, ()
  # another connection takes over the client identifier
  for place in range(1, 6):
    pkts = session(5)
    t = [("do", "n", wire.encode(5, {"type": "CONNECT", "clientid": "x"}))]
    for tail in ([], [("eof",)], [("tick", 5)]):
      yield 5, False, segs(pkts[:place]) + t + segs(pkts[place:]) + tail, pk(pkts[:place]) + t + tail, True, pre, ("takeover",)


def time_case(c):
  ver, tls, script, ref, closed, pre, opts = c
  obs = OBS + (("n", 5),) if "takeover" in opts else OBS
  r = Run(obs, {}, tls, pre)
  r.go(script)
  env.Env.active = False
  d = direct(ver, ref, obs, {}, pre)
  env.Env.active = False
  return "%s %d" % ("closed" if r.conn.closed_early else "open", len(d[0])), verdict(r, d, closed=closed), len(script)


PARTS = {"segmentation": (split_cases, run_case), "end, reset, stall": (end_cases, run_case), "dispatch": (dispatch_cases, dispatch),
         "partial sends": (send_cases, send_case), "time and other clients": (time_cases, time_case)}


def run(ctx):
  for name, (cases, fn) in PARTS.items():
    enumr.enumerate_all(ctx, name, cases(not ctx.quick), fn, chunk=40)


def replay(what):
  o, e, n = PARTS[what["part"]][1](what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
