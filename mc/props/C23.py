"""WebSocket clients get the same service as TCP clients."""
import itertools
from mc import enumr, wire, env
from mc.conn import *
from mc.props.C24 import cut, complete, segs, pk
BOUNDS = {"quick": "sessions of both versions: every division of the byte stream into up to 3 frames (separate or fragmented messages) x 3 TCP segmentations, every single TCP cut of the handshake and the frames, ping/pong/empty frames between any two frames, every frame length size, every kind of bad frame at every place, close/end/reset after every byte, short and failing sends, keep alive; plain and TLS-like",
          "thorough": "up to 4 frames, every pair of TCP cuts"}
PRE = observer()


def check(c, obs=OBS):
  ver, tls, script, ref, closed, opts = c
  r = Run(obs, dict(o for o in opts if isinstance(o, tuple)), tls, PRE)
  r.go(script)
  env.Env.active = False
  d = direct(ver, ref, obs, dict(o for o in opts if isinstance(o, tuple)), PRE)
  env.Env.active = False
  err = verdict(r, d, ws=True, closed=closed)
  for o in opts:
    if isinstance(o, str) and err is None:
      err = extra(r, o)
  return "%s %d" % ("closed" if r.conn.closed_early else "open", len(d[0]) // 16 * 16), err, len(script)


def extra(r, what):
  frames, rest = unframe(unhandshake(r.conn.out))
  if what.startswith("pong "):
    want = bytes.fromhex(what[5:])
    if [d for o, d in frames if o == 10] != [want]:
      return "a ping with %r was answered with %r" % (want, [d for o, d in frames if o == 10])
  elif what == "close":
    if [o for o, d in frames].count(8) != 1 or frames[-1][0] != 8:
      return "a close frame was not answered with a close frame: %r" % frames
  return None


def framed(parts, fragmented):
  "bytes of frames carrying the parts"
  if not fragmented:
    return [frame(p) for p in parts]
  return [frame(p, 2 if i == 0 else 0, i == len(parts) - 1) for i, p in enumerate(parts)]


def frame_cases(thorough):
  for ver in (3, 5):
    pkts = session(ver)
    buf = b"".join(pkts)
    ref = pk(pkts)
    for k in range(4 if thorough else 3):
      for cuts in itertools.combinations(range(1, len(buf)), k):
        for frag in (False, True):
          fr = framed(cut(buf, cuts), frag)
          for tcp in (0, 1, 2):
            data = [b"".join(fr)] if tcp == 0 else fr if tcp == 1 else cut(b"".join(fr), range(1, len(b"".join(fr))))
            if tcp == 2 and k == 2 and not thorough and cuts[0] % 4:
              continue
            yield ver, bool(sum(cuts) % 2), segs([HANDSHAKE] + data), ref, None, ()
    # one frame per packet, one frame per byte
    for fr in (framed(pkts, False), framed(pkts, True), framed(cut(buf, range(1, len(buf))), False), framed(cut(buf, range(1, len(buf))), True)):
      s = b"".join(fr)
      for tls in (False, True):
        yield ver, tls, segs([HANDSHAKE, s]), ref, None, ()
        yield ver, tls, segs([HANDSHAKE] + cut(s, range(1, len(s)))), ref, None, ()
        yield ver, tls, segs([HANDSHAKE] + fr), ref, None, ()
        yield ver, tls, segs([HANDSHAKE + s]), ref, None, ()
    s = b"".join(framed(pkts, False))
    for tls in (False, True):
      for i in range(1, len(s)):
        yield ver, tls, segs([HANDSHAKE] + cut(s, (i,))), ref, None, ()
        for j in range(i + 1, len(s)) if thorough else ():
          yield ver, tls, segs([HANDSHAKE] + cut(s, (i, j))), ref, None, ()
    # masks
    for mask in (b"\0\0\0\0", b"\xff\xff\xff\xff", b"\x10\0\0\0", b"GET ", b"\x01\x02\x03\x04"):
      yield ver, False, segs([HANDSHAKE] + [frame(p, mask=mask) for p in pkts]), ref, None, ()
    # the handshake
    for i in range(1, len(HANDSHAKE)):
      yield ver, bool(i % 2), segs(cut(HANDSHAKE, (i,)) + [s]), ref, None, ()
    yield ver, False, segs(cut(HANDSHAKE, range(1, len(HANDSHAKE))) + [s]), ref, None, ()
    yield ver, False, segs([HANDSHAKE.replace(b": ", b":")] + [s]), ref, None, ()
    yield ver, False, segs([HANDSHAKE.replace(b": ", b":  \t")] + [s]), ref, None, ()
    yield ver, False, segs([HANDSHAKE.replace(b"Sec-WebSocket-", b"sec-websocket-")] + [s]), ref, None, ()
    yield ver, False, segs([HANDSHAKE.replace(b"Sec-WebSocket-", b"SEC-WEBSOCKET-")] + [s]), ref, None, ()
    for n in (500, 900, 1000, 1024, 2000, 5000):
      big = HANDSHAKE.replace(b"Upgrade: web", b"Cookie: " + b"c" * n + b"\r\nUpgrade: web")
      yield ver, False, segs([big, s]), ref, None, ()
      yield ver, False, segs([big + s]), ref, None, ()
      for i in (1023, 1024, 1025):
        yield ver, False, segs(cut(big, (i,)) + [s]), ref, None, ()


def size_cases(thorough):
  "payload sizes around every boundary of the frame and packet length encodings, both directions"
  for ver in (3, 5):
    for n in (0, 100, 115, 116, 117, 118, 119, 120, 121, 122, 125, 126, 127, 128, 129, 130, 65500, 65517, 65518, 65519, 65520, 65521, 65522, 65523, 65524, 65525, 65526, 65527, 65528, 65535, 65536, 66000, 70000) + ((200000, 2097100) if thorough else ()):
      pkts = session(ver, payload=b"P" * n)
      ref = pk(pkts)
      fr = framed(pkts, False)
      o = (("maximumPacketSize", 2 ** 28 - 1),)
      yield ver, False, segs([HANDSHAKE] + fr), ref, None, o
      yield ver, True, segs([HANDSHAKE] + fr), ref, None, o
      yield ver, False, segs([HANDSHAKE, frame(b"".join(pkts))]), ref, None, o
      yield ver, True, segs([HANDSHAKE, frame(b"".join(pkts))]), ref, None, o
      s = b"".join(fr)
      if len(s) < 1000 or thorough:
        at = len(fr[0]) + len(fr[1])
        for i in range(at, min(len(s), at + 12)):
          yield ver, False, segs([HANDSHAKE] + cut(s, (i,))), ref, None, o


def control_cases(thorough):
  for ver in (3, 5):
    pkts = session(ver)
    buf = b"".join(pkts)
    for tls in (False, True):
      for place in range(len(pkts) + 1):
        for data in (b"", b"hi", b"x" * 125):
          for op, opt in ((9, ("pong " + data.hex(),)), (10, ()), (2, ()) if not data else (10, ())):
            c = frame(data, op)
            fr = framed(pkts, False)
            lists = [fr[:place] + [c] + fr[place:], [b"".join(fr[:place] + [c] + fr[place:])], [b"".join(fr[:place])] + cut(c, range(1, 7)) + [b"".join(fr[place:])]]
            for l in lists:
              yield ver, tls, segs([HANDSHAKE] + [x for x in l if x]), pk(pkts), None, opt
      # between the fragments of a message, also inside of a packet
      for i in range(1, len(buf), 1 if thorough else 2):
        parts = cut(buf, (i,))
        for c, opt in ((frame(b"z", 9), ("pong 7a",)), (frame(b"", 10), ())):
          for l in ([frame(parts[0], 2, False), c, frame(parts[1], 0, True)], [frame(parts[0]), c, frame(parts[1])]):
            yield ver, tls, segs([HANDSHAKE] + l), pk(pkts), None, opt
            yield ver, tls, segs([HANDSHAKE, b"".join(l)]), pk(pkts), None, opt
    # pings do not count for the keep alive
    pkts = session(ver, keepalive=4)
    fr = framed(pkts, False)
    for n in (1, 2, 3, 5, 8):
      for t in (0.9, 1.6, 3.1):
        ev = []
        for i in range(n):
          ev += [("tick", t), ("seg", frame(b"", 9))]
        ref = pk(pkts) + [("tick", t)] * n
        yield ver, False, segs([HANDSHAKE] + fr) + ev + [("tick", 0.05)], ref + [("tick", 0.05)], None, ()
    # pings which never let the wait for data time out
    for n in (1, 3, 7, 13, 16):
      for t in (0.5, 0.9):
        for op in (9, 10):
          for tls in (False, True):
            ev = [("pass", t), ("seg", frame(b"", op))] * n
            yield ver, tls, segs([HANDSHAKE] + fr) + ev, pk(pkts) + [("tick", t)] * n, None, ()


def bad_cases(thorough):
  bads = [frame(b"\xc0\x00", masked=False), frame(b"\xc0\x00", 1), frame(b"", 1)] + [frame(b"", o) for o in (3, 4, 7, 11, 15)] + [frame(b"xy", o) for o in (3, 7, 11, 15)]
  for ver in (3, 5):
    pkts = session(ver)
    fr = framed(pkts, False)
    for place in range(len(pkts) + 1):
      for bad in bads:
        for after in ([], fr[place:]):
          for one in (False, True):
            l = [HANDSHAKE] + fr[:place] + [bad] + after
            yield ver, False, segs([HANDSHAKE, b"".join(l[1:])] if one else l) + [("tick", 1)], pk(pkts[:place]) + [("eof",), ("tick", 1)], True, ()
      for code in (b"", b"\x03\xe8", b"\x03\xe8bye"):
        for after in ([], fr[place:]):
          yield ver, False, segs([HANDSHAKE] + fr[:place] + [frame(code, 8)] + after) + [("tick", 1)], pk(pkts[:place]) + [("eof",), ("tick", 1)], True, ("close",)
    # the connection ends or stalls after every byte
    s = b"".join(fr)
    lens = list(itertools.accumulate(len(f) for f in fr))
    for tls in (False, True):
      for n in range(len(s)):
        done = pkts[:sum(1 for l in lens if l <= n)]
        for parts in ([s[:n]], cut(s[:n], range(1, n))):
          parts = [p for p in parts if p]
          for e in ("eof", "rst"):
            yield ver, tls, segs([HANDSHAKE] + parts) + [(e,)], pk(done) + [("eof",)], True, ()
          if n and n not in lens:
            yield ver, tls, segs([HANDSHAKE] + parts) + [("tick", 200)], pk(done) + [("eof",), ("tick", 200)], True, ()
  yield 5, False, [("seg", HANDSHAKE), ("eof",)], [], True, ()
  # frames which carry what is not MQTT
  for data in (b"\x00\x00", b"GET / HTTP", b"\xff" * 20, b"\x10\x00", b"\x10\x0c\x00\x04MQTT\x07\x02\x00\x3c\x00\x00"):
    yield 5, False, [("seg", HANDSHAKE), ("seg", frame(data)), ("eof",)], [], True, ()


def handshake_cases(thorough):
  "an incomplete or wrong handshake never leads to a session or an endless loop"
  for n in range(1, len(HANDSHAKE)):
    for e in ("eof", "rst"):
      for whole in (True, False):
        yield HANDSHAKE[:n], e, whole
  for h in (HANDSHAKE.replace(b"Sec-WebSocket-Key", b"Sec-X"), b"GET / HTTP/1.1\r\n\r\n", b"GET / HTTP/1.1\r\nHost: x\xff\r\n\r\n", b"G" * 70000, b"G\r\n\r\n", b"GET / HTTP/1.1\r\n: \r\n\r\n"):
    yield h, "eof", True
    yield h, "rst", True


def handshake_case(c):
  data, e, whole = c
  pk5 = session(5)
  r = Run(OBS, {}, False, PRE)
  r.go(segs([data] if whole else cut(data, range(1, len(data)))) + [(e,)])
  env.Env.active = False
  if r.stuck or r.blocked:
    return "", "the listener is stuck in the handshake", 1
  if not r.conn.closed_early:
    return "", "the connection is still open", 1
  if r.conn.out.startswith(b"HTTP/1.1 101"):
    return "", "an incomplete handshake was accepted", 1
  return e, None, 1


def send_cases(thorough):
  for ver in (3, 5):
    pkts = session(ver)
    r = Run(OBS, {}, False, PRE)
    r.go(segs([HANDSHAKE] + framed(pkts, False)))
    env.Env.active = False
    total = len(r.conn.out)
    for tls in (False, True):
      for k in range(1, total + 1):
        yield ver, tls, "room", k
      for k in range(total):
        for room in (None, 1, 3):
          yield ver, tls, "full", (k, room)


def send_case(c):
  ver, tls, kind, k = c
  pkts = session(ver)
  fr = framed(pkts, False)
  if kind == "room":
    return check((ver, tls, [("room", k)] + segs([HANDSHAKE] + fr), pk(pkts), None, ()))
  want = Run(OBS, {}, tls, PRE)
  want.go(segs([HANDSHAKE] + fr))
  env.Env.active = False
  n, room = k
  r = Run(OBS, {}, tls, PRE)
  r.go([("full", n), ("room", room)] + segs([HANDSHAKE] + fr) + [("tick", 1), ("tick", 1)])
  env.Env.active = False
  out = r.conn.out
  if r.stuck or r.blocked:
    return "", "the listener is stuck", 1
  if not want.conn.out.startswith(out) or r.conn.after_failure:
    return "", "after a send which failed more was sent", 1
  return "closed" if r.conn.closed_early else "open", None, len(pkts)


PARTS = {"framing": (frame_cases, check), "sizes": (size_cases, check), "control frames": (control_cases, check),
         "bad frames, end, stall": (bad_cases, check), "handshake": (handshake_cases, handshake_case), "partial sends": (send_cases, send_case)}


def run(ctx):
  for name, (cases, fn) in PARTS.items():
    enumr.enumerate_all(ctx, name, cases(not ctx.quick), fn, chunk=40)


def replay(what):
  o, e, n = PARTS[what["part"]][1](what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
