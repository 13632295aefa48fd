"""The server is what its configuration file and command line say.

The whole start of the server (mqtt.brokers.start) runs for every configuration of the enumerated set: the listeners are really
created, except that their sockets are not bound, and asked through their handlers; TLS listeners do handshakes in memory."""
import itertools, os, tempfile, shutil
from mc import enumr, wire, env
from mc.site import Site, DATA, CLIENTS
BOUNDS = {"quick": "all sequences of up to 2 of 21 global lines with 4 listener sections; all sequences of up to 3 of 11 listener sections; all arrangements of up to 3 of 11 lines in a TLS section, alone and followed by 2 other sections; 5 kinds of TLS clients; 12 command lines",
          "thorough": "up to 3 global lines, up to 4 listener sections, up to 4 lines in a TLS section"}

DEF = {"rm": 2, "ta": 2, "mps": 256, "ka": 60}
GLOBALS = [("receive_maximum 1", {"rm": 1}), ("receive_maximum 20", {"rm": 20}), ("receive_maximum 65535", {"rm": 65535}),
           ("topic_alias_maximum 0", {"ta": 0}), ("topic_alias_maximum 5", {"ta": 5}),
           ("maximum_packet_size 100", {"mps": 100}), ("message_size_limit 200000000", {"mps": 200000000}), ("message_size_limit 300", {"mps": 300}),
           ("server_keep_alive 10", {"ka": 10}), ("server_keep_alive 200", {"ka": 200}),
           ("loglevel debug", {}), ("loglevel", {}), ("# receive_maximum 7", {}), ("", {}), ("   ", {}), ("  receive_maximum\t3  ", {"rm": 3}), ("#", {}),
           ("allow_anonymous true", {}), ("log_type error", {}), ("persistence false", {}), ("maximum_qos 2", {})]


def D(n):
  return os.path.join(DATA, n)


# (lines, kind, address, TLS options or None)
SECTIONS = [(["listener"], "mqtt", ("", 1883), None),
            (["listener 1884"], "mqtt", ("", 1884), None),
            (["  listener 1885 127.0.0.1", "# certfile x", "", "unknown option"], "mqtt", ("127.0.0.1", 1885), None),
            (["listener 1886 INADDR_ANY mqttsn"], "mqttsn", ("", 1886), None),
            (["listener 1887 INADDR_ANY http"], "http", ("", 1887), None),
            (["listener 1888 localhost mqtt"], "mqtt", ("localhost", 1888), None),
            (["listener 1889", "cafile " + D("ca1.crt"), "certfile " + D("server1.crt"), "keyfile " + D("server1.key"), "require_certificate false"], "mqtt", ("", 1889),
             {"ca": 1, "cert": 1, "req": False, "sni": False}),
            (["listener 1890 127.0.0.1", "certfile " + D("server2.crt"), "  keyfile " + D("server2.key"), "# require_certificate false", "cafile " + D("ca2.crt"), "allow_non_sni_connections false"], "mqtt", ("127.0.0.1", 1890),
             {"ca": 2, "cert": 2, "req": True, "sni": True}),
            (["listener 1891 INADDR_ANY http", "certfile " + D("server2.crt"), "keyfile " + D("server2.key"), "cafile " + D("ca1.crt")], "http", ("", 1891),
             {"ca": 1, "cert": 2, "req": True, "sni": False}),
            (["listener 1893", "require_certificate false", "certfile " + D("server1.pem")], "mqtt", ("", 1893), {"cert": 1, "req": False, "sni": False}),
            (["listener 1892", "certfile " + D("server1.crt"), "keyfile " + D("server1.key"), "require_certificate false"], "mqtt", ("", 1892),
             {"cert": 1, "req": False, "sni": False})]
TLSLINES = [(("cafile " + D("ca1.crt"),), {"ca": 1}), (("cafile " + D("ca2.crt"),), {"ca": 2}),
            (("certfile " + D("server1.crt"), "keyfile " + D("server1.key")), {"cert": 1}),
            (("  keyfile " + D("server2.key"), "certfile " + D("server2.crt")), {"cert": 2}),
            (("require_certificate false",), {"req": False}), (("require_certificate true",), {}),
            (("allow_non_sni_connections false",), {"sni": True}), (("allow_non_sni_connections true",), {}),
            (("# require_certificate false",), {}), (("",), {}), (("ciphers X", "use_identity_as_username false"), {})]


def handshakes(t):
  res = []
  for cert, sni in CLIENTS:
    ok = t.get("cert") is not None
    if t.get("sni") and not sni:
      ok = False
    if cert is None:
      ok = ok and not t.get("req", True)
    else:
      ok = ok and t.get("ca") == (1 if cert == "client1" else 2)
    res.append("server%d" % t["cert"] if ok else None)
  return tuple(res)


def connect(ver, cid, ka=100):
  return wire.encode(ver, {"type": "CONNECT", "clientid": cid, "clean": True, "keepalive": ka, "will": None, "props": []})


def limits(connack):
  p = dict(connack["props"])
  return {"rm": p.get(33, 65535), "ta": p.get(34, 0), "mps": p.get(39), "ka": p.get(19, 100)}


def packets(ver, out):
  res = []
  while out:
    n = wire.split(out)
    if n is None:
      return res + ["incomplete"]
    res.append(wire.decode(ver, out[:n], from_server=True))
    out = out[n:]
  return res


def probe(site):
  "what the listeners do while the server runs"
  res = []
  for i, s in enumerate(site.servers):
    k = site.kind(s)
    ra = getattr(s, "allow_reuse_address", False)
    if k == "mqtt":
      out = packets(5, site.tcp(s, [("seg", connect(5, "v5")), ("seg", wire.encode(5, {"type": "SUBSCRIBE", "id": 1, "filters": [("#", 1)], "props": []}))]))
      lim = limits(out[0]) if out and out[0]["type"] == "CONNACK" and out[0].get("rc") == 0 else repr(out)
      got = [p["payload"] for p in out if p["type"] == "PUBLISH"]
      v3 = packets(3, site.tcp(s, [("seg", connect(3, "v3")),
                                   ("seg", wire.encode(3, {"type": "PUBLISH", "topic": "t%d" % i, "payload": b"%d" % i, "qos": 1, "id": 1, "retain": True, "dup": False})), ("seg", b"\xe0\x00")]))
      res.append((k, lim, got, [p["type"] for p in v3], ra))
    elif k == "http":
      out = site.http(s, b"GET /api/v0001/retained HTTP/1.0\r\n\r\n")
      head, _, body = out.partition(b"\r\n\r\n")
      import json
      res.append((k, head.split()[1:2], sorted(json.loads(body)) if body else None))
    else:
      res.append((k,))
  return res


def check(how, listeners, opts):
  "listeners: [(kind, address, tls)]"
  s = Site(how, probe)
  n = len(listeners)
  got = [(s.kind(x), x.server_address) for x in s.servers]
  want = [(k, a) for k, a, t in listeners]
  label = "%s%s" % (",".join(k + ("+tls" if t is not None else "") for k, a, t in listeners), "" if how[0] == "run" else " main")
  if got != want:
    return label, "listeners %r are created instead of %r" % (got, want), n
  if s.fore is None:
    return label, "the server does not run", n
  if isinstance(s.result, tuple) and s.result[0] == "exception":
    return label, s.result[1], n
  if s.fore is not s.servers[-1] or len(s.back) != n - 1 or set(map(id, s.back)) != set(map(id, s.servers[:-1])):
    return label, "served are %s" % [("serve", s.servers.index(s.fore))] + [s.servers.index(x) for x in s.back], n
  for x in s.servers:
    ev = [e for e, y in s.log if y is x]
    if "bind" not in ev or (s.kind(x) != "mqttsn" and "activate" not in ev):
      return label, "listener %r is not bound and activated" % (x.server_address,), n
    if "shutdown" not in ev:
      return label, "listener %r is not stopped when the server ends" % (x.server_address,), n
  for x, (k, a, t) in zip(s.servers, listeners):
    h = s.tls(x)
    w = handshakes(t) if t is not None else None
    if h != w:
      return label, "TLS handshakes with %r of clients %r: %r instead of %r" % (a, CLIENTS, h, w), n
  lim = dict(DEF)
  lim.update(opts)
  lim["ka"] = min(100, lim["ka"])   # only a lower one than the client asks for is used
  seen = []
  ret = []
  for i, ((k, a, t), r) in enumerate(zip(listeners, s.result)):
    if k == "mqtt":
      w = (k, lim, sorted(ret), ["CONNACK", "PUBACK"], True)
      r = (r[0], r[1], sorted(r[2]) if isinstance(r[2], list) else r[2]) + r[3:]
      if opts.get("mps", 1000) < 30:
        continue
      ret.append(b"%d" % i)
    elif k == "http":
      w = (k, [b"200"], sorted("t" + p.decode() for p in ret))
    else:
      w = (k,)
    if r != w:
      return label, "listener %d behaves as %r instead of %r" % (i, r, w), n
  return label + " " + repr(sorted(opts.items())), None, n


def lines(seq):
  return [l + "\n" for l in seq]


def case_globals(c):
  gs, sec = c
  opts = {}
  for g in gs:
    opts.update(GLOBALS[g][1])
  ls = [SECTIONS[i] for i in sec] or [([], "mqtt", ("", 1883), None)]
  return check(("run", lines([GLOBALS[g][0] for g in gs] + [l for s in ls for l in s[0]])), [(s[1], s[2], s[3]) for s in ls], opts)


def case_tls(c):
  body, kind, after = c
  t = {}
  text = ["listener 2000" + {"mqtt": "", "http": " INADDR_ANY http"}[kind]]
  tls = False
  for i in body:
    text += TLSLINES[i][0]
    t.update(TLSLINES[i][1])
    if i in (5, 7):    # no change to the default
      pass
  tls = "ca" in t or "cert" in t
  ls = [(text, kind, ("", 2000), t if tls else None)] + [SECTIONS[i] for i in after]
  return check(("run", lines([l for s in ls for l in s[0]])), [(s[1], s[2], s[3]) for s in ls], {})


def case_main(c):
  args, cfg, listeners, opts = c
  d = tempfile.mkdtemp(prefix="vmc.")
  try:
    f = os.path.join(d, "b.conf")
    with open(f, "w") as o:
      o.write(cfg)
    return check(("main", [a.replace("@", f) for a in args]), listeners, dict(opts))
  finally:
    shutil.rmtree(d)


def seqs(n, k):
  for i in range(k + 1):
    yield from itertools.product(range(n), repeat=i)


def global_cases(thorough):
  for gs in seqs(len(GLOBALS), 3 if thorough else 2):
    for sec in ((), (0,), (1, 2), (7,)) if len(gs) < 3 else ((1,),):
      yield gs, sec


def listener_cases(thorough):
  for sec in seqs(len(SECTIONS), 4 if thorough else 3):
    if sec:
      yield (0, 4), sec


def tls_cases(thorough):
  n = len(TLSLINES)
  for k in range(1, 5 if thorough else 4):
    for body in itertools.permutations(range(n), k):
      if (4 in body and 5 in body and body.index(5) > body.index(4)) or (6 in body and 7 in body and body.index(7) > body.index(6)):
        continue    # contradictory lines
      for kind in ("mqtt", "http"):
        if kind == "http" and (6 in body or k > 2):
          continue
        for after in ((), (1,), (7, 9)) if k < 4 else ((1,),):
          yield body, kind, after


def main_cases(thorough):
  plain = (("mqtt", ("", 1883), None),)
  yield (), "", plain, ()
  for a in (("-p", "1999"), ("--port=1999",), ("--port", "1999")):
    yield a, "", (("mqtt", ("", 1999), None),), ()
  text = "receive_maximum 9\nlistener 1884\nlistener 1885 INADDR_ANY http\n"
  ls = (("mqtt", ("", 1884), None), ("http", ("", 1885), None))
  for a in (("-c", "@"), ("-c@",), ("--config-file=@",), ("--config-file", "@")):
    yield a, text, ls, (("rm", 9),)
    yield a, text[:-1], ls, (("rm", 9),)
    yield a, text.replace("\n", "\r\n"), ls, (("rm", 9),)
    yield a, "topic_alias_maximum 7", plain, (("ta", 7),)
    yield a, "", plain, ()


PARTS = {"global options": (case_globals, global_cases), "listeners": (case_globals, listener_cases), "TLS listeners": (case_tls, tls_cases),
         "command lines": (case_main, main_cases)}


def run(ctx):
  for name, (fn, gen) in PARTS.items():
    enumr.enumerate_all(ctx, name, gen(not ctx.quick), fn, chunk=16)
    if ctx.violations:
      return


def replay(what):
  o, e, n = PARTS[what["part"]][0](what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
