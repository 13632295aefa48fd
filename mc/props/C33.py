"""The HTTP interface shows the state of the server, and only shows it."""
import json, urllib.parse
from mc.lib import *
from mc.world import World
from mc.refbroker import Mismatch
from mc.site import http_request
BOUNDS = {"quick": "two clients of either version and a third with an unusual id, subscriptions, retained messages (text, binary, $ topics, with properties), wills, sessions that stay and end; after every operation all GETs and other methods; depth 5",
          "thorough": "depth 6"}


def call(method, path, body=None):
  from mc import env
  from mqtt.brokers.listeners import HTTPListeners
  req = "%s %s HTTP/1.0\r\n" % (method, path)
  b = b""
  if body is not None:
    b = body[1]
    req += "Content-Type: %s\r\nContent-Length: %d\r\n" % (body[0], len(b))
  out = http_request(HTTPListeners.requestHandler, req.encode() + b"\r\n" + b)
  head, sep, body = out.partition(b"\r\n\r\n")
  words = head.split(b"\r\n")[0].split()
  if not sep or len(words) < 2 or not words[1].isdigit():
    raise Mismatch("%s %s: no HTTP response, but %r" % (method, path, out))
  return int(words[1]), head, body


def get(path):
  rc, head, body = call("GET", path)
  if rc != 200:
    return rc, None
  if b"application/json" not in head.lower():
    raise Mismatch("GET %s: the content type is not JSON: %r" % (path, head))
  try:
    return rc, json.loads(body)
  except ValueError:
    raise Mismatch("GET %s: this is not JSON: %r" % (path, body))


class HttpWorld(World):
  def key(self):
    before = World.key(self)
    self.look()
    if World.key(self) != before:
      raise Mismatch("HTTP requests change the state of the server")
    return before

  def look(self):
    rc, clients = get("/api/v0001/clients")
    rc2, subs = get("/api/v0001/subscriptions")
    rc3, retained = get("/api/v0001/retained")
    if (rc, rc2, rc3) != (200, 200, 200):
      raise Mismatch("HTTP requests are answered with %r" % ((rc, rc2, rc3),))
    try:
      got = (sorted((cid, bool(c["connected"])) for cid, c in clients.items()),
             sorted((s["clientid"], s["topic"], s["qos"]) for s in subs),
             sorted((t, v[0], v[1]) for t, v in retained.items()))
    except (KeyError, TypeError, IndexError, AttributeError) as e:
      raise Mismatch("HTTP: incomplete data, %r: %r %r %r" % (e, clients, subs, retained))
    want = []
    for m in self.models:
      want.append((sorted((cid, s.conn is not None) for cid, s in m.sessions.items()),
                   sorted((cid, f, x.qos) for cid, s in m.sessions.items() for f, x in s.subs.items()),
                   sorted((t, x.payload.decode(errors="replace"), x.qos) for t, x in m.retained.items())))
    if got not in want:
      raise Mismatch("HTTP shows clients, subscriptions, retained messages %r instead of %r" % (got, want))
    for cid in list(self.clients) + ["nobody", ""]:
      rc, one = get("/api/v0001/clients/" + urllib.parse.quote(cid, safe=""))
      if cid in clients:
        if rc != 200 or one != clients[cid]:
          raise Mismatch("HTTP: client %r is %r, but in the list of clients %r" % (cid, (rc, one), clients[cid]))
      elif rc != 404:
        raise Mismatch("HTTP: status %d for client %r, which does not exist" % (rc, cid))
    for path in ("/", "/api/v0001/clientsx", "/api/v0001/client", "/api/v0001/retained/", "/x/api/v0001/retained"):
      rc, _ = get(path)
      if rc != 404:
        raise Mismatch("HTTP: status %d for GET %s" % (rc, path))
    for method in ("PUT", "POST", "PATCH", "DELETE"):
      for path in ("/api/v0001/clients/a", "/api/v0001/retained"):
        rc, h, b = call(method, path, None if method == "DELETE" else ("application/json", b'{"a": 1}') if path[-1] == "a" else ("text/plain", b"x"))
        if rc < 400 or rc > 499:
          raise Mismatch("HTTP: status %d for %s %s" % (rc, method, path))


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  odd = "a/ü %41?+"
  for va, vb in ((3, 5), (5, 3), (3, 3), (5, 5)):
    ka = {"expiry": 1000} if va == 5 else {}
    w = lambda r: (("topic", "w"), ("payload", b"\xff\x00"), ("qos", 1), ("retain", r), ("props", ()))
    a1, a2 = connect("a", clean=False, **ka), connect("a", clean=True, will=w(True))
    pp = ((38, ("k", "v")), (3, "ct")) if va == 5 else ()
    en = simple({"a": [("sub", "a", (("t/+", 1), ("#", 0))), ("unsub", "a", ("#",)), ("drop", "a"), ("disconnect", "a"),
                       ("pub", "a", "t/1", 1, True, b"one", 1, False, pp), ("pub", "a", "$x", 0, True, b"\xc3\x28"), ("pub", "a", "t/1", 0, True, b"")],
                 "b": [("sub", "b", (("t/1", 2), ("$x", 1))), ("unsub", "b", ("t/1",)), ("pub", "b", "t/1", 2, True, b'"q"', 7), ("pub", "b", "t/2", 0, False, b"no")]},
                [(down("a"), a1), (down("a"), a2)], limits=[(("pub",), 2), (("connect",), 2)])
    res.append(broker_scenario("v%d and v%d" % (va, vb), {"a": va, "b": vb, odd: va}, en, 5 + d, prefix=[a1, connect("b")], cls=HttpWorld))
    en = simple({odd: [("sub", odd, (("t/ü", 1),)), ("drop", odd), ("pub", odd, "t/ü", 1, True, "ü".encode(), 1)],
                 "b": [("unsub", "b", ("t/ü",)), ("sub", "b", (("t/ü", 0),)), ("drop", "b")]},
                [(down(odd), connect(odd)), (down("b"), connect("b", clean=False))], limits=[(("pub",), 2)])
    res.append(broker_scenario("v%d and v%d, unusual id" % (va, vb), {"b": vb, odd: va}, en, 5 + d, prefix=[connect("b")], cls=HttpWorld))
  return res
