"""Visual mode and sequence charts: every packet is reported once, and nothing else changes."""
import io, json, os
from mc.lib import *
from mc import wire
from mc.refbroker import Mismatch
from mc import topicref
BOUNDS = {"quick": "all sequences of up to 5 operations of two clients, with 3.1.1 and 5.0 watchers (present all the time, coming and going, watching themselves, with topic aliases and small windows), with and without a chart file",
          "thorough": "depth 6"}
ASSUMPTIONS = ["of a report the direction, socket, client id, and packet type, flags, packet id, topic name, payload, client id, filters and reason codes are compared, not the text of the properties",
               "packets of MQTT 3.1.1 clients are not reported", "a step in which a watcher's own subscription or connection changes may or may not be reported to this watcher",
               "reports to a watcher whose Receive Maximum is used up may be dropped"]
TOPIC = "$SYS/clients-packets"
NAMES = {"CONNECT": "Connects", "CONNACK": "Connacks", "PUBLISH": "Publishes", "PUBACK": "Pubacks", "PUBREC": "Pubrecs", "PUBREL": "Pubrels", "PUBCOMP": "Pubcomps",
         "SUBSCRIBE": "Subscribes", "SUBACK": "Subacks", "UNSUBSCRIBE": "Unsubscribes", "UNSUBACK": "Unsubacks", "PINGREQ": "Pingreqs", "PINGRESP": "Pingresps",
         "DISCONNECT": "Disconnects", "AUTH": "Auths"}


def expected(way, sock, cid, p):
  "what a report of packet p must say"
  fh = {"PacketType": NAMES[p["type"]], "DUP": bool(p.get("dup")), "QoS": p.get("qos") or 0, "RETAIN": bool(p.get("retain"))}
  if p["type"] in ("PUBREL", "SUBSCRIBE", "UNSUBSCRIBE"):
    fh["QoS"] = 1
  d = {"direction": way, "socket": sock.fd, "clientid": cid, "fh": fh}
  if p.get("id") is not None:
    d["PacketId"] = p["id"]
  if p["type"] == "PUBLISH":
    d["TopicName"], d["Payload"] = p["topic"], str(p["payload"])
  elif p["type"] == "CONNECT":
    d["ClientId"], d["KeepAliveTimer"], d["CleanStart"], d["WillFlag"] = p["clientid"], p["keepalive"], p["clean"], bool(p["will"])
  elif p["type"] == "CONNACK":
    d["SessionPresent"] = p["sp"]
  elif p["type"] == "SUBSCRIBE":
    d["Data"] = [f for f, o in p["filters"]]
  elif p["type"] == "UNSUBSCRIBE":
    d["Data"] = list(p["filters"])
  return d


def summary(payload, p):
  "the same parts of a report"
  try:
    j = json.loads(payload.decode("utf-8"))
    k = j["packet"]
    d = {"direction": j["direction"], "socket": j["socket"], "clientid": j["clientid"], "fh": dict((n, k["fh"][n] if n == "PacketType" else int(k["fh"][n])) for n in ("PacketType", "DUP", "QoS", "RETAIN"))}
    for n in ("PacketId", "TopicName", "Payload", "ClientId", "KeepAliveTimer", "CleanStart", "WillFlag", "SessionPresent"):
      if n in k:
        d[n] = k[n]
    if "Data" in k:
      d["Data"] = [x if isinstance(x, str) else x[0] for x in k["Data"]]
    return d
  except Exception as e:
    raise Mismatch("the report %r cannot be read: %r" % (payload[:300], e))


class Visual(World):
  def __init__(self, clients, options=None):
    super().__init__(clients, options)
    self.log = []
    self.aliases = {}
    self.ids = {}
    self.charted = None

  def request(self, c, conn, data=None):
    sock = self.socks[conn]
    sock.log = self.log
    if data is not None and self.clients[c] == 5:
      self.log.append(("C", sock, data))
    super().request(c, conn, data)

  def step(self, op, choices=()):
    del self.log[:]
    for s in self.socks.values():
      s.log = self.log
    self.before = self.watchers()
    self.waiting = dict((c, len(v)) for c, v in self.view.items())
    return super().step(op, choices)

  def watchers(self):
    "client -> number of subscriptions which get the reports"
    res = {}
    m = self.models[0]
    for c, conn in self.conn.items():
      s = m.sessions.get(c)
      if conn and s and s.conn == conn:
        res[c] = sum(1 for f in s.subs if topicref.subscribed(f, TOPIC))
    return res

  def owner(self, sock):
    return sock.name.split("#")[0]

  def observe(self, op, seen, closed):
    # reports are taken out of what the clients see
    got = {}
    isreport = set()
    for conn, pkts in seen.items():
      table = self.aliases.setdefault(conn, {})
      rest = []
      for n, p in enumerate(pkts):
        report = False
        if p["type"] == "PUBLISH":
          al = [v for k, v in p.get("props") or () if k == 35]
          topic = p["topic"]
          if al:
            topic = topic or table.get(al[0])
            table[al[0]] = topic
          report = topic == TOPIC
        if report:
          if p["qos"] or p["retain"] or p["dup"]:
            raise Mismatch("report with QoS, DUP or RETAIN: %r" % p)
          got.setdefault(conn, []).append(p["payload"])
          isreport.add((conn, n))
        else:
          rest.append(p)
      seen[conn] = rest
    # what there was to report
    events = []
    count = {}
    ids = dict(self.ids)
    for way, sock, data in self.log:
      c = self.owner(sock)
      if way == "S" and self.clients[c] != 5:
        continue
      conn = sock.name
      while data:
        k = wire.split(data)
        if k is None:
          break
        one, data = data[:k], data[k:]
        try:
          p = wire.decode(5, one, from_server=way == "S")
        except wire.Malformed:
          continue
        if way == "S":
          n = count.get(conn, 0)
          count[conn] = n + 1
          if (conn, n) in isreport:
            continue
        elif p["type"] == "CONNECT" and conn not in ids:
          ids[conn] = p["clientid"]
        if way == "S" and p["type"] == "CONNACK":
          ids[conn] = dict(p["props"]).get(18, ids.get(conn))
        events.append(("CtoS" if way == "C" else "StoC", sock, ids.get(conn, ""), p))
    want = [expected(*e) for e in events]
    self.ids = ids
    changing = op[1] if op[0] in ("connect", "sub", "unsub", "drop", "disconnect", "connect_again", "raw") else None
    for c, n in self.before.items():
      conn = self.conn.get(c)
      if c == changing or conn is None:
        continue
      if conn in closed:
        continue
      if self.models[0].sessions[c].recv_max <= 1 and (self.waiting.get(c) or any(p["type"] == "PUBLISH" and p["qos"] for p in seen[conn])):
        continue   # the window is full: QoS 0 messages may be dropped
      reps = [summary(x, None) for x in got.get(conn, [])]
      w = [d for d in want for i in range(min(n, 1))] if self.options["overlapping_single"] else [d for d in want for i in range(n)]
      if reps != w:
        raise Mismatch("client %s watches: reported were\n  %s\ninstead of\n  %s" % (c, "\n  ".join(map(str, reps)), "\n  ".join(map(str, w))))
    for conn, x in got.items():
      rest = list(want)
      for payload in x:
        d = summary(payload, None)
        while rest and rest[0] != d:
          rest.pop(0)
        if not rest:
          raise Mismatch("client %s gets a report of something which did not happen, twice, or out of order: %s" % (conn, d))
        if self.options["overlapping_single"]:
          rest.pop(0)
    self.chart(events)

  def chart(self, events):
    name = self.options.get("mscfile")
    if not name:
      return
    for v in list(vars(self.b5).values()):
      if isinstance(v, io.IOBase) and not v.closed:
        v.flush()
    text = open(name).read()
    old = self.charted or "msc {\n broker;\n"
    self.charted = text
    lines = ["client%d=>broker[label=%s];\n" % (s.fd, NAMES[p["type"]]) if way == "CtoS" else "broker=>client%d[label=%s];\n" % (s.fd, NAMES[p["type"]]) for way, s, cid, p in events]
    if text != old + "".join(lines):
      raise Mismatch("added to the chart was %r instead of %r" % (text[len(old):], "".join(lines)))


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  opt = {"visual": True, "maximumPacketSize": 2**28 - 1}
  watch = [connect("v"), ("sub", "v", ((TOPIC, 0),)), connect("u"), ("sub", "u", ((TOPIC, 1), ("$SYS/#", 2)))]
  will = (("topic", "w"), ("payload", b"\xff\x00"), ("qos", 1), ("retain", True), ("props", ((38, ("a", "b")),)))
  P = [("pub", "p", "a", 0, False, b"0"), ("pub", "p", "a", 1, True, b"\xff\"1", 3, False, ((38, ("k", "\u00e9")), (9, b"\xff"), (1, 0), (35, 1))), ("pub", "p", "a", 2, False, b"", 4), ("pubrel", "p", 4), ("pubrel", "p", 9, ((31, "r"),)),
       ("ping", "p"), ("drop", "p"), ("disconnect", "p", 4, ((31, "reason"),)), ("connect_again", "p"), ("raw", "p", b"\x00\x00"), ("raw", "p", b"\x82\x08\x00\x01\x00\x00\x02a+\x00")]
  X = [("sub", "x", (("a", 2), ("w", 1)), 7), ("unsub", "x", ("a", "zz"), 12, ((38, ("k", "v")),)), ("drop", "x")]
  C = [connect("p", clean=False, expiry=10, will=will, alias_max=1), connect("p", clientid=""), connect("p", username="user", password=b"pass\xff", keepalive=9)]
  # reports to a 5.0 and a 3.1.1 watcher
  en = simple({"p": P, "x": X}, [(down("p"), c) for c in C] + [(down("x"), connect("x", clean=False, expiry=10, recv_max=1)), (None, ("tick", 14.0))],
              acks_of=("x",), limits=[(("pub",), 3), (("tick",), 1)])
  pre = watch + [connect("x", expiry=10, recv_max=1), connect("p")]
  res.append(broker_scenario("watched", {"v": 5, "u": 3, "p": 5, "x": 5}, en, 4 + d, prefix=pre, options=opt, cls=Visual))
  # watchers which come and go, watch themselves, have aliases and windows; one shares their subscription with another topic
  V = [("sub", "v", ((TOPIC, 0),)), ("sub", "v", (("$SYS/+", 2), ("a", 1))), ("unsub", "v", (TOPIC, "$SYS/+")), ("ping", "v"), ("pub", "v", "a", 1, False, b"1", 5), ("drop", "v")]
  U = [("sub", "u", (("$SYS/#", 0),)), ("unsub", "u", ("$SYS/#",)), ("ping", "u"), ("pub", "u", "a", 1, False, b"2", 5)]
  for kw in (dict(recv_max=1, alias_max=1), dict(alias_max=3)):
    en = simple({"v": V, "u": U}, [(down("v"), connect("v", clean=False, expiry=10, **kw))], acks_of=("v",), limits=[(("pub",), 3)])
    res.append(broker_scenario("watchers %s" % sorted(kw), {"v": 5, "u": 3}, en, 5 + d, prefix=[connect("u"), connect("v", expiry=10, **kw), ("sub", "v", ((TOPIC, 0),))], options=opt, cls=Visual))
  en = simple({"v": V, "p": P[:3] + [("ping", "p")]}, acks_of=("v",))
  res.append(broker_scenario("watchers, one message for each subscription", {"v": 5, "p": 5}, en, 4 + d, prefix=[connect("v"), connect("p"), ("sub", "v", ((TOPIC, 0),))], options=dict(opt, overlapping_single=False), cls=Visual))
  # charts, with and without reports
  for visual in (False, True):
    def make(visual=visual):
      name = os.path.join(os.getcwd(), "chart%d.msc" % os.getpid())
      return Visual({"p": 5, "x": 5, "o": 3}, dict(opt, visual=visual, mscfile=name))
    en = simple({"p": P, "x": X, "o": [("pub", "o", "a", 1, False, b"o", 3), ("sub", "o", (("a", 0),))]}, [(down("p"), c) for c in C] + [(down("x"), connect("x", clean=False, expiry=10, recv_max=1))], acks_of=("x",), limits=[(("pub",), 3)])
    res.append(Scenario("chart%s" % (" and reports" if visual else ""), make, en, 4 + d, [connect("x", expiry=10, recv_max=1), connect("o"), connect("p")] + ([("sub", "o", ((TOPIC, 0),))] if visual else [])))
  return res
