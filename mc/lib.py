"""Building blocks for broker scenarios."""
from .explore import Scenario
from .world import World


def acks(w, c, last=True):
  "acknowledgements client c can send for what it has received: for the oldest and the newest message"
  v = w.view.get(c, [])
  res = []
  for kind, sel in (("puback", lambda x: x[1] == 1), ("pubrec", lambda x: x[1] == 2 and x[2] == "P"),
                    ("pubcomp", lambda x: x[1] == 2 and x[2] == "R")):
    n = sum(1 for x in v if sel(x))
    if n:
      res.append((kind, c, 0))
      if n > 1 and last:
        res.append((kind, c, n - 1))
  return res


class Elsewhere:
  """all topics and filters of the operations are moved below a topic level which begins with $, the packet and subscription
  identifiers clients choose are large, and payloads are long"""
  BELOW = "$\u00fc/"

  def moved(self, f):
    if not f:
      return f
    if f.startswith("$share/"):
      parts = f.split("/", 2)
      return f if len(parts) < 3 else "/".join(parts[:2]) + "/" + self.BELOW + parts[2]
    return self.BELOW + f

  def far(self, pid):
    return pid + 0x8100 if 0 < pid < 0x7000 else pid

  def long(self, payload):
    return payload + b"." * 130 if payload and self.LONG else payload

  LONG = True

  def op_connect(self, c, kw):
    will = dict(kw).get("will")
    if will:
      new = {"topic": self.moved, "payload": self.long}
      kw = tuple((k, tuple((n, new[n](x) if n in new else x) for n, x in v)) if k == "will" else (k, v) for k, v in kw)
    return super().op_connect(c, kw)

  def op_sub(self, c, filters, subid=None, pid=11, props=()):
    return super().op_sub(c, tuple((self.moved(f[0]),) + tuple(f[1:]) for f in filters), subid and subid + 300000, self.far(pid), props)

  def op_unsub(self, c, filters, pid=12, props=()):
    return super().op_unsub(c, tuple(self.moved(f) for f in filters), self.far(pid), props)

  def op_pub(self, c, topic, qos=0, retain=False, payload=b"m", pid=1, dup=False, props=()):
    return super().op_pub(c, self.moved(topic), qos, retain, self.long(payload), self.far(pid), dup, props)

  def op_pubrel(self, c, pid=1, props=()):
    return super().op_pubrel(c, self.far(pid), props)


BYSTANDERS = {"bo": 5, "b3": 3, "b5": 5}


def bystanders():
  """clients which take no further part: one which is away and for which a message waits, one of each version which
  receives whatever is published"""
  return [connect("bo", clean=False, expiry=4294967295), ("sub", "bo", (("zz/+", 1), ("zz/q", 2)), 9), ("drop", "bo"),
          connect("b3", clean=False), ("sub", "b3", (("zz/q", 0), ("#", 0))),
          connect("b5", clean=True), ("sub", "b5", (("#", 0, True), ("zz/#", 2)), 8),
          ("pub", "b5", "zz/q", 1, False, b"waits", 1), ("pub", "b3", "zz/r", 0, True, b"kept")]


def past(clients, options):
  "an earlier connection of each client, which leaves a session, limits, aliases, a will and unfinished messages behind"
  res = []
  alias = ((35, 1),) if (options or {}).get("topicAliasMaximum", 1) else ()
  for n, (c, ver) in enumerate(sorted(clients.items())):
    t = "past/%d" % n
    will = (("topic", "past/w"), ("payload", b"past"), ("qos", 1), ("retain", True), ("props", ()))
    if ver == 5:
      res += [connect(c, clean=False, expiry=100000000, recv_max=1, alias_max=2, max_packet=120, keepalive=17, will=will),
              ("sub", c, ((t, 2), ("past/+/x", 1, True, True)), 5),
              ("pub", c, t, 1, False, b"p1", 76, False, alias), ("pub", c, "" if alias else t, 2, True, b"p2", 77, False, alias + ((2, 1000000),))]
    else:
      res += [connect(c, clean=False, keepalive=17, will=will), ("sub", c, ((t, 2), ("past/+/x", 1))), ("pub", c, t, 1, False, b"p1", 76), ("pub", c, t, 2, True, b"p2", 77)]
    res.append(("disconnect", c))
  return res


def broker_scenario(name, clients, enabled, depth, prefix=(), options=None, cls=World):
  """the scenario; besides, .variants() are the same one step less deep with other clients, subscriptions, queued and
  retained messages in the brokers and all topics moved elsewhere, and with clients which have a past"""
  sc = Scenario(name, lambda: cls(clients, options), enabled, depth, prefix)
  sc.variants = [Scenario(name + ", with a past", lambda: cls(clients, options), enabled, max(2, depth - 1), past(clients, options) + list(prefix))]
  if not set(clients) & set(BYSTANDERS):
    everybody = dict(BYSTANDERS, **clients)
    sc.variants.append(Scenario(name + ", elsewhere, with bystanders", lambda: type("Elsewhere", (Elsewhere, cls), {})(everybody, options), enabled, max(2, depth - 1), bystanders() + list(prefix)))
  return sc


def count(hist, pred):
  return sum(1 for op in hist if pred(op[2] if op[0] == "?" else op))


def connect(c, **kw):
  return ("connect", c, tuple(sorted(kw.items())))


def simple(ops_connected, ops_always=(), acks_of=(), limits=(), choose=0):
  """enabled() from a table: ops_connected maps a client to operations possible while it is connected;
  ops_always: (predicate(w, hist) or None, op); limits: [(kinds, n)] bound how often kinds of operation occur;
  choose > 1: publish operations are tried with every index of random choice below it"""
  def enabled(w, hist):
    res = []
    for c, ops in ops_connected.items():
      if w.conn[c] is not None:
        for op in ops:
          if op[0] != "connect" or op[0] == "connect":
            res.append(op)
    for pred, op in ops_always:
      if pred is None or pred(w, hist):
        res.append(op)
    for c in acks_of:
      if w.conn[c] is not None:
        res += acks(w, c)
    for kinds, n in limits:
      if count(hist, lambda op: op[0] in kinds) >= n:
        res = [op for op in res if op[0] not in kinds]
    if choose > 1:
      res = [x for op in res for x in ([("?", k, op) for k in range(choose)] if op[0] == "pub" else [op])]
    return res
  return enabled


def down(c):
  return lambda w, hist: w.conn[c] is None


def up(c):
  return lambda w, hist: w.conn[c] is not None
