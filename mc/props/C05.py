"""Topic filters: which are valid, and which topic names they match."""
import itertools
from mc import enumr, topicref, wire
from mc.world import World
from mc.refbroker import Mismatch
BOUNDS = {"quick": "all filters of up to 5 and all topic names of up to 4 characters over {a b + # / $}; up to 3 over 11 characters incl. regular expression operators, newline and non-ASCII; the subscription engine on all of up to 4; SUBSCRIBE, UNSUBSCRIBE and PUBLISH packets with all of up to 5, and shared ones",
          "thorough": "filters up to 6, names up to 5; up to 4 over 11 characters"}

A1 = "ab+#/$"
A2 = "a.*[\\(\n\u00e9/+#"


def strings(al, n):
  for k in range(1, n + 1):
    for t in itertools.product(al, repeat=k):
      yield "".join(t)


def mods(ver):
  if ver == 5:
    from mqtt.brokers.V5 import Topics, SubscriptionEngines
  else:
    from mqtt.brokers.V311 import Topics, SubscriptionEngines
  return Topics, SubscriptionEngines


def call(f, *a):
  try:
    return bool(f(*a))
  except Exception:
    return False


_names = {}


def names(al, n):
  if (al, n) not in _names:
    _names[al, n] = [t for t in strings(al, n) if topicref.valid_topic(t)]
  return _names[al, n]


def case(c):
  ver, f, al, n = c
  T, S = mods(ver)
  want = topicref.valid_filter(f)
  got = call(T.isValidTopicName, f)
  if got != want:
    return "", "filter %r is taken as %svalid" % (f, "" if got else "in"), 1
  if not want:
    return "invalid", None, 1
  k = m = 0
  for t in names(al, n):
    k += 1
    w = topicref.matches(f, t)
    try:
      g = bool(T.topicMatches(f, t))
    except Exception as e:
      return "", "matching %r against %r fails: %r" % (f, t, e), k
    if g != w:
      return "", "filter %r is said %sto match %r" % (f, "" if g else "not ", t), k
    m += w
  return "matches %d of %d" % (m, k), None, k


def cases(thorough):
  for ver in (5, 3):
    for f in strings(A1, 6 if thorough else 5):
      yield ver, f, A1, 5 if thorough else 4
    for f in strings(A2, 4 if thorough else 3):
      yield ver, f, A2, 3 if not thorough else 4
    for f, n in (("level1/level2/level3", 1), ("l/" * 40 + "#", 2), ("+/" * 30 + "+", 2), ("\u20ac/+", 1)):
      yield ver, f, A1, n


def engine_case(c):
  "subscribers() of the subscription engine, which adds the $ rule and shared subscriptions"
  ver, f, al, n = c
  T, S = mods(ver)
  share = topicref.share_of(f) if ver == 5 else None
  if share == ():
    return "invalid share", None, 1
  if not topicref.valid_filter(share[1] if share else f) or (ver == 3 and f.startswith("$share")):
    return "invalid", None, 1
  e = S.SubscriptionEngines({})
  if ver == 5:
    from mqtt.formats import MQTTV5
    o = MQTTV5.SubscribeOptions(QoS=1)
    e.subscribe("x", f, (o, None)) if False else e.subscribe("x", [f], [(o, None)])
  else:
    e.subscribe("x", [f], [1])
  k = m = 0
  for t in engine_names(al, n):
    k += 1
    w = topicref.subscribed(share[1] if share else f, t)
    g = e.getSubscriptions(t, "x")
    if bool(g) != w:
      return "", "a subscription to %r %s messages to %r" % (f, "gets" if g else "does not get", t), k
    m += w
  return "%d of %d" % (m, k), None, k


def engine_names(al, n):
  return names(al, n) + (["$share/" + t for t in names("a/$", 3)] if al == A1 else [])


def engine_cases(thorough):
  for ver in (5, 3):
    for f in strings(A1, 5 if thorough else 4):
      yield ver, f, A1, 4 if thorough else 3
    if ver == 5:
      for f in strings(A1, 3):
        for name in ("g", "a b", "$share"):
          yield ver, "$share/" + name + "/" + f, A1, 3


def broker_case(c):
  """the filter (or name) in SUBSCRIBE, UNSUBSCRIBE and PUBLISH packets: accepted if valid, otherwise the client is
  disconnected and nothing of the packet has an effect"""
  kind, ver, f = c
  w = World({"c": ver, "p": 5, "x": 3}, {"topicAliasMaximum": 0, "receiveMaximum": 65535, "maximumPacketSize": 2**28 - 1})
  if kind == "pub":
    ok = topicref.valid_topic(f)
  else:
    share = topicref.share_of(f) if ver == 5 else None
    ok = topicref.valid_filter(f) if share is None else share != () and topicref.valid_filter(share[1])
    if ver == 3 and f.startswith("$share/"):
      return "", None, 0
  ops = [("connect", "x", ()), ("sub", "x", (("q", 1),)), ("connect", "p", ()), ("connect", "c", ())]
  if kind == "pub":
    ops += [("sub", "x", (("#", 1),)), ("sub", "p", (("#", 0), ("+/+/+", 0)))]
    x = ("pub", "c", f, 1, True, b"m", 7)
  elif kind == "sub":
    ops.append(("pub", "p", "q", 1, True, b"r", 7))
    x = ("sub", "c", (("q", 1), (f, 1)))
  else:
    ops.append(("sub", "c", (("q", 1), ("a/b", 0))))
    x = ("unsub", "c", ("q", f))
  n = 0
  try:
    for o in ops:
      n += 1
      w.do(o)
    n += 1
    if ok:
      w.do(x)
    else:
      p = {"sub": {"type": "SUBSCRIBE", "filters": [("q", 1), (f, 1)]}, "unsub": {"type": "UNSUBSCRIBE", "filters": ["q", f]},
           "pub": {"type": "PUBLISH", "topic": f, "qos": 1, "retain": True, "payload": b"m", "dup": False}}[kind]
      w.do(("raw", "c", wire.encode(ver, dict(p, id=7, props=[]))))
    for o in (("sub", "x", (("+/+/a", 0),)), ("sub", "p", (("+/+/a", 0), ("#", 0))), ("pub", "p", "q", 1, False, b"1", 8), ("pub", "p", "a/b", 1, False, b"2", 9), ("ping", "x")):
      n += 1
      w.do(o)
  except Mismatch as e:
    return "", "%s with %r from a %s client: %s" % (kind, f, "5.0" if ver == 5 else "3.1.1", e), n
  return kind + (" accepted" if ok else " refused"), None, n


def broker_cases(thorough):
  for ver in (5, 3):
    for kind in ("sub", "unsub", "pub"):
      yield kind, ver, ""
      for f in strings(A1, 6 if thorough else 5):
        yield kind, ver, f
      for f in strings(A2, 3 if thorough else 2):
        yield kind, ver, f
      if kind == "pub":   # names which look like shared subscriptions are names which start with $
        for f in strings("a/$", 3):
          yield kind, ver, "$share/" + f
          yield kind, ver, "$share/g/" + f
      for name in ("", "g", "a b", "+", "#", "g+", "#g", "$share") if ver == 5 and kind != "pub" else ():
        for f in [None, ""] + list(strings("a+#/$", 3)):
          yield kind, ver, "$share/" + name + ("" if f is None else "/" + f)


def run(ctx):
  enumr.enumerate_all(ctx, "packets to the brokers", broker_cases(not ctx.quick), broker_case, chunk=20)
  enumr.enumerate_all(ctx, "filters and names", cases(not ctx.quick), case, chunk=40)
  enumr.enumerate_all(ctx, "subscription engine", engine_cases(not ctx.quick), engine_case, chunk=20)


def replay(what):
  o, e, n = (case if what["part"].startswith("filters") else broker_case if what["part"].startswith("packets") else engine_case)(what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
