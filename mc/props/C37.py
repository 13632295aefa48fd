"""Tests generated from the MQTT 3.1.1 specification record what the broker did, and pass exactly on brokers which do that.

Each case is a sequence of actions; the real generator (specification, model execution and in-memory broker) runs in a
process of its own, takes exactly these actions, and writes its log.  The log is compared with another broker which gets
the packets that the reference codec makes from the actions.  Then the log is replayed by mbt.Tests through the same
specification, over connections of the explorer, to fresh brokers: one which is the same, one which numbers its
messages differently, and ones which withhold or change one packet.
"""
import _thread, itertools, logging, os, pickle, signal, tempfile, threading, copy
from mc import enumr, env, explore, wire, client
from mc.env import Env
from mc.world import FakeSock
from mc.props import C27

BOUNDS = {"quick": "all sequences of 2 steps of one connection (subscribe with each QoS, wildcards, unsubscribe, publish with all QoS, retained or not, empty or not, disconnect, close and connect again) after each kind of CONNECT; all sequences of 3 steps of two connections; each topic filter with each topic; what belongs before or after a connection at each place; acknowledgements observed at once or only while the next action waits; replays against the same broker, one with other packet ids, and ones which leave out, or change, any one packet",
          "thorough": "sequences of 3 steps of one connection and 4 of two"}
ASSUMPTIONS = ["the threads which read the packets of a connection only run while the generator sleeps or between its steps"]

TOPICS = ("TopicA", "TopicA/B", "Topic/C", "TopicA/C", "/TopicA")
WILD = ("TopicA/+", "+/C", "#", "/#", "/+", "+/+")
IDS = ("", "normal", "23 characters4567890123", "A clientid that is longer than 23 chars - should work in 3.1.1")
PAYLOADS = (b"", b"1", b"333", b"long" * 512)
ACKS = ("pubrel", "puback", "pubcomp")


class Wrong(Exception):
  pass


# ---------------------------------------------------------------- what runs in the child
class Threads:
  "the threads of the specification run only when they are given the control"

  def __init__(self):
    self.baton = client.Baton()
    self.all = []
    self.ident = {}
    self.errors = []

  def start(self, fn, args=(), kwargs=None):
    t = Thread(self, fn, args, kwargs or {})
    self.all.append(t)
    return 1000 + len(self.all)

  def sleep(self, s):
    me = self.ident.get(threading.get_ident())
    if me is None:
      self.advance(s)
    else:
      wake = Env.now + s
      me.park(lambda: Env.now >= wake - 1e-9)

  def advance(self, s):
    end = Env.now + s
    while True:
      for t in list(self.all):
        if not t.done and t.cond():
          t.resume()
      if Env.now >= end - 1e-9:
        break
      Env.now = min(end, Env.now + 0.05)


class Thread:
  def __init__(self, ts, fn, args, kwargs):
    self.ts, self.fn, self.args, self.kwargs = ts, fn, args, kwargs
    self.baton = client.Baton()
    self.cond = lambda: True
    self.done = False
    client.REAL_START(self.body, ())

  def body(self):
    self.baton.take()
    self.ts.ident[threading.get_ident()] = self
    try:
      self.fn(*self.args, **self.kwargs)
    except BaseException:
      pass
    self.done = True
    self.ts.baton.give()

  def resume(self):
    self.baton.give()
    if not self.ts.baton.take(20):
      self.ts.errors.append("a thread of the specification hangs")
      self.done = True

  def park(self, cond):
    self.cond = cond
    self.ts.baton.give()
    self.baton.take()


class Handler(logging.Handler):
  def __init__(self):
    logging.Handler.__init__(self)
    self.lines = []

  def emit(self, record):
    self.lines.append(record.getMessage())


def spec_module():
  C27.load()
  import mqtt.brokers, specifications.MQTTV311 as spec
  return spec


def broker():
  import mqtt.brokers
  return mqtt.brokers.V311.MQTTBrokers(sharedData={})


class Twin:
  "another broker, which gets the packets of the actions"

  def __init__(self):
    self.b = broker()
    self.socks = []
    self.taken = []
    self.used = []          # packet ids per connection

  def create(self):
    s = FakeSock("s%d" % len(self.socks))
    self.socks.append(s)
    self.taken.append(0)
    self.used.append(set())

  def send(self, i, data):
    s = self.socks[i]
    if s.closed:
      return
    s.inb += data
    while s.inb and not s.closed:
      try:
        if self.b.handleRequest(s):
          break
      except Exception:
        s.closed = True

  def close(self, i):
    s = self.socks[i]
    if not s.closed:
      s.eof = True
      try:
        self.b.handleRequest(s)
      except Exception:
        pass
      s.closed = True

  def new(self):
    "packets sent since the last call: {connection: [bytes]}"
    res = {}
    for i, s in enumerate(self.socks):
      data = b"".join(s.out[self.taken[i]:])
      self.taken[i] = len(s.out)
      while data:
        n = wire.split(data)
        res.setdefault(i, []).append(data[:n])
        data = data[n:]
    return res


def packet(name, kw):
  "(connection, bytes) for an action"
  if name in ACKS:
    i, p = kw[{"pubrel": "pubrec", "puback": "publish", "pubcomp": "pubrel"}[name]]
    if name == "puback":
      t = "PUBACK" if p.fh.QoS == 1 else "PUBREC"
    else:
      t = name.upper()
    return i, wire.encode(3, {"type": t, "id": p.messageIdentifier})
  i = kw["sockid"]
  if name == "connect":
    d = {"type": "CONNECT", "clientid": kw["clientid"], "clean": kw["cleansession"], "keepalive": 60}
  elif name == "disconnect":
    d = {"type": "DISCONNECT"}
  elif name == "subscribe":
    d = {"type": "SUBSCRIBE", "id": kw["packetid"], "filters": list(zip(kw["topics"], kw["qoss"]))}
  elif name == "unsubscribe":
    d = {"type": "UNSUBSCRIBE", "id": kw["packetid"], "filters": list(kw["topics"])}
  elif name == "publish":
    d = {"type": "PUBLISH", "topic": kw["topic"], "qos": kw["qos"], "retain": kw["retained"], "payload": kw["payload"], "dup": False}
    if kw["qos"]:
      d["id"] = kw["packetid"]
  return i, wire.encode(3, d)


def matches(want, name, kw):
  "is this the action which the case asks for?  want: (name, {parameter: value})"
  return name == want[0] and all(kw.get(k) == v for k, v in want[1].items())


def generate(tests, late, logs):
  """takes the actions of each test, one test after the other; returns (what happened, number of actions).
  A test which does not end with an exception is the last one.  logs gets the log of each test"""
  spec = spec_module()
  import mbt, random
  ts = Threads()
  Env.reset()
  Env.on_sleep = ts.sleep
  client.Hook.starter = lambda fn, args, kwargs: ts.start(fn, args, kwargs)
  threading.Thread.start = lambda self: ts.start(self.run) and None
  h = Handler()
  log = logging.getLogger("mbt")
  for x in list(log.handlers):
    log.removeHandler(x)
  log.addHandler(h)
  log.propagate = False
  log.setLevel(logging.INFO)
  wanted = [None]
  offered = []

  def value(f):
    names = list(f[0].getParmNames())
    return f[0].getName(), dict((n, mbt.execution.pools[t][i].value) for n, (t, i) in zip(names, f[1:]))

  def choice(seq):
    seq = list(seq)
    if isinstance(seq[0], str):
      return wanted[0][0] if wanted[0] and wanted[0][0] in seq else sorted(seq)[0]
    del offered[:]
    for f in seq:
      offered.append((value(f), f))
    for (n, kw), f in offered:
      if wanted[0] and matches(wanted[0], n, kw):
        return f
    for (n, kw), f in offered:
      if n in ACKS:
        return f
    raise NotOffered()
  random.choice = choice
  called = []
  before = mbt.model.callCallback

  def callback(action, kw):
    if before:
      action, kw = before(action, kw)
    called.append((action.getName(), dict(kw)))
    return action, kw
  mbt.model.callCallback = callback

  results = []
  total = 0
  spec.restart()
  try:
    for steps in tests:
      del h.lines[:]
      result, n = take(steps, late, logs, spec, mbt, ts, h, wanted, offered, called)
      results.append(result)
      total += n
      if not result.startswith("exception"):
        break
      spec.state.broker.reinitialize()
  finally:
    client.Hook.starter = None
    Env.on_sleep = None
    mbt.model.callCallback = before
  return "; ".join(results), total


def take(steps, late, logs, spec, mbt, ts, h, wanted, offered, called):
  "the actions of one test"
  todo = [(n, dict(kw)) for n, kw in steps]
  twin = Twin()
  live = []                 # numbers of the open connections
  pending = []              # (action, connection, str of the packet): the acknowledgements which are due
  packets = 0
  waiting = {}              # packets of the other broker which were not observed so far
  result = "complete"
  lost = ""
  position = 0

  def observed(upto):
    nonlocal position
    for l in h.lines[position:upto]:
      if l.startswith("OBSERVED EVENT "):
        text = l[len("OBSERVED EVENT "):]
        i = int(text[1:text.index(",")])
        q = waiting.get(i, [])
        if not q:
          raise Wrong("%r was observed, but not sent" % text)
        data = q.pop(0)
        p = decode(data)
        if str((i, p)) != text:
          raise Wrong("observed %r, but the packet was %r" % (text, str((i, p))))
        if type(p).__name__ == "Pubrecs":
          pending.append(("pubrel", i, str(p)))
        elif type(p).__name__ == "Pubrels":
          pending.append(("pubcomp", i, str(p)))
        elif type(p).__name__ == "Publishes" and p.fh.QoS > 0:
          pending.append(("puback", i, str(p)))
    position = upto

  def settle():
    "everything which was sent is observed now"
    ts.advance(1)
    if ts.errors:
      raise Wrong(ts.errors[0])
    observed(len(h.lines))
    left = [(i, q) for i, q in waiting.items() if q]
    if left:
      raise Wrong("sent to connection %d but not observed: %r" % (left[0][0], str(decode(left[0][1][0]))))

  try:
    n = 0
    while n < 60:
      n += 1
      if not late:
        settle()
      else:
        observed(len(h.lines))
      if not todo and not pending:
        if late:
          settle()
          if pending:
            continue
        break
      wanted[0] = todo[0] if todo else ("nothing", {})
      mark = len(h.lines)
      del called[:]
      due = list(pending)
      try:
        restarted = mbt.step()
      except NotOffered:
        names = set(k[0] for k, f in offered)
        if due:
          raise Wrong("acknowledgements are due for %r, but only %r are offered" % (due, names))
        if wanted[0][0] == "nothing":
          break
        result = "not offered"
        if can(wanted[0], live):
          raise Wrong("%r is not offered" % (wanted[0],))
        break
      if len(called) != 1:
        raise Wrong("%d actions were called in one step" % len(called))
      name, kw = called[0]
      text = [l for l in h.lines[mark:] if l.startswith("CALL ")]
      if text != ["CALL %s with %s" % (name, kw)]:
        raise Wrong("the action %s %r is recorded as %r" % (name, kw, text))
      others = set(n for (n, kw2), f in offered if n not in ACKS)
      if due and others:
        raise Wrong("%s are offered when acknowledgements are due for %r" % (sorted(others), due))
      if due and name not in ACKS:
        raise Wrong("%s is called when acknowledgements are due for %r" % (name, due))
      if name in ACKS:
        i, p = kw[{"pubrel": "pubrec", "puback": "publish", "pubcomp": "pubrel"}[name]]
        if (name, i, str(p)) not in due:
          raise Wrong("%s for %r, which was not received" % (name, (i, str(p))))
        pending.remove((name, i, str(p)))
      else:
        if not matches(wanted[0], name, kw):
          raise Wrong("%r %r was called instead of %r" % (name, kw, wanted[0]))
        todo.pop(0)
      packets += 1
      # the same for the other broker
      ended = name not in ("socket_create",) and target(name, kw) < len(twin.socks) and twin.socks[target(name, kw)].closed
      if name == "socket_create":
        twin.create()
        live.append(len(twin.socks) - 1)
      elif name == "socket_close":
        twin.close(kw["sockid"])
        observed(len(h.lines))
        if waiting.pop(kw["sockid"], []):
          lost = ", unread packets at a close"
        live.remove(kw["sockid"])
      else:
        i, data = packet(name, kw)
        if name in ("subscribe", "unsubscribe", "publish"):
          pid = kw["packetid"]
          if name == "publish" and kw["qos"] == 0:
            if pid != 0:
              raise Wrong("a QoS 0 message has packet id %d" % pid)
          elif not 0 < pid < 65536 or pid in twin.used[i]:
            raise Wrong("packet id %d is used for %s, ids before it: %s" % (pid, name, sorted(twin.used[i])))
          twin.used[i].add(pid)
        twin.send(i, data)
      acked = []
      for i, ps in twin.new().items():
        acked += [(i, x) for x in ps]
        waiting.setdefault(i, []).extend(ps)
      res = [l for l in h.lines[mark:] if l.startswith("RESULT ")]
      if len(res) > 1 or not all(l.startswith("RESULT from %s is " % name) for l in res):
        raise Wrong("the results of one %s are %r" % (name, res))
      failed = bool(res) and res[0].startswith("RESULT from %s is exception" % name)
      if failed:
        s = twin.socks[target(name, kw)]
        answered = name == "connect" and any(p[0] == 0x20 and p[3] in (0, 2) for i, p in acked if i == kw["sockid"])
        if not (ended or s.closed) or answered:
          raise Wrong("%s %r fails: %s" % (name, kw, res[0][-200:]))
        if not restarted or "RESTART" not in h.lines[mark:]:
          raise Wrong("the test goes on after an exception")
        result = "exception in " + name
        break
      elif restarted:
        raise Wrong("the test ends after %s without an exception" % name)
      if name == "connect":
        rc = [decode(p).returnCode for i, ps in waiting.items() if i == kw["sockid"] for p in ps if p[0] == 0x20]
        want = ["RESULT from connect is %d" % x for x in rc] if rc else None
        if want is not None and res != want:
          raise Wrong("connect was answered with %r, the result is %r" % (rc, res))
      elif name == "socket_create":
        want = ["RESULT from socket_create is %d" % (len(twin.socks) - 1)]
        if res != want:
          raise Wrong("socket_create results in %r instead of %r" % (res, want))
      elif name not in ACKS + ("disconnect", "socket_close"):
        want = ["RESULT from %s is %d" % (name, kw["packetid"])]
        if res != want:
          raise Wrong("%s results in %r instead of %r" % (name, res, want))
      elif res:
        raise Wrong("%s results in %r" % (name, res))
    else:
      raise Wrong("the acknowledgements do not end")
    if result == "complete":
      settle()
  finally:
    logs.append(list(h.lines))
  return result + lost, packets


class NotOffered(BaseException):
  pass


def target(name, kw):
  return kw[{"pubrel": "pubrec", "puback": "publish", "pubcomp": "pubrel"}[name]][0] if name in ACKS else kw["sockid"]


def can(want, live):
  "must this action be offered?"
  name, kw = want
  if name == "socket_create":
    return False            # at most two; and the specification prefers what it did not do so far
  return kw.get("sockid") in live and len(live) == 2


def decode(data):
  import mqtt.formats.MQTTV311 as F
  return F.unpackPacket(bytes(data))


class Server:
  "the connections of the replay: each packet goes to a fresh broker at once"

  def __init__(self, shift=0, drop=None, change=None, ts=None):
    self.b = broker()
    self.shift, self.drop, self.change, self.ts = shift, drop, change, ts
    self.sent = 0           # packets sent to the clients
    self.changed = False

  def out(self, data):
    "what the client gets instead of these bytes"
    res = b""
    while data:
      n = wire.split(data)
      p, data = data[:n], data[n:]
      k = self.sent
      self.sent += 1
      if k == self.drop:
        self.changed = True
        continue
      if k == self.change:
        q = alter(p)
        self.changed = q != p
        p = q
      if self.shift and (p[0] >> 4 == 6 or p[0] >> 4 == 3 and p[0] & 6):
        at = 2 if p[0] >> 4 == 6 else idplace(p)
        p = p[:at] + (int.from_bytes(p[at:at+2], "big") + self.shift).to_bytes(2, "big") + p[at+2:]
      res += p
    return res

  def into(self, p):
    if self.shift and p[0] >> 4 in (4, 5, 7):
      return p[:2] + (int.from_bytes(p[2:4], "big") - self.shift).to_bytes(2, "big")
    return p


def idplace(p):
  at = 1
  while p[at] & 0x80:
    at += 1
  at += 1
  return at + 2 + int.from_bytes(p[at:at+2], "big")


def alter(p):
  "a packet which says something else"
  t = p[0] >> 4
  if t == 3:                # another payload
    return p[:-1] + bytes([p[-1] ^ 1]) if p[0] & 6 == 0 and len(p) > idplace(p) or p[0] & 6 and len(p) > idplace(p) + 2 else p
  if t == 9:                # another granted QoS
    return p[:-1] + bytes([(p[-1] + 1) % 3 if p[-1] < 3 else 0])
  if t in (4, 5, 7, 11):    # another id
    return p[:3] + bytes([p[3] ^ 0x40])
  if t == 2:
    return p[:2] + bytes([p[2] ^ 1]) + p[3:]
  return p


class Remote:
  "what the specification gets from socket.socket()"

  def __init__(self, server):
    self.server = server
    self.s = FakeSock("r")
    self.s.websockets = False
    self.buffer = b""
    self.taken = 0
    self.open = False
    self.gone = False
    self.after = 0

  def connect(self, dest):
    self.open = True

  def fileno(self):
    return 5

  def settimeout(self, t):
    pass

  def setsockopt(self, *a):
    pass

  def getpeername(self):
    if not self.open or self.gone:
      raise OSError(107, "not connected")
    return ("127.0.0.1", 1883)

  def drain(self):
    data = b"".join(self.s.out[self.taken:])
    self.taken = len(self.s.out)
    if data:
      self.buffer += self.server.out(data)

  def send(self, data):
    if not self.open or self.gone:
      raise OSError(32, "Broken pipe")
    if self.s.closed:
      self.gone = True      # the next operation fails
      return len(data)
    data = bytes(data)
    n = len(data)
    while data:
      k = wire.split(data)
      self.s.inb += self.server.into(data[:k])
      data = data[k:]
    while self.s.inb and not self.s.closed:
      try:
        if self.server.b.handleRequest(self.s):
          break
      except Exception:
        self.s.closed = True
    for r in self.server.remotes:
      r.drain()
    return n

  def sendall(self, data):
    self.send(data)

  def recv(self, n):
    ts = self.server.ts
    me = ts.ident.get(threading.get_ident())
    while not self.buffer:
      if self.s.closed or not self.open:
        return b""
      if me is None:
        raise TimeoutError("timed out")
      me.park(lambda: bool(self.buffer) or self.s.closed or not self.open)
    r, self.buffer = self.buffer[:n], self.buffer[n:]
    return r

  def shutdown(self, how):
    pass

  def close(self):
    if self.open and not self.s.closed:
      self.s.eof = True
      try:
        self.server.b.handleRequest(self.s)
      except Exception:
        pass
      self.s.closed = True
      for r in self.server.remotes:
        r.drain()
    self.open = False


def replay_log(lines, **how):
  "(passed?, failures, the server)"
  spec = spec_module()
  import mbt
  ts = Threads()
  Env.reset()
  Env.on_sleep = ts.sleep
  server = Server(ts=ts, **how)
  server.remotes = []

  def make():
    server.remotes.append(Remote(server))
    return server.remotes[-1]
  client.Hook.starter = lambda fn, args, kwargs: ts.start(fn, args, kwargs)
  client.Hook.factory = make
  threading.Thread.start = lambda self: ts.start(self.run) and None
  fd, path = tempfile.mkstemp()
  try:
    with os.fdopen(fd, "w") as f:
      f.write("".join(l if l.endswith("\n") else l + "\n" for l in lines))
    spec.restart()
    t = mbt.Tests(mbt.model, path, {"exception": lambda a, b: True}, observationMatchCallback=spec.observationCheckCallback, callCallback=spec.callCallback)
    spec.test = t
    try:
      t.run(stepping=False)
      passed, text = t.failures == 0, "%d failures" % t.failures
    except Exception as e:
      passed, text = False, "%s %s" % (type(e).__name__, e)
    if ts.errors:
      text += ", " + ts.errors[0]
      passed = False
    if any(l.startswith("RESTART") for l in lines) and any(r.open for r in server.remotes):
      text += ", there are connections after the restart"
      passed = False
  finally:
    spec.test = None
    client.Hook.starter = client.Hook.factory = None
    Env.on_sleep = None
    os.unlink(path)
    Env.active = False
  return passed, text, server


def child(case):
  tests, late, deviate = case
  logging.disable(logging.NOTSET)
  logging.raiseExceptions = False
  logging.lastResort = None
  logging.getLogger("MQTT broker").setLevel(logging.CRITICAL)
  logs = []
  try:
    result, n = generate(tests, late, logs)
  except Wrong as e:
    Env.active = False
    return "", str(e) + "\n    after: " + "\n    ".join(logs[-1][-12:]), 1
  Env.active = False
  for i, lines in enumerate(logs):
    r = result.split("; ")[i]
    k, err = check_log(lines, r, deviate)
    n += k
    if err:
      return "", err + "\n    " + "\n    ".join(lines[-30:]), n
  return "%s, %d observations" % (result, sum(l.startswith("OBSERVED") for lines in logs for l in lines)), None, n


def check_log(lines, result, deviate):
  "replays the log; (number of replays, error)"
  passed, text, server = replay_log(lines)
  total = server.sent
  if not passed:
    return 1, "the replay against the same broker does not pass: %s" % text
  passed, text, s = replay_log(lines, shift=1000)
  if not passed:
    return 2, "the replay against a broker which only numbers its messages differently does not pass: %s" % text
  count = 2
  recorded = sum(1 for l in lines if l.startswith("OBSERVED"))
  if deviate and not result.startswith("exception") and "unread" not in result:
    if recorded != total:
      return count, "%d packets were sent in the replay, but %d recorded" % (total, recorded)
    for k in range(total):
      for what in ("drop", "change"):
        passed, text, s = replay_log(lines, **{what: k})
        count += 1
        if passed and s.changed:
          return count, "the replay passes against a broker which %s packet %d of %d" % ({"drop": "does not send", "change": "changes"}[what], k + 1, total)
  return count, None


def one(case):
  "in a process of its own, as the specification keeps its state in its module"
  spec_module()
  client.install()
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    try:
      os.close(r)
      try:
        res = child(case)
      except BaseException:
        res = ("", "exception: " + explore.traceback_text(), 1)
      with os.fdopen(w, "wb") as f:
        pickle.dump(res, f)
    finally:
      os._exit(0)
  os.close(w)
  try:
    with os.fdopen(r, "rb") as f:
      data = f.read()
  finally:
    try:
      os.kill(pid, signal.SIGKILL)
    except OSError:
      pass
    os.waitpid(pid, 0)
  if not data:
    return "", "the generator ends without a result", 1
  return pickle.loads(data)


# ---------------------------------------------------------------- cases
def S(**kw):
  return tuple(sorted(kw.items()))


def create():
  return ("socket_create", ())


def conn(s, cid="normal", clean=True):
  return ("connect", S(sockid=s, clientid=cid, cleansession=clean))


def sub(s, t, q):
  return ("subscribe", S(sockid=s, topics=(t,), qoss=(q,)))


def unsub(s, t):
  return ("unsubscribe", S(sockid=s, topics=(t,)))


def pub(s, t, q, payload=b"1", retained=False):
  return ("publish", S(sockid=s, topic=t, qos=q, payload=payload, retained=retained))


def close(s):
  return ("socket_close", S(sockid=s))


def disc(s):
  return ("disconnect", S(sockid=s))


def again(events, clean, cids):
  "symbolic steps to actions: connections get new numbers when they are made again"
  num = {}
  made = 0
  res = []
  for e in events:
    if e[0] == "open":
      num[e[1]] = made
      made += 1
      res += [create(), conn(num[e[1]], cids[e[1]], clean[e[1]])]
    elif e[0] == "other":
      res.append(close(num[e[1]]))
      num[e[1]] = made
      made += 1
      res += [create(), conn(num[e[1]], IDS[1] if cids[e[1]] != IDS[1] else IDS[3], clean[e[1]])]
    elif e[0] == "again":
      if not e[2]:
        res.append(disc(num[e[1]]))
      res.append(close(num[e[1]]))
      num[e[1]] = made
      made += 1
      res += [create(), conn(num[e[1]], cids[e[1]], clean[e[1]])]
    else:
      res.append(e[0](num[e[1]], *e[2:]))
  return tuple(res)


# while one connection is open another one which does nothing keeps the specification from restricting its choices
def one_connection(thorough):
  events = [(sub, 0, "TopicA", q) for q in (0, 1, 2)] + [(sub, 0, "#", 1), (unsub, 0, "TopicA"), ("again", 0, True), ("again", 0, False)] + \
           [(pub, 0, "TopicA", q, p, r) for q in (0, 1, 2) for r in (False, True) for p in ((b"1", b"") if r else (b"1",))]
  for late in (False, True):
    for clean in (True, False):
      for n in ((1, 2, 3) if thorough else (1, 2)):
        for seq in itertools.product(events, repeat=n):
          if late and not any(e[0] is pub and e[3] for e in seq):
            continue
          yield again((("open", 1), ("open", 0)) + seq + ((sub, 0, "+/+", 2), (sub, 0, "TopicA", 1)), (clean, True), ("normal", IDS[3])), late, n < 2


def two_connections(thorough):
  events = [(sub, 0, "TopicA", 1), (sub, 0, "#", 2), (sub, 1, "TopicA", 2), (unsub, 0, "TopicA"), ("again", 0, True), ("again", 0, False), ("other", 0),
            (pub, 1, "TopicA", 0), (pub, 1, "TopicA", 1), (pub, 1, "TopicA", 2, b"333", True), (pub, 0, "TopicA", 2)]
  for late in (False, True):
    for n in ((1, 2, 3, 4) if thorough else (1, 2, 3)):
      for seq in itertools.product(events, repeat=n):
        if not any(e[0] is pub for e in seq) or n > 2 and late and not any(e[0] == "again" for e in seq):
          continue
        yield again((("open", 1), ("open", 0)) + seq + ((pub, 1, "TopicA", 1),), (False, True), ("normal", IDS[2])), late, n < 3


def topics(thorough):
  for f in TOPICS + WILD:
    for q in (0, 1, 2):
      yield again((("open", 1), ("open", 0), (sub, 0, f, q)) + tuple((pub, 1, t, 2) for t in TOPICS), (True, True), ("normal", "")), False, q == 1
    yield again((("open", 1), ("open", 0)) + tuple((pub, 1, t, 1, b"1", True) for t in TOPICS) + ((sub, 0, f, 2),), (True, True), (IDS[3], "normal")), True, False
    yield again((("open", 1), ("open", 0), (sub, 0, f, 2), (sub, 0, "#", 1), (unsub, 0, "#"), (pub, 1, "TopicA", 1), (unsub, 0, f)) + tuple((pub, 1, t, 1) for t in TOPICS), (True, False), (IDS[3], "normal")), False, False
  for p in PAYLOADS:
    for q in (0, 1, 2):
      for late in (False, True):
        yield again((("open", 1), ("open", 0), (sub, 0, "TopicA", 2), (pub, 1, "TopicA", q, p, False), (pub, 1, "TopicA", q, p, True), (sub, 1, "TopicA", q)), (True, True), ("normal", "")), late, True


def order(thorough):
  "connects of all kinds, and actions before, or after, a connection"
  acts = [lambda s: conn(s), lambda s: conn(s, IDS[2], False), lambda s: sub(s, "TopicA", 1), lambda s: unsub(s, "TopicA"), lambda s: pub(s, "TopicA", 0), lambda s: pub(s, "TopicA", 1), lambda s: disc(s), lambda s: close(s)]
  for cid in IDS:
    for clean in (True, False):
      for a in acts:
        for late in (False, True):
          yield (create(), create(), conn(0, cid, clean), a(0), sub(1, "TopicA", 1)), late, False
          yield (create(), create(), conn(0, cid, clean), a(1), sub(0, "TopicA", 1), pub(0, "TopicA", 2)), late, True
  for a in acts:
    for b in acts:
      for c in acts:
        yield (create(), create(), a(0), b(0), c(0)), False, False
        yield (create(), create(), conn(0), a(0), b(0), c(1)), False, False
        yield (create(), a(0), b(0), create(), c(0)), False, False
  for s in (0, 1):
    for a in acts:
      yield (create(), a(s)), False, False


def tests_in_turn(thorough):
  "tests which end with an exception, and the next ones"
  fails = [conn(0, "normal", True), conn(0, "", False)]
  starts = [(create(), create(), conn(1)), (create(), create(), conn(1, "normal", False), sub(1, "#", 2), pub(1, "TopicA", 2, b"1", True)),
            (create(), create(), conn(1, IDS[2], False), sub(1, "TopicA", 1), pub(1, "TopicA", 1), pub(1, "TopicA", 0, b"1", True)),
            (create(), create(), conn(1), close(1), create(), conn(2, IDS[2], False), sub(2, "TopicA", 1))]
  nexts = [(create(), conn(0, "normal", False), create(), conn(1), sub(0, "TopicA", 1), pub(1, "TopicA", 2)),
           (create(), conn(0, IDS[2], False), create(), pub(0, "TopicA", 1), sub(0, "#", 2), conn(1, IDS[2])),
           (create(), conn(0), create(), conn(1, "normal", False), sub(1, "#", 2), pub(1, "TopicA", 2, b"333"), close(1), create(), conn(2, "normal", False))]
  for first in starts:
    for f in fails:
      for g in (conn(0), sub(0, "#", 1), disc(0)):
        for nx in nexts:
          for late in (False, True):
            yield (first + (f, g, conn(0), conn(0), conn(0)), nx), late, len(first) == 3 and g == conn(0)
            yield (first + (f, g, conn(0), conn(0), conn(0)), nx + (sub(0, "+/+", 0), conn(0), conn(0)), (create(), sub(0, "#", 2), conn(0))), late, False


def single(cases):
  return lambda thorough: (((steps,), late, deviate) for steps, late, deviate in cases(thorough))


PARTS = {"one connection": (single(one_connection), one), "two connections": (single(two_connections), one), "topics and payloads": (single(topics), one),
         "connects and order": (single(order), one), "one test after another": (tests_in_turn, one)}


def run(ctx):
  for name, (cases, fn) in PARTS.items():
    enumr.enumerate_all(ctx, name, cases(not ctx.quick), fn, chunk=16)


def replay(what):
  o, e, n = one(what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
