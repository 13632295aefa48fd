"""Reference model of the combined MQTT 3.1.1 / 5.0 broker, written from the specifications.

The model is stepped with the same client action as the implementation and then *reconciled*
with what the implementation sent: every packet the implementation sent must be explained by the
model and everything the model requires must have been sent.  Where the specifications leave the
server a choice the reconciliation accepts every permitted answer and continues from the one
observed.  ``Mismatch`` is a property violation.
"""
import copy
from . import topicref


class Mismatch(Exception):
  pass


class Msg:
  __slots__ = ("topic", "payload", "qos", "retain", "props", "deadline", "pub")

  def __init__(self, topic, payload, qos, retain, props=(), deadline=None, pub=None):
    self.topic, self.payload, self.qos, self.retain = topic, payload, qos, retain
    self.props, self.deadline, self.pub = tuple(props), deadline, pub

  def __deepcopy__(self, memo):
    return self            # immutable


class Entry:
  "one message on its way to one session"
  __slots__ = ("msg", "qos", "retset", "subids", "group", "state", "id", "must", "later", "sent")

  def __init__(self, msg, qos, retset, subids, group):
    self.msg, self.qos, self.retset, self.subids, self.group = msg, qos, frozenset(retset), tuple(sorted(subids)), group
    self.state, self.id, self.must, self.later = "Q", None, True, False
    self.sent = False      # transmitted on the current connection


class Sub:
  __slots__ = ("qos", "nl", "rap", "rh", "subid")

  def __init__(self, qos, nl=False, rap=False, rh=0, subid=None):
    self.qos, self.nl, self.rap, self.rh, self.subid = qos, nl, rap, rh, subid


class Session:
  def __init__(self, cid, ver):
    self.cid, self.ver = cid, ver
    self.conn = None
    self.clean3 = True
    self.expiry = 0
    self.ended = None
    self.subs = {}
    self.out = []          # Entry, in order
    self.inbound = {}      # QoS 2 packet id -> Msg (publish_on_pubrel) or None
    self.spoiled = set()   # QoS 2 packet ids whose PUBCOMP is to report an error
    self.will = None       # (Msg, delay)
    self.will_due = None
    self.keepalive = 0
    self.last = None
    self.recv_max = 65535
    self.max_packet = None
    self.alias_in = {}
    self.alias_out = {}    # alias -> topic, as announced by the server on this connection
    self.alias_out_max = 0
    self.fresh = False


# reason codes with which a server can disconnect a client
DISCONNECTS = frozenset([0, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151, 152, 153, 154, 155,
                         156, 157, 158, 159, 160, 161, 162])


def user(props):
  return tuple((k, v) for k, v in props if k == 38)


# property ids the server forwards with an application message, unchanged and in order
FORWARD = (1, 3, 8, 9, 38)


class Model:
  def __init__(self, opts):
    self.o = opts
    self.now = 0.0
    self.sessions = {}     # clientid -> Session
    self.conns = {}        # connection name -> clientid
    self.retained = {}     # topic -> Msg
    self.group = 0
    self.pending_wills = {}   # clientid -> (due, Msg) of sessions whose connection is gone
    self.exp = {}

  # ------------------------------------------------------------------ expectations
  def begin(self):
    self.exp = {}
    self.group += 1

  def e(self, conn):
    if conn not in self.exp:
      self.exp[conn] = {"connack": None, "acks": [], "resend": False, "disc": None, "closed": False,
                        "connack_fail": None, "cid": None, "discprops": None}
    return self.exp[conn]

  # ------------------------------------------------------------------ message distribution
  def recipients(self, topic, publisher, pick):
    """[(session, qos, set of allowed 'retain' multipliers, subids, shared)]"""
    res = []
    groups = {}
    for s in list(self.sessions.values()):
      if self.expired(s):
        continue
      subs = []
      for f, sub in s.subs.items():
        sh = topicref.share_of(f) if s.ver == 5 else None
        if sh:
          if topicref.subscribed(sh[1], topic):
            groups.setdefault(f, []).append((s, sub))
        elif topicref.subscribed(f, topic):
          subs.append(sub)
      ok = [x for x in subs if not (x.nl and s.cid == publisher)]
      if not ok:
        continue
      if self.o["overlapping_single"]:
        res.append((s, max(x.qos for x in ok), set(x.rap for x in ok), [x.subid for x in ok if x.subid]))
      else:
        for x in ok:
          res.append((s, x.qos, {x.rap}, [x.subid] if x.subid else []))
    for f in sorted(groups):
      members = groups[f]
      s, x = members[pick(len(members))]
      res.append((s, x.qos, {x.rap}, [x.subid] if x.subid else []))
    return res

  def expired(self, s):
    return s.ver == 5 and s.conn is None and s.ended is not None and self.now > s.ended + s.expiry

  def distribute(self, msg, publisher, pick):
    if msg.retain:
      if msg.payload == b"":
        self.retained.pop(msg.topic, None)
      else:
        self.retained[msg.topic] = msg
    rec = self.recipients(msg.topic, publisher, pick)
    for s, q, raps, subids in rec:
      ret = set((msg.retain and r) for r in raps) if s.ver == 5 else {False}
      self.enqueue(s, Entry(msg, min(q, msg.qos), ret, subids, self.group))
    return len(rec)

  def anyone(self, topic, publisher):
    "is there a live subscription that receives the topic"
    for s in self.sessions.values():
      if self.expired(s):
        continue
      for f, sub in s.subs.items():
        sh = topicref.share_of(f)
        if topicref.subscribed(sh[1] if sh else f, topic) and not (sub.nl and s.cid == publisher):
          return True
    return False

  def enqueue(self, s, ent):
    if ent.qos == 0:
      if s.conn is None:
        if self.o["dropQoS0"]:
          return
      else:
        if self.inflight(s) >= s.recv_max or any(x.state == "Q" and x.qos for x in s.out):
          ent.must = False     # the window is full: at most once delivery may drop it
          ent.later = not self.o["dropQoS0"]
    s.out.append(ent)

  def inflight(self, s):
    "everything unacknowledged: an implementation may hold back new messages once this reaches Receive Maximum"
    return sum(1 for x in s.out if x.state in "PR")

  def on_wire(self, s):
    "unacknowledged PUBLISHes of this connection: must never exceed Receive Maximum"
    return sum(1 for x in s.out if x.state in "PR" and x.sent)

  # ------------------------------------------------------------------ connection life cycle
  def drop_session(self, s, pick):
    if self.sessions.get(s.cid) is s:
      del self.sessions[s.cid]

  def close(self, conn, will, pick, disc=None):
    """the connection ends; disc: set of acceptable reason codes of a server DISCONNECT (None: there
    may be none)"""
    x = self.e(conn)
    x["closed"] = True
    if disc is not None:
      x["disc"] = disc
    cid = self.conns.pop(conn, None)
    if cid is None:
      return
    x["cid"] = cid
    s = self.sessions[cid]
    for y in s.out:
      y.sent = False
    w, s.will = s.will, None
    s.conn = None
    s.alias_in, s.alias_out = {}, {}
    if will and w is not None:
      msg, delay = w
      delay = min(delay, s.expiry) if s.ver == 5 else 0
      if delay > 0:
        self.pending_wills[cid] = (self.now + delay, msg)
      else:
        self.send_will(cid, msg, pick)
    if (s.ver == 3 and s.clean3) or (s.ver == 5 and s.expiry == 0):
      self.drop_session(s, pick)
    else:
      s.ended = self.now

  def send_will(self, cid, msg, pick):
    m = Msg(msg.topic, msg.payload, msg.qos, msg.retain, msg.props,
            None if msg.deadline is None else self.now + msg.deadline, cid)
    self.group += 1
    self.distribute(m, cid, pick)

  def connect(self, conn, ver, p, pick, assigned=None):
    """p: dict(clientid, clean, keepalive, expiry, recv_max, max_packet, alias_max, will)"""
    cid = p["clientid"]
    x = self.e(conn)
    if conn in self.conns:
      # a second CONNECT is a protocol error
      self.close(conn, True, pick, disc=ERR)
      return
    if cid == "":
      if ver == 3 and (not p["clean"] or not self.o["zero_length_clientids"]):
        x["connack_fail"] = {2}
        x["closed"] = True
        return
      cid = assigned
    old = self.sessions.get(cid)
    if old is not None and old.conn is not None:
      self.close(old.conn, True, pick, disc={142} if old.ver == 5 else None)
      old = self.sessions.get(cid)
    if old is not None and (p["clean"] or self.expired(old)):
      pw = self.pending_wills.pop(cid, None)
      if pw is not None:
        self.send_will(cid, pw[1], pick)     # the session ends before the delay has passed
      del self.sessions[cid]
      old = None
    self.pending_wills.pop(cid, None)
    s = old
    sp = s is not None
    if s is None:
      s = Session(cid, ver)
      self.sessions[cid] = s
    s.ver = ver
    s.conn = conn
    s.ended = None
    s.clean3 = p["clean"]
    s.expiry = p.get("expiry", 0)
    s.recv_max = p.get("recv_max", 65535) if ver == 5 else 65535
    s.max_packet = p.get("max_packet")
    s.alias_out_max = p.get("alias_max", 0)
    s.alias_in, s.alias_out = {}, {}
    ka = p.get("keepalive", 0)
    props = {}
    if ver == 5:
      if ka > 0 and self.o["serverKeepAlive"] < ka:
        ka = self.o["serverKeepAlive"]
        props[19] = ka
      if self.o["topicAliasMaximum"] > 0:
        props[34] = self.o["topicAliasMaximum"]
      if self.o["maximumPacketSize"] < 2**28 - 1:
        props[39] = self.o["maximumPacketSize"]
      if self.o["receiveMaximum"] < 65535:
        props[33] = self.o["receiveMaximum"]
      if p["clientid"] == "":
        props[18] = cid
    s.keepalive = ka
    s.last = self.now
    w = p.get("will")
    if w:
      m = Msg(w["topic"], w["payload"], w["qos"], w["retain"],
              [q for q in w.get("props", []) if q[0] in FORWARD],
              dict(w.get("props", [])).get(2), cid)
      s.will = (m, dict(w.get("props", [])).get(24, 0))
    else:
      s.will = None
    self.conns[conn] = cid
    x["connack"] = (sp, props)
    x["resend"] = True
    s.fresh = True

  # ------------------------------------------------------------------ client packets
  def touch(self, conn):
    if conn in self.conns:
      self.sessions[self.conns[conn]].last = self.now

  def sess(self, conn):
    return self.sessions[self.conns[conn]]

  def subscribe(self, conn, pid, filters, subid=None, props=()):
    """filters: [(filter, Sub)]"""
    s = self.sess(conn)
    codes = []
    for f, sub in filters:
      if f == "test/nosubscribe":
        codes.append({128})
        continue
      if f == "test/QoS 1 only":
        sub.qos = min(1, sub.qos)
      elif f == "test/QoS 0 only":
        sub.qos = 0
      codes.append({sub.qos})
      existed = f in s.subs
      sub.subid = subid
      s.subs[f] = sub
      if topicref.share_of(f):
        continue
      if sub.rh == 2 or (sub.rh == 1 and existed):
        continue
      for t, m in self.retained.items():
        if topicref.subscribed(f, t):
          ids = [subid] if subid else []
          self.enqueue(s, Entry(m, min(m.qos, sub.qos), {True}, ids, self.group))
    self.e(conn)["acks"].append(("SUBACK", pid, codes, user(props)))
    self.touch(conn)

  def unsubscribe(self, conn, pid, filters, props=()):
    s = self.sess(conn)
    codes = []
    for f in filters:
      codes.append({0} if f in s.subs else {17})
      s.subs.pop(f, None)
    self.e(conn)["acks"].append(("UNSUBACK", pid, codes if s.ver == 5 else None, user(props)))
    self.touch(conn)

  def publish(self, conn, topic, payload, qos, retain, pid, dup, props, pick):
    s = self.sess(conn)
    pd = dict(props)
    new2 = qos == 2 and pid not in s.inbound
    if s.ver == 5 and topic.startswith("cmd/"):
      self.command(conn, topic, payload, pick)
      return
    if s.ver == 5:
      if qos > 0 and len(s.inbound) >= self.o["receiveMaximum"] and (qos == 1 or new2):
        self.close(conn, True, pick, disc={147})
        return
      if 35 in pd:
        a = pd[35]
        if a == 0 or a > self.o["topicAliasMaximum"] or (topic == "" and a not in s.alias_in):
          self.close(conn, True, pick, disc={148, 130})
          return
        if topic == "":
          topic = s.alias_in[a]
        else:
          s.alias_in[a] = topic
      elif topic == "":
        self.close(conn, True, pick, disc=ERR)
        return
    msg = Msg(topic, payload, qos, retain, [q for q in props if q[0] in FORWARD],
              self.now + pd[2] if 2 in pd else None, s.cid)
    any_ = self.anyone(topic, s.cid)
    if qos == 0:
      self.distribute(msg, s.cid, pick)
    elif qos == 1:
      self.distribute(msg, s.cid, pick)
      if s.ver == 5 and topic == "test_qos_1_2_errors":
        self.e(conn)["acks"].append(("PUBACK", pid, {135}, user(props)))
      else:
        self.e(conn)["acks"].append(("PUBACK", pid, {0} if any_ else {0, 16}))
    elif s.ver == 5 and topic == "test_qos_1_2_errors":
      s.inbound.pop(pid, None)       # a QoS 2 exchange refused with PUBREC is over
      if new2 and not self.o["publish_on_pubrel"]:
        self.distribute(msg, s.cid, pick)
      self.e(conn)["acks"].append(("PUBREC", pid, {135}, user(props)))
    else:
      if new2:
        if s.ver == 5 and topic == "test_qos_1_2_errors_pubcomp":
          s.spoiled.add(pid)
        if self.o["publish_on_pubrel"]:
          s.inbound[pid] = msg
        else:
          s.inbound[pid] = None
          self.distribute(msg, s.cid, pick)
      self.e(conn)["acks"].append(("PUBREC", pid, {0} if (any_ and new2) else {0, 16}))
    self.touch(conn)

  def command(self, conn, topic, payload, pick):
    "MQTT 5.0 test hook: a publication that asks the server to do something"
    try:
      rc = int(payload)
    except ValueError:
      rc = None
    if topic == "cmd/disconnectWithRC" and rc in DISCONNECTS:
      self.e(conn)["discprops"] = {31: ["This is a custom Reason String"], 28: ["tcp://localhost:1883"], 38: [("key", "value")]}
      self.close(conn, False, pick, disc={rc})
    else:
      self.close(conn, True, pick, disc=ERR)

  def pubrel(self, conn, pid, pick, props=()):
    s = self.sess(conn)
    extra = ()
    if pid in s.inbound:
      m = s.inbound.pop(pid)
      if m is not None:
        self.distribute(m, s.cid, pick)
      rc = {0}
      if pid in s.spoiled:
        s.spoiled.discard(pid)
        rc = {146}
        extra = user(props)
    else:
      rc = {0, 146} if s.ver == 5 else {0}
      if s.ver == 5:
        rc = {146}
    self.e(conn)["acks"].append(("PUBCOMP", pid, rc, extra))
    self.touch(conn)

  def find(self, s, pid):
    for x in s.out:
      if x.id == pid and x.state in "PR":
        return x

  def puback(self, conn, pid):
    s = self.sess(conn)
    x = self.find(s, pid)
    if x is not None and x.qos == 1:
      s.out.remove(x)
    self.touch(conn)

  def pubrec(self, conn, pid, rc=0):
    s = self.sess(conn)
    x = self.find(s, pid)
    if x is not None and x.qos == 2 and x.state == "P":
      if rc >= 128:
        s.out.remove(x)
      else:
        x.state = "R"
        self.e(conn)["acks"].append(("PUBREL", pid, {0}))
    elif x is not None and x.qos == 2 and x.state == "R":
      # a repeated PUBREC: answering with PUBREL again, or with nothing
      self.e(conn)["acks"].append(("PUBREL?", pid, {0}))
    else:
      self.e(conn)["acks"].append(("PUBREL?", pid, {0, 146}))
    self.touch(conn)

  def pubcomp(self, conn, pid):
    s = self.sess(conn)
    x = self.find(s, pid)
    if x is not None and x.qos == 2 and x.state == "R":
      s.out.remove(x)
    self.touch(conn)

  def ping(self, conn):
    self.e(conn)["acks"].append(("PINGRESP", None, None))
    self.touch(conn)

  def disconnect(self, conn, rc, props, pick):
    s = self.sess(conn)
    if s.ver == 5:
      pd = dict(props)
      if 17 in pd:
        if s.expiry == 0 and pd[17] > 0:
          self.close(conn, True, pick, disc=ERR)
          return
        s.expiry = pd[17]
    self.close(conn, rc == 4, pick)

  def bad(self, conn, pick, codes=None):
    "malformed packet or protocol error on an established connection (or before CONNECT)"
    s = self.conns.get(conn)
    ver = self.sessions[s].ver if s else None
    if s is None:
      x = self.e(conn)
      x["closed"] = True
      x["connack_fail"] = "any"
      x["disc"] = ERR
      return
    self.close(conn, True, pick, disc=(codes or ERR) if ver == 5 else None)

  def tick(self, dt, pick, base):
    self.now += dt
    for cid in sorted(self.pending_wills):
      due, msg = self.pending_wills[cid]
      if self.now >= due:
        del self.pending_wills[cid]
        self.send_will(cid, msg, pick)
    for conn, cid in list(self.conns.items()):
      s = self.sessions[cid]
      if s.keepalive > 0 and self.now - s.last > 1.5 * s.keepalive:
        self.close(conn, True, pick, disc={141, None})

  # ------------------------------------------------------------------ reconciliation
  def reconcile(self, seen, closed, open_conns):
    """seen: conn -> list of decoded packets sent by the implementation in this step;
    closed: set of connections the implementation closed in this step"""
    for conn in set(seen) | set(self.exp) | set(open_conns):
      self._reconcile(conn, list(seen.get(conn, [])), conn in closed)
    # messages that are no longer deliverable
    for s in self.sessions.values():
      keep = []
      for x in s.out:
        if x.state == "Q" and x.qos == 0 and s.conn is not None and not x.later:
          continue
        keep.append(x)
      s.out = keep

  def _reconcile(self, conn, pkts, closed):
    x = self.exp.get(conn) or self.e(conn)
    if x["closed"] != closed:
      raise Mismatch("connection %s was %sclosed by the broker" % (conn, "" if closed else "not "))
    cid = self.conns.get(conn)
    s = self.sessions[cid] if cid is not None else None
    if x["connack_fail"] is not None:
      self._failed_connect(conn, x, pkts)
      return
    if s is None:
      # dying connection: only a DISCONNECT (5.0), plus anything already due to it
      for p in pkts:
        if p["type"] == "DISCONNECT":
          if x["disc"] is None or p["rc"] not in x["disc"]:
            raise Mismatch("unexpected DISCONNECT reason %r to %s" % (p["rc"], conn))
          for k, v in (x["discprops"] or {}).items():
            if [b for a, b in p["props"] if a == k] != v:
              raise Mismatch("DISCONNECT to %s has properties %r" % (conn, p["props"]))
        elif p["type"] in ("CONNACK", "SUBACK", "UNSUBACK", "PINGRESP"):
          raise Mismatch("%s sent to closing connection %s" % (p["type"], conn))
      n = sum(1 for p in pkts if p["type"] == "DISCONNECT")
      if n > 1 or (n and pkts[-1]["type"] != "DISCONNECT"):
        raise Mismatch("packets after DISCONNECT on %s" % conn)
      if x["disc"] is not None and None not in x["disc"] and n == 0:
        raise Mismatch("no DISCONNECT sent to %s" % conn)
      s = self.sessions.get(x["cid"])
      if s is not None and s.conn is None:
        # messages written to the connection while it was being closed count as sent
        for p in pkts:
          if p["type"] == "PUBLISH" and p["qos"]:
            for y in s.out:
              if y.state == "Q" and y.qos == p["qos"] and y.msg.payload == p["payload"]:
                y.state, y.id = "P", p["id"]
                break
      return
    # --- CONNACK
    if x["connack"] is not None:
      sp, props = x["connack"]
      if not pkts or pkts[0]["type"] != "CONNACK":
        raise Mismatch("CONNACK is not the first packet on %s" % conn)
      p = pkts.pop(0)
      if p["rc"] != 0 or p["sp"] != sp:
        raise Mismatch("CONNACK %r on %s, session present should be %r" % (p, conn, sp))
      if s.ver == 5:
        got = dict(p["props"])
        for k in (18, 19, 33, 34, 39):
          if got.get(k) != props.get(k):
            raise Mismatch("CONNACK property %d is %r, should be %r" % (k, got.get(k), props.get(k)))
    # --- acknowledgements
    want = list(x["acks"])
    pubs = []
    rels = []
    for p in pkts:
      t = p["type"]
      if t == "PUBLISH":
        pubs.append(p)
      elif t == "PUBREL" and x["resend"]:
        rels.append(p)
      else:
        while want and want[0][0] == "PUBREL?" and (t != "PUBREL" or p.get("id") != want[0][1]):
          want.pop(0)
        if not want:
          raise Mismatch("unexpected %r on %s" % (p, conn))
        kind, pid, rc, extra = (want.pop(0) + ((),))[:4]
        kind = kind.rstrip("?")
        if t != kind or p.get("id") != pid:
          raise Mismatch("got %r on %s, expected %s %r" % (p, conn, kind, pid))
        if t == "SUBACK" or (t == "UNSUBACK" and s.ver == 5):
          if len(p["codes"]) != len(rc) or any(c not in r for c, r in zip(p["codes"], rc)):
            raise Mismatch("%s codes %r, expected %r" % (t, p["codes"], rc))
        elif s.ver == 5 and rc is not None and p.get("rc", 0) not in rc:
          raise Mismatch("%s reason %r, expected %r" % (t, p.get("rc"), rc))
        if s.ver == 5 and extra and tuple(q for q in p.get("props", ()) if q[0] == 38) != extra and not s.max_packet:
          raise Mismatch("%s on %s has properties %r, expected %r" % (t, conn, p.get("props"), extra))
    if [w for w in want if w[0] != "PUBREL?"]:
      raise Mismatch("missing %r on %s" % (want, conn))
    # --- resent PUBRELs
    if x["resend"]:
      due = [y.id for y in s.out if y.state == "R"]
      if sorted(p["id"] for p in rels) != sorted(due):
        raise Mismatch("PUBREL resent for %r on %s, should be %r" % ([p["id"] for p in rels], conn, due))
    # --- PUBLISH stream
    for p in pubs:
      self._publish(s, p, conn)
    for y in [y for y in s.out if y.state == "P" and not y.sent]:
      if self._optional(s, y):
        s.out.remove(y)
      elif sum(1 for z in s.out if z.state == "R" or (z.state == "P" and z.sent)) < s.recv_max:
        raise Mismatch("unacknowledged message %r (id %r) was not redelivered to %s" % (y.msg.payload, y.id, s.cid))
    # --- what must have been sent by now
    for y in list(s.out):
      if y.state != "Q":
        continue
      if y.qos > 0 and self.inflight(s) >= s.recv_max:
        if self._dead(s, y):
          y.must = False       # discarded now or when its turn comes
        continue
      if self._dead(s, y) or (y.qos > 0 and not y.must):
        s.out.remove(y)
        continue
      if not y.must:
        continue
      raise Mismatch("message %r on %r was not delivered to %s" % (y.msg.payload, y.msg.topic, s.cid))

  def _failed_connect(self, conn, x, pkts):
    want = x["connack_fail"]
    if len(pkts) > 1:
      raise Mismatch("more than one packet on failed connection %s: %r" % (conn, pkts))
    if want == "any":
      if pkts and not (pkts[0]["type"] == "CONNACK" and pkts[0]["rc"] != 0 and not pkts[0]["sp"]):
        raise Mismatch("rejected connection %s got %r" % (conn, pkts))
      return
    if len(pkts) != 1 or pkts[0]["type"] != "CONNACK" or pkts[0]["rc"] not in want or pkts[0]["sp"]:
      raise Mismatch("rejected connection %s got %r, expected CONNACK %r" % (conn, pkts, want))

  def _dead(self, s, y):
    # a 3.1.1 client may or may not be given a 5.0 message that has expired
    return (y.msg.deadline is not None and self.now >= y.msg.deadline) or self._too_big(s, y)

  def _too_big(self, s, y):
    if s.ver != 5 or not s.max_packet:
      return False
    from . import wire
    p = self._wire(s, y)
    n = len(wire.encode(5, p))
    # with a topic alias the packet may be up to 3 bytes longer or a topic shorter
    if s.alias_out_max:
      return n > s.max_packet + 3
    return n > s.max_packet

  def _maybe_big(self, s, y):
    if s.ver != 5 or not s.max_packet or not s.alias_out_max:
      return False
    from . import wire
    return len(wire.encode(5, self._wire(s, y))) + 3 > s.max_packet

  def _wire(self, s, y):
    props = list(y.msg.props)
    if y.msg.deadline is not None:
      props.append((2, 1))
    for i in y.subids:
      props.append((11, i))
    return {"type": "PUBLISH", "qos": y.qos, "id": 1, "topic": y.msg.topic, "payload": y.msg.payload, "props": props}

  def _topic(self, s, p):
    if s.ver != 5:
      return p["topic"]
    d = dict(p["props"])
    if 35 in d:
      a = d[35]
      if not 1 <= a <= s.alias_out_max:
        raise Mismatch("topic alias %d sent to %s whose maximum is %d" % (a, s.cid, s.alias_out_max))
      if p["topic"]:
        s.alias_out[a] = p["topic"]
      elif a not in s.alias_out:
        raise Mismatch("topic alias %d used before it was given a topic, to %s" % (a, s.cid))
      return s.alias_out[a]
    if not p["topic"]:
      raise Mismatch("PUBLISH without topic to %s" % s.cid)
    return p["topic"]

  def _optional(self, s, y):
    "an unacknowledged message the server may give up: it has expired, or does not fit the new connection"
    return s.ver == 5 and ((y.msg.deadline is not None and self.now >= y.msg.deadline) or self._too_big(s, y))

  def _publish(self, s, p, conn):
    topic = self._topic(s, p)
    if p["qos"] and self.on_wire(s) >= s.recv_max:
      raise Mismatch("Receive Maximum %d of %s exceeded" % (s.recv_max, s.cid))
    pend = [y for y in s.out if y.state == "P" and not y.sent]
    if p["qos"] and p["dup"]:
      while pend:
        y = pend.pop(0)
        if y.id == p["id"]:
          why = self._same(s, y, p, topic)
          if why:
            raise Mismatch("redelivery to %s: %s" % (s.cid, why))
          y.sent = True
          return
        if not self._optional(s, y):
          break
      raise Mismatch("unexpected or out of order redelivery of id %r to %s" % (p["id"], s.cid))
    grp = None
    whys = []
    for y in s.out:
      if y.state != "Q" or (y.qos == 0) != (p["qos"] == 0):
        continue
      if grp is not None and y.group != grp:
        break
      why = self._same(s, y, p, topic)
      if why is None:
        if p["qos"]:
          if any(z.id == p["id"] and z.state in "PR" for z in s.out):
            raise Mismatch("packet id %d is already in use to %s" % (p["id"], s.cid))
          if any(not self._optional(s, z) for z in pend):
            raise Mismatch("new message sent to %s before the redeliveries" % s.cid)
          y.state, y.id, y.sent = "P", p["id"], True
        else:
          s.out.remove(y)
        return
      whys.append(why)
      if not self._dead(s, y) and y.must and not self._maybe_big(s, y):
        grp = y.group
    raise Mismatch("PUBLISH to %s cannot be explained: topic %r payload %r qos %d retain %r props %r (%s)" %
                   (s.cid, topic, p["payload"][:40], p["qos"], p["retain"], p.get("props"), "; ".join(whys) or "nothing due"))

  def _same(self, s, y, p, topic):
    m = y.msg
    if topic != m.topic:
      return "topic is not %r" % m.topic
    if p["payload"] != m.payload:
      return "payload is not %r" % m.payload
    if p["qos"] != y.qos:
      return "QoS is not %d" % y.qos
    if p["retain"] not in y.retset:
      return "retain is not in %r" % sorted(y.retset)
    if s.ver == 5:
      if m.deadline is not None and self.now > m.deadline and y.state == "Q":
        return "message has expired"
      fwd = [q for q in p["props"] if q[0] in FORWARD and q[0] != 38]
      ups = [q for q in p["props"] if q[0] == 38]
      if sorted(fwd) != sorted(q for q in m.props if q[0] != 38) or ups != [q for q in m.props if q[0] == 38]:
        return "forwarded properties are not %r" % (m.props,)
      if tuple(sorted(v for i, v in p["props"] if i == 11)) != y.subids:
        return "subscription identifiers are not %r" % (y.subids,)
      exp = [v for i, v in p["props"] if i == 2]
      if m.deadline is None:
        if exp:
          return "message expiry interval added"
      else:
        left = m.deadline - self.now
        if len(exp) != 1 or not (left - 1.0 <= exp[0] <= left + 1.0):
          return "message expiry interval is %r, %.1f s are left" % (exp, left)
      extra = [q for q in p["props"] if q[0] not in FORWARD + (2, 11, 35)]
      if extra:
        return "extra properties %r" % extra
    if p["qos"]:
      if y.state == "Q" and p["dup"]:
        return "DUP set on first delivery"
      if y.state == "P" and not p["dup"]:
        return "DUP not set on redelivery"
    return None


# acceptable reason codes of the DISCONNECT sent for a malformed packet or a protocol error
ERR = frozenset([128, 129, 130, 131, 143, 144, 147, 148, 149, 151, 153, 154, 155, 161, 162, 158])
