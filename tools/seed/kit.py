# Drives the brokers of the current directory's interoperability folder in process, without the network.
import os, sys, threading, time, logging
sys.path.insert(0, os.path.join(os.getcwd(), "interoperability"))
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)
NOW = [1000.0]
time.monotonic = lambda: NOW[0]
threading.Thread.start = lambda self: None     # the clean up thread is not needed
from mqtt.brokers.V5 import MQTTBrokers as B5
from mqtt.brokers.V311 import MQTTBrokers as B3
from mqtt.formats import MQTTV5, MQTTV311

class Sock:
  websockets = False
  n = 10
  def __init__(self):
    Sock.n += 1; self.fd = Sock.n; self.inb = b""; self.eof = False; self.out = b""; self.closed = False
  def fileno(self): return self.fd
  def settimeout(self, t): pass
  def setsockopt(self, *a): pass
  def recv(self, n):
    if self.closed: raise OSError("closed")
    if not self.inb and not self.eof: raise TimeoutError("timed out")
    r, self.inb = self.inb[:n], self.inb[n:]
    return r
  def send(self, data):
    if self.closed: raise OSError("closed")
    self.out += bytes(data); return len(data)
  def sendall(self, data): self.send(data)
  def shutdown(self, how): pass
  def close(self): self.closed = True

OPT = {"visual": False, "persistence": False, "overlapping_single": True, "dropQoS0": True, "publish_on_pubrel": True,
       "zero_length_clientids": True, "topicAliasMaximum": 2, "maximumPacketSize": 2**28, "receiveMaximum": 20, "serverKeepAlive": 60}

class Server:
  def __init__(self, **o):
    opt = dict(OPT); opt.update(o)
    lock = threading.RLock(); shared = {}
    self.b3 = B3(options=opt.copy(), lock=lock, sharedData=shared)
    self.b5 = B5(options=opt.copy(), lock=lock, sharedData=shared)
    self.b3.setBroker5(self.b5); self.b5.setBroker3(self.b3)

class Client:
  def __init__(self, srv, cid, v=5, clean=True, keepalive=60, will=None, willdelay=None, **props):
    self.srv, self.v, self.cid = srv, v, cid
    self.M = MQTTV5 if v == 5 else MQTTV311
    self.b = srv.b5 if v == 5 else srv.b3
    self.s = Sock()
    p = self.M.Connects()
    p.ClientIdentifier = cid; p.KeepAliveTimer = keepalive
    if v == 5:
      p.CleanStart = clean
      for k, x in props.items(): setattr(p.properties, k, x)
    else: p.CleanSession = clean
    if will:
      p.WillFlag = True; p.WillTopic, p.WillMessage, p.WillQoS, p.WillRETAIN = will
      if willdelay is not None: p.WillProperties.WillDelayInterval = willdelay
    self.first = self.send(p)
    self.connack = self.first[0] if self.first else None
  def raw(self, data):
    self.s.inb += data
    while self.s.inb and not self.s.closed: self.b.handleRequest(self.s)
    return self.get()
  def send(self, p): return self.raw(p.pack())
  def get(self):
    "packets received since last asked"
    import io
    res = []
    while self.s.out:
      d = self.s.out; n = 0; m = 1; i = 1
      while 1:
        n += (d[i] & 127) * m; m *= 128; i += 1
        if not d[i-1] & 128: break
      one, self.s.out = d[:i+n], d[i+n:]
      if one[0] >> 4 == 3: res.append(Pub(one, i, self.v))
      else:
        res.append(Other(one, i, self.M))
    return res
  def pubs(self): return [(p.topic, p.data, p.qos) for p in self.get() if p.kind == 3]
  def sub(self, *filters, id=1, **props):
    if self.v == 5:
      p = MQTTV5.Subscribes(); p.packetIdentifier = id
      p.data = [(f[0], MQTTV5.SubscribeOptions(QoS=f[1], **(f[2] if len(f) > 2 else {}))) for f in filters]
      for k, x in props.items(): setattr(p.properties, k, x)
    else:
      p = MQTTV311.Subscribes(); p.messageIdentifier = id; p.data = [(f[0], f[1]) for f in filters]
    return self.send(p)
  def unsub(self, *filters, id=2):
    if self.v == 5:
      p = MQTTV5.Unsubscribes(); p.packetIdentifier = id; p.topicFilters = list(filters)
    else:
      p = MQTTV311.Unsubscribes(); p.messageIdentifier = id; p.data = list(filters)
    return self.send(p)
  def pub(self, topic, data, qos=0, retain=False, id=1, dup=False, **props):
    p = self.M.Publishes()
    p.topicName = topic; p.data = data; p.fh.QoS = qos; p.fh.RETAIN = retain; p.fh.DUP = dup
    if qos:
      if self.v == 5: p.packetIdentifier = id
      else: p.messageIdentifier = id
    for k, x in props.items(): setattr(p.properties, k, x)
    return self.send(p)
  def ack(self, kind, id):
    return self.raw(bytes([kind * 16 + (2 if kind == 6 else 0), 2]) + id.to_bytes(2, "big"))
  def ping(self): return self.raw(b"\xc0\x00")
  def disconnect(self): self.raw(b"\xe0\x00")
  def drop(self):
    self.s.eof = True; self.b.handleRequest(self.s)

class Other:
  def __init__(self, one, i, M):
    self.kind = one[0] >> 4
    self.packet = M.unpackPacket(one, *((2**28,) if M is MQTTV5 else ()))
    self.id = int.from_bytes(one[i:i+2], "big") if self.kind in (4, 5, 6, 7, 9, 11) else None

class Pub:
  kind = 3
  def __init__(self, one, i, v):
    self.qos = one[0] >> 1 & 3; self.dup = bool(one[0] & 8); self.retain = one[0] & 1
    n = int.from_bytes(one[i:i+2], "big"); self.topic = one[i+2:i+2+n].decode(); i += 2 + n
    self.id = None
    if self.qos: self.id = int.from_bytes(one[i:i+2], "big"); i += 2
    self.props = None
    if v == 5:
      q = MQTTV5.Publishes(); q.unpack(one, 2**28); self.props = q.properties
      n = 0; m = 1
      while 1:
        n += (one[i] & 127) * m; m *= 128; i += 1
        if not one[i-1] & 128: break
      i += n
    self.data = one[i:]

def check(cond, what):
  if not cond:
    print("FAILED:", what); sys.stdout.flush(); os._exit(1)
def done():
  print("ok"); sys.stdout.flush(); os._exit(0)
