"""Starts the server as its main program does - mqtt.brokers.start.run - with the listeners replaced by records of what
they were asked for."""
import signal
from . import env

OPTION_LINES = {"receiveMaximum": "receive_maximum", "topicAliasMaximum": "topic_alias_maximum", "maximumPacketSize": "maximum_packet_size",
                "maximum_qos": "maximum_qos", "retain_available": "retain_available",
                "subscription_identifier_available": "subscription_identifier_available",
                "shared_subscription_available": "shared_subscription_available", "visual": "visual", "mscfile": "mscfile"}


class Listener:
  def __init__(self, kind, kw):
    self.kind, self.kw = kind, kw

  def shutdown(self):
    pass


def boot(config=None, while_serving=None):
  """runs start.run(config); returns (start module, [(kind, arguments)] of the listeners).
  while_serving(start) is called when the last listener is asked to serve"""
  import mqtt.brokers.start as start
  from mqtt.brokers.listeners import TCPListeners, UDPListeners, HTTPListeners
  created = []
  result = []
  ours = {}
  def stub(kind):
    def create(*args, **kw):
      for n, v in zip(("port", "host"), args):
        kw[n] = v
      created.append((kind, kw))
      if kw.get("serve_forever"):
        # the server is running now; run() stops the brokers when this returns, but they are still needed
        for b in (start.broker3, start.broker5, start.brokerSN):
          ours[b] = True
          b.shutdown = lambda: None
        if while_serving:
          result.append(while_serving(start))
      return Listener(kind, kw)
    return create
  mods = (("mqtt", TCPListeners), ("mqttsn", UDPListeners), ("http", HTTPListeners))
  saved = [(m, m.create) for k, m in mods]
  sig = signal.signal
  try:
    signal.signal = lambda *a: None
    for k, m in mods:
      m.create = stub(k)
    start.run(config)
  finally:
    signal.signal = sig
    for m, c in saved:
      m.create = c
    for b in ours:
      b.__dict__.pop("shutdown", None)
  return start, created


def lines(options, defaults):
  "the configuration which sets these options, or None if it cannot"
  res = []
  for k, v in options.items():
    if defaults.get(k) == v:
      continue
    if k not in OPTION_LINES:
      return None
    res.append("%s %s\n" % (OPTION_LINES[k], {True: "true", False: "false"}.get(v, v) if isinstance(v, bool) else v))
  return res + ["listener 1883\n"] if res else []
