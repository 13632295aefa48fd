"""Mutants which leave a statement out only under some condition on the state or the packet: condmut.mutants(text)
yields (k, line, what, new text, function name).  Used by campaign.py with COND=1"""
import ast, os
import mutate

G = 'getattr'
CONDS = {
  "packet": ["getattr(getattr(packet, 'fh', None), 'DUP', False)", "getattr(getattr(packet, 'fh', None), 'QoS', 0) == 2", "getattr(getattr(packet, 'fh', None), 'RETAIN', False)",
             "getattr(packet, 'data', 0) == b''", "getattr(packet, 'CleanStart', getattr(packet, 'CleanSession', False))", "getattr(packet, 'WillFlag', False)"],
  "pub": ["pub.fh.QoS == 2", "pub.fh.DUP", "pub.fh.RETAIN"],
  "topic": ["'/' in topic", "'$' in topic"], "aTopic": ["'/' in aTopic", "'$' in aTopic", "'+' in aTopic"],
  "qos": ["qos == 2", "qos == 0"], "retained": ["retained"], "willMessage": ["willMessage"],
  "sendWillMessage": ["sendWillMessage"], "reasonCode": ["reasonCode"],
  "MQTTClients": ["len(self.outbound) > 1", "len(getattr(self, 'queued', [])) > 1", "self.msgid > 2", "self.will", "len(self.inbound) > 0"],
  "MQTTBrokers": ["len(self.clients) > 2", "len(self.clients) == 1"],
  "sock": ["sock in self.clients and len(self.clients[sock].outbound) > 0", "sock in self.clients and len(self.clients[sock].inbound) > 0",
           "sock in self.clients and self.clients[sock].will", "sock in self.clients and self.clients[sock].keepalive > 5"],
  "Brokers": ["len(self._Brokers__clients) > 2", "any(not c.connected for c in self._Brokers__clients.values())"],
  "SubscriptionEngines": ["len(self._SubscriptionEngines__subscriptions) > 2", "len(self._SubscriptionEngines__retained) > 1"],
}

P = "getattr(packet, 'properties', None)"
CONDS2 = {
  "packet": ["(getattr(packet, 'packetIdentifier', None) or getattr(packet, 'messageIdentifier', None) or 0) > 255", "len(getattr(packet, 'data', None) or b'') > 127",
             "len(getattr(packet, 'data', None) or b'') == 3", "len(getattr(packet, 'ClientIdentifier', '')) > 23", "getattr(packet, 'KeepAliveTimer', 0) > 255",
             "getattr(%s, 'SessionExpiryInterval', 0) == 4294967295" % P, "hasattr(%s, 'UserProperty')" % P, "hasattr(%s, 'MessageExpiryInterval')" % P,
             "getattr(packet, 'WillRETAIN', 0)", "getattr(packet, 'WillQoS', 0) == 2", "'/' in str(getattr(packet, 'topicName', ''))", "getattr(packet, 'topicName', 'x')[:1] == '$'"],
  "pub": ["len(pub.data) > 127", "(getattr(pub, 'packetIdentifier', None) or getattr(pub, 'messageIdentifier', None) or 0) > 3", "hasattr(getattr(pub, 'properties', None), 'MessageExpiryInterval')"],
  "topic": ["len(str(topic)) > 12", "any(ord(x) > 127 for x in str(topic))", "str(topic).count('/') > 2", "'+' in str(topic)"],
  "aTopic": ["len(aTopic) > 12", "'#' in aTopic"],
  "message": ["len(message) > 127", "len(message) == 0"], "msg": ["len(msg) > 127", "qos == 1"], "properties": ["hasattr(properties, 'UserProperty')", "hasattr(properties, 'MessageExpiryInterval')"],
  "msgid": ["msgid > 2", "msgid > 255"],
  "MQTTClients": ["len(self.outbound) > 2", "self.msgid > 4", "len(self.inbound) > 1", "getattr(self, 'receiveMaximum', 0) == 1", "getattr(self, 'topicAliasMaximum', 0) > 0", "getattr(self, 'maximumPacketSize', 10**9) < 1000"],
  "sock": ["sock in self.clients and len(self.clients[sock].outbound) > 1", "sock in self.clients and getattr(self.clients[sock], 'sessionExpiryInterval', 0) == 4294967295",
           "sock in self.clients and getattr(self.clients[sock], 'topicAliasMaximum', 0) > 0", "sock in self.clients and self.clients[sock].keepalive > 255"],
  "Brokers": ["len(self._Brokers__clients) == 1", "sum(not c.connected for c in self._Brokers__clients.values()) > 1"],
  "SubscriptionEngines": ["len(self._SubscriptionEngines__subscriptions) > 4", "len(self._SubscriptionEngines__dollar_subscriptions) > 1", "len(self._SubscriptionEngines__dollar_retained) > 0"],
}
if os.environ.get("COND") == "2":
  CONDS = CONDS2


def sites(tree):
  res = []
  for cl in ast.walk(tree):
    if not isinstance(cl, (ast.ClassDef, ast.Module)):
      continue
    for fn in cl.body:
      if not isinstance(fn, ast.FunctionDef) or fn.name in ("__str__", "__repr__", "unit_tests", "__init__"):
        continue
      names = [a.arg for a in fn.args.args] + ([cl.name] if isinstance(cl, ast.ClassDef) else [])
      conds = [c for n in names for c in CONDS.get(n, []) if "self" not in c or names[0] == "self"]
      for n in ast.walk(fn):
        for field in ("body", "orelse", "finalbody"):
          b = getattr(n, field, None)
          if not isinstance(b, list):
            continue
          for k, st in enumerate(b):
            if mutate.is_log(st) or not isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Return, ast.Raise)):
              continue
            if isinstance(st, ast.Assign) and n is fn and k < 2 and isinstance(st.value, (ast.Constant, ast.List)):
              continue       # initial values of local variables
            for c in conds:
              if isinstance(n, ast.If) and any(w in ast.unparse(n.test) for w in (c,)):
                continue
              def f(b=b, k=k, st=st, c=c):
                b[k] = ast.If(test=ast.UnaryOp(ast.Not(), ast.parse(c, mode="eval").body), body=[st], orelse=[])
              res.append((st.lineno, "unless %s: %s" % (c, ast.unparse(st).split("\n")[0][:80]), f, fn.name))
  return res


def mutants(text):
  n = len(sites(ast.parse(text)))
  for k in range(n):
    tree = ast.parse(text)
    ln, what, f, fn = sites(tree)[k]
    f()
    ast.fix_missing_locations(tree)
    yield k, ln, what, ast.unparse(tree), fn


CHECKS = {
  "respond": "C16 C17 C09", "sendPub": "C15 C17 C09", "resendPub": "C09 C11 C15", "resend": "C09 C11 C12", "canSend": "C11 C09", "removeOutbound": "C11 C09", "sendFirst": "C09 C11 C06",
  "nextMsgid": "C09 C11", "sendQueued": "C11 C09", "publishArrived": "C06 C09 C31 C08", "puback": "C11 C09 C18", "pubrec": "C11 C09 C18", "pubcomp": "C11 C09 C18", "pubrel": "C10 C18",
  "handleRequest": "C20 C13 C17 C14", "handlePacket": "C20 C14 C13", "connect": "C12 C13 C14 C11 C15 C17 C20 C29", "disconnect": "C12 C13 C20", "subscribe": "C18 C08 C06 C19 C07",
  "unsubscribe": "C18 C06 C07", "publish": "C10 C06 C18 C15 C31 C08 C21", "keepalive": "C14 C13", "run": "C13 C12", "deliver": "C06 C07 C19 C21", "cleanSession": "C12", "endSession": "C12 C13",
  "expireSessions": "C12 C07", "setupWillMessage": "C13", "sendWillMessage": "C13", "useTopicAlias": "C15", "getAliasTopic": "C15", "__subscribe": "C06 C19 C12 C05", "__unsubscribe": "C18 C06 C07",
  "getSubscriptions": "C06 C21 C07", "setRetained": "C08 C21", "getRetained": "C08 C21", "getRetainedTopics": "C08 C21", "clearSubscriptions": "C12 C06", "reinitialize": "C30", "terminate": "C12 C13", "__doRetained__": "C08 C19 C21",
  "clearTopicAliases": "C15", "disconnectAll": "C30 C29", "shutdown": "C29"}
