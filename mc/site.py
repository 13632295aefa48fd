"""The whole server as its main program starts it, with real listeners whose sockets are never bound.

A Site runs start.run or start.main.  Binding, listening, accepting and shutting down of the socketserver classes are replaced by records;
when a listener is asked to serve by the main program, the callback gets control.
"""
import os, signal, socketserver, http.server, ssl, threading, sys, io
from . import env, conn, wire
from .env import Env

REALS = {}


class Site:
  def __init__(self, how, serving=None):
    """how: ("run", config lines or None) or ("main", arguments); serving(site) is called when the main program serves"""
    Env.reset()
    import mqtt.brokers.start as start
    from mqtt.brokers.listeners import TCPListeners
    self.start, self.L = start, TCPListeners
    self.servers = []      # in order of their creation
    self.log = []          # (event, server)
    self.fore = None       # the one the main program serves
    self.back = []         # those served by threads
    self.in_thread = False
    self.serving = serving
    self.result = None
    self.ending = None     # how the serving ends: an exception, if not with a return
    self.exit = None
    self.dbs = []
    self.sockets = []
    saved = self.patch()
    try:
      try:
        if how[0] == "run":
          start.run(how[1])
        else:
          start.main(["startbroker.py"] + list(how[1]))
      except SystemExit as e:
        self.exit = e.code
    finally:
      self.unpatch(saved)
      for s in self.sockets:
        try:
          s.close()
        except Exception:
          pass
      for s in self.servers:
        try:
          s.socket.close()
        except Exception:
          pass
      Env.active = False

  def patch(self):
    site = self
    def bind(server):
      site.log.append(("bind", server))
      if isinstance(server, http.server.HTTPServer):
        server.server_name, server.server_port = server.server_address[0], server.server_address[1]
    def init(orig):
      def f(server, *a, **k):
        site.servers.append(server)
        orig(server, *a, **k)
        site.sockets.append(server.socket)
      return f
    def serve(server, *a, **k):
      if site.in_thread:
        site.back.append(server)
        return
      site.log.append(("serve", server))
      site.fore = server
      site.run_threads()
      if site.serving:
        try:
          site.result = site.serving(site)
        except Exception as e:
          import mc.explore
          site.result = ("exception", mc.explore.traceback_text())
      if site.ending:
        raise site.ending
    saved = []
    def put(o, name, v):
      saved.append((o, name, getattr(o, name), name in vars(o)))
      setattr(o, name, v)
    put(socketserver.TCPServer, "server_bind", bind)
    put(http.server.HTTPServer, "server_bind", bind)
    put(socketserver.TCPServer, "server_activate", lambda s: site.log.append(("activate", s)))
    put(socketserver.UDPServer, "server_activate", lambda s: site.log.append(("activate", s)))
    put(socketserver.BaseServer, "serve_forever", serve)
    put(socketserver.BaseServer, "shutdown", lambda s: site.log.append(("shutdown", s)))
    put(socketserver.TCPServer, "__init__", init(socketserver.TCPServer.__init__))
    put(signal, "signal", lambda *a: None)
    try:
      import ZODB
      DB = ZODB.DB
      def db(*a, **k):
        d = DB(*a, **k)
        site.dbs.append(d)
        return d
      put(ZODB, "DB", db)
    except ImportError:
      pass
    return saved

  def unpatch(self, saved):
    for d in self.dbs:       # the process which used the database has ended
      try:
        d.close()
      except Exception:
        pass
    for o, name, v, own in reversed(saved):
      if own:
        setattr(o, name, v)
      else:
        delattr(o, name)

  def run_threads(self):
    self.in_thread = True
    for t in Env.threads:
      Env.sleeps_allowed = 0
      try:
        t.run()
      except env.StopLoop:
        pass
    self.in_thread = False

  # ---------------------------------------------------------------- talking to the listeners
  def tcp(self, server, script):
    "one connection; returns what was sent to it"
    r = conn.Run.__new__(conn.Run)
    r.L, r.obs, r.script, r.pos = self.L, {}, list(script), 0
    r.ended = r.blocked = r.stuck = False
    r.selects = 0
    r.conn = conn.Conn(r)
    Env.on_select = r.select
    try:
      server.RequestHandlerClass(r.conn, ("127.0.0.1", 40000), server)
    except conn.Stuck:
      pass
    finally:
      for s in self.servers:
        s.terminate = False
      Env.on_select = None
    return r.conn.out

  def http(self, server, request):
    return http_request(server.RequestHandlerClass, request, server)

  def udp(self, server, datagram):
    class S:
      def __init__(s):
        s.out = []
      def sendto(s, data, addr):
        s.out.append((bytes(data), addr))
    s = S()
    server.RequestHandlerClass((datagram, s), ("127.0.0.1", 40000), server)
    return s.out

  def kind(self, server):
    if isinstance(server, socketserver.UDPServer):
      return "mqttsn"
    if isinstance(server, http.server.HTTPServer):
      return "http"
    return "mqtt"

  def tls(self, server):
    "None, or the results of handshakes of different clients"
    if not isinstance(server.socket, ssl.SSLSocket):
      return None
    return tuple(handshake(server.socket.context, *c) for c in CLIENTS)


def http_request(handler, request, server=None):
  "one request; returns the response"
  class C:
    def __init__(s):
      s.out = b""
    def makefile(s, mode, *a):
      return io.BytesIO(request)
    def sendall(s, data):
      s.out += bytes(data)
    send = sendall
    def settimeout(s, *a):
      pass
    setsockopt = shutdown = settimeout
    def close(s):
      pass
  c = C()
  handler(c, ("127.0.0.1", 40000), server)
  return c.out


DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "tls")
CLIENTS = ((None, True), (None, False), ("client1", True), ("client1", False), ("client2", True))
_ctx = {}


def data(name):
  return os.path.join(DATA, name)


def client_context(cert):
  if cert not in _ctx:
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    if cert:
      c.load_cert_chain(data(cert + ".crt"), data(cert + ".key"))
    _ctx[cert] = c
  return _ctx[cert]


_names = {}


def handshake(server_context, cert, sni):
  "subject of the certificate of the server if the server lets this client in, else None"
  a, b, c, d = ssl.MemoryBIO(), ssl.MemoryBIO(), ssl.MemoryBIO(), ssl.MemoryBIO()
  s = server_context.wrap_bio(a, b, server_side=True)
  k = client_context(cert).wrap_bio(c, d, server_hostname="localhost" if sni else None)
  done = {}
  for i in range(10):
    for o in (k, s):
      if o in done:
        continue
      try:
        o.do_handshake()
        done[o] = True
      except ssl.SSLWantReadError:
        pass
      except ssl.SSLError as e:
        done[o] = False
      a.write(d.read())
      c.write(b.read())
    if len(done) == 2:
      break
  # TLS 1.3 clients learn about a refusal after their handshake
  if not done.get(s) or not done.get(k):
    return None
  der = k.getpeercert(True)
  if not _names:
    for n in ("server1", "server2"):
      _names[ssl.PEM_cert_to_DER_cert(open(data(n + ".crt")).read())] = n
  return _names.get(der, "?")
