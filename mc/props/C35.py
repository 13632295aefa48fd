"""The account of conformance statements: which of those in the broker's code have been met."""
import ast, copy, itertools, logging, re
from mc import enumr, explore
from mc.env import Env
BOUNDS = {"quick": "all sequences of up to 4 log records of 9 kinds (statements of the broker's code, others, none, several, with arguments) and reports between them; every statement which a session of every kind of packet makes the 5.0 broker log",
          "thorough": "sequences of up to 5"}

_pristine = None


def fresh():
  "(coverage module, new filter)"
  global _pristine
  from mqtt.brokers import coverage
  if _pristine is None:
    _pristine = type(coverage.filter)()
  return coverage, copy.deepcopy(_pristine)


class Capture(logging.Handler):
  def __init__(self):
    logging.Handler.__init__(self)
    self.records = []

  def emit(self, r):
    self.records.append(r)


class Setting:
  "the broker's logger with the filter, and what comes out of it"
  def __enter__(self):
    self.coverage, self.filter = fresh()
    self.old = self.coverage.filter
    self.coverage.filter = self.filter
    self.logger = logging.getLogger("MQTT broker")
    self.saved = self.logger.filters[:], self.logger.level, self.logger.propagate
    self.logger.filters[:] = [self.filter]
    self.logger.setLevel(logging.DEBUG)
    self.logger.propagate = False
    self.h = Capture()
    self.logger.addHandler(self.h)
    logging.disable(logging.NOTSET)
    self.known = dict((k, set(v)) for k, v in self.filter.coverages.items())
    return self

  def __exit__(self, *a):
    logging.disable(logging.CRITICAL)
    self.logger.removeHandler(self.h)
    self.logger.filters[:], self.logger.level, self.logger.propagate = self.saved
    self.coverage.filter = self.old

  def out(self):
    r = [x.getMessage() for x in self.h.records]
    self.h.records.clear()
    return r


def check_report(lines, known, found):
  "error text or None"
  got = {}
  for l in lines:
    m = re.match(r"(.+?) (\d+) out of (\d+) = (\d+)%$", l)
    if m:
      got[m.group(1), "n"] = tuple(int(x) for x in m.groups()[1:])
      continue
    m = re.match(r"(.+?) (not found|found) (.*)$", l)
    if m:
      got[m.group(1), m.group(2)] = set() if m.group(3) == "set()" else set(ast.literal_eval(m.group(3)))
      continue
    return "unexpected line %r in the report" % l[:200]
  for k, name in (("coverages", "coverage statements"), ("exceptions", "exceptions")):
    f = known[k] & found
    if got.get((name, "n")) != (len(f), len(known[k]), len(f) * 100 // len(known[k])):
      return "report says %r for %s: %d of %d were found" % (got.get((name, "n")), name, len(f), len(known[k]))
    if got.get((name, "found")) != f or got.get((name, "not found")) != known[k] - f:
      return "the lists of %s found (%r) and not found do not agree with what was logged (%r)" % (name, got.get((name, "found")), f)
  return None


def case(ops):
  Env.active = False
  with Setting() as s:
    a, b = sorted(s.known["coverages"])[:2]
    x = sorted(s.known["exceptions"] - s.known["coverages"])[0]
    texts = {"a": ("%s first" % a, (), a), "a2": ("again: %s, client %%s" % a, ("c",), a), "b": ("%s" % b, (), b), "x": ("error %s seen" % x, (), x),
             "u": ("[MQTT-9.9.9-9] not in the code", (), "[MQTT-9.9.9-9]"), "n": ("plain %d", (7,), None), "br": ("[x] {%s}", ("[y]",), None),
             "ab": ("%s %s both" % (b, a), (), b), "arg": ("see %s", (a,), a)}
    found = set()
    for n, op in enumerate(ops):
      if op == "report":
        s.coverage.measure()
        out = s.out()
        err = check_report(out, s.known, found)
        if err:
          return "", "logged report: " + err, n
      else:
        t, args, st = texts[op]
        s.logger.info(t, *args)
        want = [t % args if args else t] if st is None or st not in found else []
        got = s.out()
        if got != want:
          return "", "record %r after statements %r: logged %r instead of %r" % (t, sorted(found), got, want), n
        if st is not None:
          found.add(st)
      err = check_report(s.coverage.getmeasures(), s.known, found)
      if err:
        return "", err, n
    return "%d found" % len(found), None, len(ops)


def broker_case(v):
  "statements logged by the handlers of the broker are among those which are counted"
  from mc.world import World
  from mqtt.brokers.V5 import MQTTBrokers
  with Setting() as s:
    s.logger.filters[:] = []
    w = World({"c": 5, "p": 5})
    s.logger.filters[:] = []
    s.logger.setLevel(logging.DEBUG)
    if s.h not in s.logger.handlers:
      s.logger.addHandler(s.h)
    will = (("topic", "w"), ("payload", b"w"), ("qos", 1), ("retain", True))
    n = 0
    for op in [("connect", "c", (("will", will),)), ("connect", "p", (("clean", False), ("expiry", 100), ("keepalive", 10))), ("sub", "c", (("a", 2), ("+", 1))), ("pub", "p", "a", 0, True, b"0"),
               ("pub", "p", "a", 1, False, b"1", 1), ("pub", "p", "a", 2, False, b"2", 2), ("pubrel", "p", 2), ("puback", "c", 0), ("pubrec", "c", 0), ("pubcomp", "c", 0),
               ("ping", "c"), ("unsub", "c", ("a",)), ("drop", "c"), ("disconnect", "p", 0)]:
      n += 1
      w.do(op)
    Env.active = False
    counted = s.known["coverages"] | s.known["exceptions"]
    seen = set()
    for r in s.h.records:
      m = re.search(r"\[MQTT[^\]]*\]", r.getMessage())
      if m and r.pathname.replace("\\", "/").endswith("brokers/V5/MQTTBrokers.py") and hasattr(MQTTBrokers, r.funcName):
        seen.add(m.group(0))
        if m.group(0) not in counted:
          return "", "statement %s, logged by %s, is not among those counted" % (m.group(0), r.funcName), n
    if len(seen) < 5:
      return "", "the broker logs hardly any conformance statement: %r" % seen, n
    return "%d statements" % len(seen), None, n


KINDS = ("a", "a2", "b", "x", "u", "n", "br", "ab", "arg", "report")


def cases(n):
  for k in range(0, n + 1):
    for t in itertools.product(KINDS, repeat=k):
      yield t


def run(ctx):
  enumr.enumerate_all(ctx, "a session", [0], broker_case)
  enumr.enumerate_all(ctx, "log records", cases(4 if ctx.quick else 5), case, chunk=50)


def replay(what):
  o, e, n = (broker_case if what["part"] == "a session" else case)(what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
