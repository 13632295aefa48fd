"""The properties of a publication travel with it, end to end."""
import itertools
from mc import enumr
from mc.world import World
from mc.lib import *
from mc.refbroker import Mismatch
BOUNDS = {"quick": "every subset of the application properties, several values each, user property lists up to 3 in order, QoS 0-2, directly / retained / queued / shared / as a will, to 5.0 and 3.1.1 subscribers",
          "thorough": "all combinations of two values per property and of delivery paths"}

CH = {1: [0, 1], 2: [20, 4294967295], 3: ["", "text/\u00e9"], 8: ["r", "a/b"], 9: [b"", b"\x00\xff"]}
UPS = [(), (("k", "v"),), (("k", "v"), ("k", "v")), (("b", "1"), ("a", "2"), ("b", "0")), (("", ""),), (("\u20ac", "\u00e9" * 10),)]


def cases(thorough):
  ids = sorted(CH)
  for path in ("direct", "retained", "queued", "shared", "will", "delayed", "redelivered"):
    for n in range(len(ids) + 1):
      for sub in itertools.combinations(ids, n):
        vals = list(itertools.product(*[CH[i] for i in sub]))
        if not thorough:
          vals = vals[:1] + vals[-1:] if len(vals) > 1 else vals
        for v in vals:
          for k, ups in enumerate(UPS):
            if not thorough and n not in (0, 1, len(ids)) and k not in (0, 3):
              continue
            for ver in (5, 3):
              for qos in (0, 1, 2):
                if not thorough and qos == 0 and path in ("queued", "redelivered"):
                  continue
                yield path, tuple(zip(sub, v)) + tuple((38, u) for u in ups), ver, qos


def case(c):
  path, props, ver, qos = c
  w = World({"p": 5, "x": ver, "y": 5}, {"maximumPacketSize": 2 ** 28 - 1})
  n = 0
  def do(op):
    w.do(op)
  flt = "$share/g/a/+" if path == "shared" and ver == 5 else "a/+"
  kw = {"expiry": 1000} if ver == 5 else {}
  sub = ("sub", "x", ((flt, 2),), 9 if ver == 5 else None)
  ops = [connect("x", clean=False, **kw), connect("y")]
  pub = ("pub", "p", "a/b", qos, path == "retained", b"data", 5, False, props)
  if path == "retained":
    ops += [connect("p"), pub, ("tick", 3.25), sub, ("sub", "y", (("#", 1),))]
  elif path in ("will", "delayed"):
    wp = props + (((24, 5),) if path == "delayed" else ())
    will = (("topic", "a/b"), ("payload", b"data"), ("qos", qos), ("retain", False), ("props", wp))
    ops += [connect("p", expiry=100, will=will), sub, ("sub", "y", (("#", 1),)), ("drop", "p"), ("tick", 6.25)]
  elif path == "queued":
    ops += [connect("p"), sub, ("sub", "y", (("#", 1),)), ("disconnect", "x"), pub, ("tick", 3.25), connect("x", clean=False, **kw)]
  elif path == "redelivered":
    ops += [connect("p"), sub, ("sub", "y", (("#", 1),)), pub, ("tick", 3.25), ("drop", "x"), connect("x", clean=False, **kw)]
  else:
    ops += [connect("p"), sub, ("sub", "y", (("#", 1),)), pub]
  out = []
  for op in ops:
    try:
      w.do(op)
    except Mismatch as e:
      return "", "%s (after %r)" % (e, op), len(ops)
    out.append(w.outcome)
  return path + " " + out[-1], None, len(ops)


def run(ctx):
  enumr.enumerate_all(ctx, "property subsets", cases(not ctx.quick), case, chunk=25)


def replay(what):
  o, e, n = case(what["case"])
  print(e or "not reproduced")
  return 1 if e else 0
