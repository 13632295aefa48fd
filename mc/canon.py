"""Canonical text of an arbitrary object graph: the explorer's state hash.

It knows nothing about the classes of the code under test: every attribute of every reachable
object goes into the text, objects are numbered in the order they are reached, and virtual
clock readings are made relative to the current virtual time.  Merging two histories therefore
needs every piece of broker state to be equal.
"""
import hashlib, threading, types, collections
from . import env

_lock_types = (type(threading.Lock()), type(threading.RLock()))
_SKIP = (types.FunctionType, types.MethodType, types.BuiltinFunctionType, types.ModuleType, type)


class Canon:
  def __init__(self, opaque=None):
    self.seen = {}
    self.out = []
    self.opaque = opaque or (lambda o: None)

  def walk(self, o):
    w = self.out.append
    t = type(o)
    if o is None or t is bool or t is str or t is bytes or t is int:
      w(repr(o))
      return
    if t is float:
      if abs(o - env.BASE) < 5e8 and o > env.BASE / 2:
        w("T%r" % round(o - env.Env.now, 6))
      else:
        w(repr(o))
      return
    name = self.opaque(o)
    if name is not None:
      w("<" + name + ">")
      return
    i = id(o)
    if i in self.seen:
      w("#%d" % self.seen[i])
      return
    self.seen[i] = len(self.seen)
    if t is list or t is tuple or t is collections.deque:
      w("[")
      for x in o:
        self.walk(x)
        w(",")
      w("]")
    elif isinstance(o, dict):
      w("{")
      for k in list(o):
        self.walk(k)
        w(":")
        self.walk(o[k])
        w(",")
      w("}")
    elif t is set or t is frozenset:
      w("s{")
      w(",".join(sorted(text(x) for x in o)))
      w("}")
    elif isinstance(o, _lock_types) or t.__name__ == "TrackedLock":
      w("<lock>")
    elif isinstance(o, _SKIP) or isinstance(o, threading.Thread):
      w("<%s>" % t.__name__)
    else:
      w(t.__name__)
      d = getattr(o, "__dict__", None)
      if d is None:
        w(repr(o) if not repr(o).startswith("<") else "?")
        return
      w("(")
      constant = t.__name__ in ("Properties", "ReasonCodes")
      for k in sorted(d):
        if constant and k in ("names", "types", "properties"):
          continue      # per-instance copies of constant tables
        w(k)
        w("=")
        self.walk(d[k])
        w(",")
      w(")")


def text(o, opaque=None):
  c = Canon(opaque)
  c.walk(o)
  return "".join(c.out)


def digest(*parts, opaque=None):
  c = Canon(opaque)
  for p in parts:
    c.walk(p)
    c.out.append("|")
  return hashlib.blake2b("".join(c.out).encode("utf-8", "surrogateescape"), digest_size=12).digest()
