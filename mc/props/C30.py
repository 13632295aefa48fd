"""Reinitialization empties the brokers, and leaves them working."""
from mc.lib import *
from mc.world import World
from mc import refbroker
BOUNDS = {"quick": "any 4 operations on sessions, retained messages, queues and wills, then reinitialization, then any operations, 6 in all", "thorough": "8 in all"}


class W(World):
  def op_reinit(self):
    def impl():
      import mqtt.brokers.start as start
      start.reinitialize()
    def act(m, pick):
      m.sessions.clear(); m.retained.clear(); m.pending_wills.clear()
    self.view.clear()
    self.done = True
    return impl, act


def scenarios(ctx):
  d = 0 if ctx.quick else 1
  res = []
  will = (("topic", "a"), ("payload", b"w"), ("qos", 1), ("retain", False), ("props", ((24, 5),)))
  will3 = (("topic", "a"), ("payload", b"w"), ("qos", 1), ("retain", True), ("props", ()))
  for vx, vp in ((5, 3), (3, 5), (5, 5), (3, 3)):
    cx = connect("x", clean=False, **({"expiry": 100} if vx == 5 else {}))
    cp = connect("p", clean=False, **({"expiry": 50, "will": will} if vp == 5 else {"will": will3}))
    def en(w, h, cx=cx, cp=cp, lim=4 + d):
      n = [i for i, op in enumerate(h) if op[0] == "reinit"]
      res = []
      if w.conn["x"]:
        res += [("sub", "x", (("a", 1), ("#", 1))), ("disconnect", "x"), ("pub", "x", "$a/b", 0, True, b"d"), ("sub", "x", (("$a/#", 0),)), ("pub", "x", "a", 2, False, b"2", 1)]
      else:
        res.append(cx)
      if w.conn["p"]:
        res += [("pub", "p", "a", 1, True, b"r", 1), ("drop", "p"), ("disconnect", "p")]
      else:
        res.append(cp)
        if n:
          res.append(connect("p", clean=True))
      if n:
        return res + [("tick", 7.3)]
      if not w.conn["x"] and not w.conn["p"] and len(h) >= 2:
        res.append(("reinit",))
      return res
    res.append(Scenario("v%d and v%d" % (vx, vp), lambda vx=vx, vp=vp: W({"x": vx, "p": vp}), en, 6 + 2 * d, prefix=[cx, cp, ("sub", "x", (("a", 1),))]))
  return res
