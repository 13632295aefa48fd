"""Exhaustive breadth first exploration of operation sequences on real objects.

A scenario supplies fresh systems, the operations enabled in the state a history leads to, and a
canonical key of that state.  Every enabled operation of every distinct state is executed up to
the depth bound; a history is re-executed from a fresh system each time (no snapshots), so a
reported history always reproduces on its own.
"""
import os, sys, time, json, traceback, hashlib, ast, signal
from . import env, pool as pools
from .refbroker import Mismatch

now = env.REAL["monotonic"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Scenario:
  """name, make() -> system; system has do(op), key(); enabled(system, history) -> ops"""

  def __init__(self, name, make, enabled, depth, prefix=()):
    self.name, self.make, self.enabled, self.depth, self.prefix = name, make, enabled, depth, tuple(prefix)

  def replay(self, hist, upto=None):
    sysm = self.make()
    for op in self.prefix:
      sysm.do(op)
    for op in hist:
      sysm.do(op)
    return sysm

  def finish(self, sysm, hist):
    pass


_SC = None
HANG = float(os.environ.get("VERIF_HANG", "120"))


class Hangs(BaseException):
  pass


class watch:
  "one execution which takes for ever is ended (executions take milliseconds)"

  def __enter__(self):
    signal.signal(signal.SIGALRM, self.alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG, 1)

  def alarm(self, *a):
    raise Hangs("the execution does not end")

  def __exit__(self, *a):
    signal.setitimer(signal.ITIMER_REAL, 0)



def _expand(task):
  """execute every enabled operation of each history; returns per history a list of
  (op, key, outcome, error)"""
  out = []
  for hist, ops in task:
    res = []
    for op in ops:
      err = key = nxt = None
      outcome = ""
      hangs = False
      try:
        with watch():
          s = _SC.replay(hist)
          try:
            s.do(op)
            key = s.key()
            outcome = getattr(s, "outcome", "")
            nxt = _SC.enabled(s, hist + (op,)) if len(hist) + 1 < _SC.depth else ()
          except Mismatch as e:
            err = str(e)
          except (env.StopLoop, Exception):
            err = "exception in the explored system: " + traceback_text()
      except Hangs as e:
        err, hangs = str(e), True
      except BaseException:
        err = "HARNESS " + traceback_text()
      finally:
        env.Env.active = False
      res.append((op, key, outcome, err, nxt))
      if hangs:
        out.append((hist, res))
        return out
    out.append((hist, res))
  return out


def traceback_text():
  et, ev, tb = sys.exc_info()
  return "".join(traceback.format_exception(et, ev, tb))[-1500:]


class Result:
  def __init__(self):
    self.states = 0
    self.transitions = 0
    self.executions = 0
    self.depth = 0
    self.exhaustive = True
    self.outcomes = {}
    self.samples = []
    self.violations = []


def run_scenario(sc, deadline, max_viol=1, verbose=True):
  global _SC
  sc.depth = max(min(2, sc.depth), sc.depth + int(os.environ.get("VERIF_DEPTH", "0")))   # for experiments only
  _SC = sc
  r = Result()
  t0 = now()
  try:
    s = sc.replay(())
    k0 = s.key()
    ops0 = sc.enabled(s, ())
  except Mismatch as e:
    env.Env.active = False
    r.violations.append(((), "prefix: " + str(e)))
    return r
  except (env.StopLoop, Exception):
    env.Env.active = False
    r.violations.append(((), "exception in the prefix: " + traceback_text()))
    return r
  env.Env.active = False
  seen = {k0}
  frontier = [((), tuple(ops0))]
  pool = pools.Pool(WORKERS) if WORKERS > 1 else None
  try:
    for depth in range(1, sc.depth + 1):
      if not frontier:
        break
      nxt = []
      chunk = max(1, min(24, len(frontier) // (WORKERS * 4) + 1))
      tasks = [frontier[i:i + chunk] for i in range(0, len(frontier), chunk)]
      it = pool.imap(_expand, tasks) if pool else map(_expand, tasks)
      for batch in it:
        for hist, res in batch:
          for op, key, outcome, err, ops in res:
            r.transitions += 1
            r.executions += 1
            h = hist + (op,)
            if err is not None:
              r.violations.append((h, err))
              continue
            r.outcomes[outcome] = r.outcomes.get(outcome, 0) + 1
            if key not in seen:
              seen.add(key)
              nxt.append((h, ops))
              if r.outcomes[outcome] == 1 and len(r.samples) < 12:
                r.samples.append({"history": [repr(x) for x in h], "observed": outcome})
        if now() > deadline:
          r.exhaustive = False
          break
        if len(r.violations) >= max_viol:
          break
      r.depth = depth
      if r.violations or not r.exhaustive:
        break
      frontier = nxt
  except pools.Died as e:
    r.violations.append((frontier[0][0], str(e)))
  finally:
    if pool:
      pool.end()
  r.states = len(seen)
  if verbose:
    print("  %-34s depth %d  states %d  transitions %d  outcomes %d  %.1fs%s" %
          (sc.name, r.depth, r.states, r.transitions, len(r.outcomes), now() - t0,
           "" if r.exhaustive else "  (time bound reached: not exhaustive)"))
    sys.stdout.flush()
  return r
