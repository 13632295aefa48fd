"""Controlled scheduling of real threads.

Exactly one thread runs at a time.  At every line of the traced source files, and wherever a thread takes or
releases a lock or waits, the running thread asks the schedule who goes on.  A schedule is a dict
{number of the decision: index of the alternative}; everything else takes the default: the running thread goes on, or the
first thread that can run if it cannot.  Executions are deterministic, so a schedule replays.
"""
import sys, threading, _thread, gc, types
from . import env, explore


TOOL = 4
_codes = {}


def instrument(traced):
  "asks the interpreter for events of all functions defined in the traced files"
  if not _codes:
    M = sys.monitoring
    M.use_tool_id(TOOL, "scheduler")
    def line(code, n):
      s = Sched.current
      if s is not None and s.free and not s.killing:
        s.point()
    def call(code, *a):
      s = Sched.current
      if s is not None and s.free and not s.killing:
        s.point("call")
    M.register_callback(TOOL, M.events.LINE, line)
    M.register_callback(TOOL, M.events.PY_START, call)
    M.register_callback(TOOL, M.events.PY_RETURN, call)
  def add(code):
    if id(code) in _codes:
      return
    _codes[id(code)] = code
    sys.monitoring.set_local_events(TOOL, code, sys.monitoring.events.LINE | sys.monitoring.events.PY_START | sys.monitoring.events.PY_RETURN)
    for c in code.co_consts:
      if isinstance(c, types.CodeType):
        add(c)
  for o in gc.get_objects():
    if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(tuple(traced)):
      add(o.__code__)


class Baton:
  "a semaphore for one waiting thread"

  def __init__(self):
    self.lock = _thread.allocate_lock()
    self.lock.acquire()

  def acquire(self, timeout=-1):
    return self.lock.acquire(True, timeout)

  def release(self):
    try:
      self.lock.release()
    except RuntimeError:
      pass      # was released already


class Killed(BaseException):
  pass


class Lock:
  "lock of the code under test, re-entrant or not"

  def __init__(self, kind="RLock"):
    self.re = kind == "RLock"
    self.owner = None
    self.n = 0

  def acquire(self, blocking=True, timeout=-1):
    s = Sched.current
    me = s.me() if s else "main"
    if self.owner == me and self.re:
      self.n += 1
      return True
    if s and me != "main":
      s.point()
      if self.owner is not None and not blocking:
        return False
      while self.owner is not None:
        if timeout is not None and timeout >= 0:
          return False
        s.wait(lambda: self.owner is None)
    elif self.owner is not None:
      raise RuntimeError("a lock is held for ever by thread %s" % self.owner)
    self.owner, self.n = me, 1
    if s and me != "main":
      s.held[me] = s.held.get(me, 0) + 1
    return True

  def release(self):
    s = Sched.current
    me = s.me() if s else "main"
    if self.owner != me and self.re or self.owner is None:
      raise RuntimeError("cannot release un-acquired lock")
    self.n -= 1
    if self.n == 0:
      if s and self.owner in s.held:
        s.held[self.owner] -= 1
      self.owner = None
      if s and me != "main":
        s.point()

  def locked(self):
    return self.owner is not None

  def __enter__(self):
    return self.acquire()

  def __exit__(self, *a):
    self.release()


class Sched:
  current = None

  def __init__(self, schedule, mode="lines"):
    """mode: "lines": all lines; "calls": lines executed without a lock, and calls and returns of functions executed with one;
    "unlocked": only the lines executed without a lock"""
    self.schedule = schedule
    self.mode = mode
    self.threads = []      # names, in order
    self.fn = {}
    self.sem = {}
    self.state = {}        # name -> "run", "wait", "done"
    self.cond = {}
    self.held = {}
    self.ident = {}
    self.running = None
    self.log = []          # (number of alternatives, does leaving the default cost a preemption)
    self.free = False      # decisions are recorded
    self.killing = False
    self.deadlock = None
    self.main = Baton()
    self.steps = 0
    self.errors = []
    self.on_all_ready = None
    self.on_idle = None    # called when no thread can go on: lets time pass, says whether that is possible

  def add(self, name, fn):
    self.threads.append(name)
    self.fn[name] = fn
    self.sem[name] = Baton()
    self.state[name] = "new"
    self.cond[name] = None

  def me(self):
    return self.ident.get(threading.get_ident(), "main")

  # -------------------------------------------------------------- called by the threads
  def point(self, kind="line"):
    """the running thread can be preempted here.  kind "send": after a part of the data was sent, even with a lock held"""
    if self.killing or not self.free:
      return
    me = self.me()
    if me == "main":
      return
    if self.mode != "lines":
      if self.held.get(me):
        if kind == "line" or self.mode == "unlocked" and kind != "send":
          return
      elif kind == "call":
        return
    self.steps += 1
    if self.steps > 200000:
      self.errors.append("the threads run on and on")
      self.finish()
      raise Killed()
    others = [t for t in self.threads if t != me and self.enabled(t)]
    if not others:
      return
    self.choose([me] + others, True, me)

  def wait(self, cond):
    "the running thread cannot go on before cond()"
    me = self.me()
    if self.killing:
      raise Killed()
    self.state[me] = "wait"
    self.cond[me] = cond
    self.next(me)
    self.state[me] = "run"
    self.cond[me] = cond = None

  def park(self):
    "nothing left to do"
    self.wait(lambda: False)

  def enabled(self, t):
    return self.state[t] == "run" or self.state[t] == "wait" and self.cond[t] is not None and self.cond[t]()

  def next(self, me, finished=False):
    en = [t for t in self.threads if self.enabled(t)]
    if en:
      self.choose(en, False, me, finished)
      return
    if not self.free and any(self.state[t] == "new" for t in self.threads):
      t = [t for t in self.threads if self.state[t] == "new"][0]
      self.state[t] = "run"
      self.switch(t, me, finished)
      return
    if not self.free:
      # everybody has arrived at the start of the race
      self.free = True
      if self.on_all_ready:
        self.on_all_ready()
      en = [t for t in self.threads if self.enabled(t)]
      if en:
        self.choose(en, False, me, finished)
        return
    if self.on_idle:
      while self.on_idle():
        en = [t for t in self.threads if self.enabled(t)]
        if en:
          self.choose(en, False, me, finished)
          return
    self.finish()
    if not finished:
      self.sem[me].acquire()
      if self.killing:
        raise Killed()

  def choose(self, options, costs, me, finished=False):
    k = 0
    if len(options) > 1 and self.free:
      k = self.schedule.get(len(self.log), 0)
      self.log.append((len(options), costs))
    self.switch(options[k], me, finished)

  def switch(self, t, me, finished=False):
    if t == me:
      return
    self.running = t
    self.sem[t].release()
    if not finished:
      self.sem[me].acquire()
      if self.killing:
        raise Killed()

  def finish(self):
    self.main.release()

  # -------------------------------------------------------------- called by the explorer
  def body(self, name):
    self.ident[threading.get_ident()] = name
    self.sem[name].acquire()
    try:
      if not self.killing:
        self.fn[name]()
    except Killed:
      pass
    except env.StopLoop:
      pass
    except BaseException as e:
      if not self.killing:
        self.errors.append("%s: %r" % (name, e))
    finally:
      self.state[name] = "done"
      if not self.killing:
        self.next(name, True)

  def run(self, limit=60):
    Sched.current = self
    ts = []
    for t in self.threads:
      th = threading.Thread(target=self.body, args=(t,), daemon=True)
      env.REAL["tstart"](th)
      ts.append(th)
    self.threads_os = ts
    first = self.threads[0]
    self.state[first] = "run"
    self.running = first
    self.sem[first].release()
    if not self.main.acquire(timeout=limit):
      self.errors.append("no answer: a thread waits outside of the scheduler's control")
    waiting = [t for t in self.threads if self.state[t] == "wait" and not getattr(self.cond[t], "idle", False)]
    self.blocked = [t for t in waiting if self.cond[t] is not None and self.cond[t].__qualname__.startswith("Lock.")]
    return self

  def end(self):
    self.killing = True
    for t in self.threads:
      self.sem[t].release()
    for th in self.threads_os:
      th.join(5)
    Sched.current = None


def subtree(execute, first, start, used, bound):
  """explores all schedules which extend first with at most bound preemptions; execute(schedule) -> (outcome, error, log
  of decisions, steps).  Returns (outcomes, executions, error)"""
  outs = set()
  n = 0
  stack = [(dict(first), start, used)]
  while stack:
    schedule, st, u = stack.pop()
    with explore.watch():
      out, err, log, steps = execute(schedule)
    n += 1
    outs.add(out)
    if err:
      return outs, n, "schedule %r: %s" % (sorted(schedule.items()), err)
    for pos in range(len(log) - 1, st - 1, -1):
      alts, costs = log[pos]
      c = u + (1 if costs else 0)
      if c > bound:
        continue
      for k in range(1, alts):
        s = dict(schedule)
        s[pos] = k
        stack.append((s, pos + 1, c))
  return outs, n, None


def tasks(execute, bound):
  "the schedules without a preemption, and one task (first, start, used, bound) for each first preemption"
  stack = [((), 0)]
  while stack:
    first, start = stack.pop()
    yield (first, 10**9, 0, 0)
    with explore.watch():
      out, err, log, steps = execute(dict(first))
    for pos in range(start, len(log)):
      alts, costs = log[pos]
      for k in range(1, alts):
        s = first + ((pos, k),)
        if not costs:
          stack.append((s, pos + 1))
        elif bound > 0:
          yield (s, pos + 1, 1, bound)
