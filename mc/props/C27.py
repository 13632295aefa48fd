"""Model exploration takes every path once, and recorded tests pass exactly on implementations which behave as recorded."""
import itertools, logging, os, tempfile
from mc import enumr, env, explore
from mc.env import Env
BOUNDS = {"quick": "all models of 1 and 2 actions from an alphabet of 15 (0-2 parameters, results which extend, fill or do not change the pools, parameters which are finished with, exceptions, observations), explored to 2 and 3 calls between restarts, with every choice of the next path which deviates in up to 2 places; the record of each exploration replayed on the same implementation, and on every one which deviates in one result or observation",
          "thorough": "deviations in up to 3 places, and all models of 3 actions with up to 1"}
ASSUMPTIONS = ["implementations are deterministic: the same calls since the last restart have the same results"]


class Tok:
  "a result which is an object"
  def __init__(self, n):
    self.n = n
  def __repr__(self):
    return "<tok %d>" % self.n
  def __eq__(self, other):
    return isinstance(other, Tok) and other.n == self.n
  def __hash__(self):
    return self.n


POOLS = {"A": ("a1", "a2"), "B": (5,), "OUT": (7, 8)}
# name: (parameters, type of the result, behaviour, parameter it is finished with)
ACTIONS = {
  "ping": ((), None, "none", None),
  "fails": ((), None, "raise", None),
  "new": ((), "R", "new", None),
  "newtok": ((), "T", "tok", None),
  "open": ((("a", "A"),), "R", "new", None),
  "use": ((("r", "R"),), None, "none", None),
  "usetok": ((("t", "T"), ("b", "B")), "OUT", "seven", None),
  "close": ((("r", "R"),), None, "none", "r"),
  "droptok": ((("t", "T"),), None, "none", "t"),
  "one": ((("a", "A"),), "OUT", "seven", None),
  "two": ((("a", "A"), ("b", "B")), None, "raisea2", None),
  "same": ((("x", "A"), ("y", "A")), "S", "three", None),
  "take": ((("a", "A"),), None, "none", "a"),
  "seen": ((("b", "B"),), None, "observe", None),
  "echo": ((("a", "A"),), "A", "extend", None),
}
OUTPUT = ("OUT",)
MAXIMA = {"R": 2}


def load():
  if not hasattr(load, "m"):
    old = os.getcwd()
    d = tempfile.mkdtemp()
    os.chdir(d)
    try:
      import mbt.main
      load.m = mbt.main
    finally:
      os.chdir(old)
    l = logging.getLogger("mbt-test")
    for h in list(l.handlers):
      l.removeHandler(h)
      h.close()
    if os.path.exists(os.path.join(d, "test.log")):
      os.unlink(os.path.join(d, "test.log"))
    os.rmdir(d)
  return load.m


class Impl:
  "the implementation under test: n counts the calls since the last restart"

  def __init__(self, deviate=None):
    self.calls = []          # (name, arguments) of all calls
    self.total = 0
    self.deviate = deviate   # (number of the call, how)
    self.observe = lambda event: None
    self.restarts = 0
    self.restart()

  def restart(self):
    self.n = 0
    self.restarts += 1

  def call(self, name, kw):
    self.calls.append((name, tuple(sorted(kw.items()))))
    self.n += 1
    self.total += 1
    how = self.deviate[1] if self.deviate and self.deviate[0] == self.total else None
    if how == "raise":
      raise ValueError("unexpected")
    b = ACTIONS[name][2]
    if b == "observe" and how != "silent":
      self.observe("event %d %s" % (self.n, "different" if how == "event" else "seen"))
    rc = None
    if b == "raise" or b == "raisea2" and kw["a"] == "a2":
      if how != "value":
        raise ValueError("expected")
      return 4711
    rc = result(name, kw, self.n)
    if how == "value" and rc is not None:
      rc = Tok(99) if isinstance(rc, Tok) else 4711
    if how == "none":
      rc = None
    return rc


def result(name, kw, n):
  b = ACTIONS[name][2]
  return {"new": 100 + n, "tok": Tok(n), "seven": 7, "three": 3, "extend": "a%d" % (n + 1)}.get(b)


def build(m, names, impl):
  "the model, with functions that have the annotations of the actions"
  model = m.Models()
  fns = {}
  for t, v in POOLS.items():
    if any(t in [x for _, x in ACTIONS[a][0]] or ACTIONS[a][1] == t for a in names):
      model.addChoice(t, v, t in OUTPUT)
  for a in names:
    params, ret, b, fin = ACTIONS[a]
    def make(name):
      return lambda **kw: impl.call(name, kw)
    fn = make(a)
    fn.__name__ = a
    fn.__annotations__ = dict(params)
    if ret:
      fn.__annotations__["return"] = ret
    model.addAction(fn)
    if fin:
      model.finishedWith(fn, fin)
  for t in sorted(set(x for a in names for _, x in ACTIONS[a][0])):
    if t not in POOLS:
      model.addReturnType(t)
  for t, n in MAXIMA.items():
    model.maxobjects[t] = n
  model.restartCallback = impl.restart
  return model


class Ref:
  "what there is to explore"

  def __init__(self, names, depth):
    self.names, self.depth = names, depth
    self.memo = {}

  def state0(self):
    types = [(t, tuple(v)) for t, v in POOLS.items() if any(t in [x for _, x in ACTIONS[a][0]] or ACTIONS[a][1] == t for a in self.names)]
    for a in self.names:
      for t in [ACTIONS[a][1]] + [x for _, x in ACTIONS[a][0]]:
        if t and t not in dict(types):
          types.append((t, ()))
    return tuple(sorted(types))

  def after(self, path):
    "pools after the calls of path; None if the last one raised an exception"
    pools = dict(self.state0())
    for n, (name, args) in enumerate(path, 1):
      params, ret, b, fin = ACTIONS[name]
      kw = dict(args)
      if b == "raise" or b == "raisea2" and kw["a"] == "a2":
        return None
      rc = result(name, kw, n)
      if rc is not None and ret and ret not in OUTPUT and rc not in pools[ret]:
        pools[ret] += (rc,)
      if fin:
        t = dict(params)[fin]
        pools[t] = tuple(x for x in pools[t] if x != kw[fin])
    return pools

  def arcs(self, path):
    if path in self.memo:
      return self.memo[path]
    res = []
    pools = self.after(path) if len(path) < self.depth else None
    if pools is not None:
      for name in self.names:
        params, ret, b, fin = ACTIONS[name]
        if ret and ret in pools and ret not in OUTPUT and len(pools[ret]) >= MAXIMA.get(ret, 1):
          continue
        for vals in itertools.product(*[pools[t] for _, t in params]):
          res.append((name, tuple(sorted(zip([p for p, _ in params], vals)))))
    self.memo[path] = res
    return res

  def leaves(self):
    "all maximal paths"
    stack = [()]
    res = []
    while stack:
      p = stack.pop()
      arcs = self.arcs(p)
      if not arcs:
        res.append(p)
      stack += [p + (a,) for a in arcs]
    return res


class Capture(logging.Handler):
  def __init__(self):
    logging.Handler.__init__(self)
    self.lines = []
  def emit(self, record):
    if record.levelno >= logging.INFO:
      self.lines.append(record.getMessage())


def explore_model(names, depth, choices, use_run=False, bare=False):
  """explores the model, choices: {number of the decision: index}.  Returns (error, decisions, log, calls)"""
  m = load()
  impl = Impl()
  model = build(m, names, impl)
  ref = Ref(names, depth)
  done = set() if ref.arcs(()) else {()}           # maximal paths which were taken
  path = ()
  decisions = []
  cap = Capture()
  log = logging.getLogger("mbt")
  prop, log.propagate = log.propagate, False
  log.addHandler(cap)
  logging.disable(logging.DEBUG)
  err = None

  def free(p):
    "are there maximal paths through p which were not taken"
    arcs = ref.arcs(p)
    if not arcs:
      return p not in done
    return any(free(p + (a,)) for a in arcs)

  def select(frees):
    k = choices.get(len(decisions), 0)
    decisions.append(len(frees))
    return [frees[k % len(frees)]] if frees else frees
  if not bare:
    model.selectCallback = select
  Env.choices = []
  try:
    ex = m.Executions(model)
    impl.observe = ex.addObservation
    impl.restarts = 0
    if use_run:
      ex.run(False)
      for name, args in impl.calls:
        if path and not ref.arcs(path):
          done.add(path)
          path = ()
        want = [a for a in ref.arcs(path) if free(path + (a,))]
        if (name, args) not in want:
          return "called %s%r after %r; to be tried are %r" % (name, args, path, want), decisions, cap.lines, impl.calls
        path += ((name, args),)
      if path:
        done.add(path)
    else:
      steps = 0
      limit = 10 * (len(ref.leaves()) * depth + 10)
      while err is None:
        steps += 1
        if steps > limit:
          err = "the exploration does not end"
          break
        n, d, r = len(impl.calls), len(decisions), impl.restarts
        want = [a for a in ref.arcs(path) if free(path + (a,))]
        rc = ex.step()
        new = impl.calls[n:]
        if not bare and len(decisions) > d and decisions[d] != len(want):
          err = "%d paths offered after %r, there are %r" % (decisions[d], path, want)
        elif not new:
          if want:
            err = "nothing called after %r, to be tried are %r" % (path, want)
          elif not rc:
            err = "not told that nothing is left after %r" % (path,)
          if path == ():
            break
          if impl.restarts != r + 1:
            err = err or "no restart after %r, where nothing can be called" % (path,)
          done.add(path)
          path = ()
        elif len(new) > 1 or new[0] not in want:
          err = "called %r after %r; to be tried are %r" % (new, path, want)
        else:
          path += (new[0],)
          raised = ref.after(path) is None
          if bool(rc) != raised or impl.restarts != r + (1 if raised else 0):
            err = "step returned %r with %d restarts after %r" % (rc, impl.restarts - r, path)
          if raised:
            done.add(path)
            path = ()
          elif len(path) == depth:
            ex.restart()
            done.add(path)
            path = ()
    if err is None and done != set(ref.leaves()):
      err = "paths not taken: %r" % sorted(set(ref.leaves()) - done, key=repr)[:3]
    return err, decisions, cap.lines, impl.calls
  finally:
    logging.disable(logging.CRITICAL)
    log.removeHandler(cap)
    log.propagate = prop


def replay_log(names, lines, deviate=None, late=0):
  m = load()
  impl = Impl(deviate)
  model = build(m, names, impl)
  pending = []
  fd, fname = tempfile.mkstemp()
  with os.fdopen(fd, "w") as f:
    for l in lines:
      f.write(l if l.endswith("\n") else l + "\n")
  sleeps = [0]

  def sleep(s):
    sleeps[0] += 1
    if sleeps[0] > 1000:
      raise env.StopLoop()
    for p in list(pending):
      p[0] -= 1
      if p[0] <= 0:
        pending.remove(p)
        t.addResult(p[1])
  try:
    t = m.Tests(model, fname, {"exception": lambda a, b: b.startswith("exception")})
    def observe(event):
      if late:
        pending.append([late, event])
      else:
        t.addResult(event)
    impl.observe = observe
    impl.calls = []
    Env.on_sleep = sleep
    try:
      t.run(stepping=False)
    except Exception:
      if not deviate:
        raise
      return t.passes, max(1, t.failures), impl.calls    # given up, which is no success
    return t.passes, t.failures, impl.calls
  finally:
    Env.on_sleep = None
    os.unlink(fname)


def case(c):
  names, depth, choices, kind = c
  Env.reset()
  err, decisions, lines, calls = explore_model(names, depth, dict(choices), kind == "run", kind == "bare")
  n = len(calls)
  if err or kind != "replay":
    return "%d calls, %d decisions" % (n, len(decisions)), err, n
  # the record, replayed
  results = sum(l.startswith(("RESULT", "OBSERVED")) for l in lines)
  for late in (0, 1, 5):
    passes, failures, again = replay_log(names, lines, None, late)
    n += len(again)
    if again != calls:
      return "", "the replay called %r instead of %r" % (again, calls), n
    if (passes, failures) != (results, 0):
      return "", "%d passes and %d failures for the implementation which was recorded, with %d results" % (passes, failures, results), n
  at = 0
  for i, l in enumerate(lines):
    if l.startswith("CALL"):
      at += 1
      after = [x for x in lines[i + 1:i + 3]]
      hows = []
      k = next((j for j in range(i + 1, len(lines)) if lines[j].startswith(("CALL", "RESTART"))), len(lines))
      block = lines[i + 1:k]
      if any(x.startswith("RESULT") for x in block):
        hows += ["value"] + ([] if any("is exception" in x for x in block) else ["raise", "none"])
      if any(x.startswith("OBSERVED") for x in block):
        hows += ["silent", "event"]
      for how in hows:
        passes, failures, again = replay_log(names, lines, (at, how))
        n += len(again)
        if failures == 0:
          return "", "no failure for an implementation which deviates (%s) in call %d, %s" % (how, at, l), n
  return "%d results, %d calls" % (results, len(calls)), None, n


def subtree(c):
  "all choices which deviate from c in up to bound further places"
  names, depth, first, start, bound = c
  n = 0
  outs = set()
  stack = [(dict(first), start, bound)]
  while stack:
    choices, st, left = stack.pop()
    Env.reset()
    with explore.watch():
      err, decisions, lines, calls = explore_model(names, depth, choices)
    n += 1
    outs.add(tuple(calls))
    if err:
      return "", "choices %r: %s" % (sorted(choices.items()), err), n
    if left:
      for pos in range(st, len(decisions)):
        for k in range(1, decisions[pos]):
          d = dict(choices)
          d[pos] = k
          stack.append((d, pos + 1, left - 1))
  return "%s" % (names,), None, n


def models(n):
  for k in range(1, n + 1):
    for names in itertools.combinations(sorted(ACTIONS), k):
      yield names


def sizes(names, depth):
  return len(Ref(names, depth).leaves())


def cases(thorough):
  for names in models(3 if thorough else 2):
    for depth in (1, 2, 3):
      s = sizes(names, depth)
      if s > 60:
        continue
      yield names, depth, (), "steps"
      yield names, depth, (), "bare"
      yield names, depth, (), "replay"
    # ends by itself
    if finite(names):
      yield names, 8, (), "run"


def finite(names):
  "no path is longer than 6 calls"
  r = Ref(names, 8)
  stack = [()]
  n = 0
  while stack:
    p = stack.pop()
    n += 1
    if len(p) > 6 or n > 2000:
      return False
    stack += [p + (a,) for a in r.arcs(p)]
  return True


def subtrees(thorough):
  for names in models(3 if thorough else 2):
    for depth in (2, 3):
      s = sizes(names, depth)
      if s <= (12 if len(names) < 3 else 8):
        yield names, depth, (), 0, (3 if s <= 6 else 2) if thorough and len(names) < 3 else 2 if s <= 8 and len(names) < 3 else 1


PARTS = {"models": (case, cases), "choices": (subtree, subtrees)}


def run(ctx):
  for part, (fn, gen) in PARTS.items():
    enumr.enumerate_all(ctx, part, gen(not ctx.quick), fn, chunk=2)
    if ctx.violations:
      return


def replay(what):
  outcome, err, n = PARTS[what["part"]][0](what["case"])
  print("REPRODUCED: %s" % err if err else "not reproduced")
  return 1 if err else 0
