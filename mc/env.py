"""Everything nondeterministic around the code under test is owned here.

Importing this module (once per process, before any mqtt module) redirects the clock, sleeping, the random
choices, uuids and thread starts of the code in /repo to values chosen by the explorer, and puts
/repo/interoperability on sys.path.  Outside of ``Env.active`` the originals are used, so that
the multiprocessing machinery of the explorer itself is untouched.
"""
import os, sys, time, random, threading, logging, traceback, uuid, tempfile, io, select

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, "interoperability"))

REAL = {"monotonic": time.monotonic, "time": time.time, "sleep": time.sleep,
        "process_time": time.process_time, "choice": random.choice, "randrange": random.randrange,
        "randint": random.randint, "shuffle": random.shuffle, "sample": random.sample, "random": random.random,
        "uuid4": uuid.uuid4, "tstart": threading.Thread.start, "select": select.select,
        "RLock": threading.RLock, "Lock": threading.Lock}

BASE = 1000000.0     # virtual time origin


class StopLoop(BaseException):
  "raised out of a virtual sleep to end an endless service loop after one iteration"


class Env:
  active = False
  now = BASE
  choices = []       # indexes to use for the next random choices
  choice_log = []    # (number of alternatives) of every choice made
  uuids = 0
  threads = []       # thread objects whose start() was requested
  sleeps_allowed = 0
  on_sleep = None    # optional callback(seconds)
  on_select = None   # optional callback(rlist, wlist, xlist, timeout)
  on_lock = None     # optional factory of the locks which the code under test creates

  @classmethod
  def reset(cls):
    cls.now = BASE
    cls.choices = []
    cls.choice_log = []
    cls.uuids = 0
    cls.threads = []
    cls.sleeps_allowed = 0
    cls.on_sleep = None
    cls.on_select = None
    cls.on_lock = None
    cls.active = True


def _monotonic():
  return Env.now if Env.active else REAL["monotonic"]()

def _time():
  return Env.now if Env.active else REAL["time"]()

def _process_time():
  return 0.0 if Env.active else REAL["process_time"]()

def _sleep(s):
  if not Env.active:
    return REAL["sleep"](s)
  if Env.on_sleep is not None:
    return Env.on_sleep(s)
  if Env.sleeps_allowed <= 0:
    raise StopLoop()
  Env.sleeps_allowed -= 1

def pick(n):
  "own one nondeterministic choice among n alternatives"
  k = Env.choices.pop(0) if Env.choices else 0
  Env.choice_log.append(n)
  return k % n

def _choice(seq):
  if not Env.active:
    return REAL["choice"](seq)
  from . import canon
  seq = list(seq)
  order = sorted(range(len(seq)), key=lambda i: canon.text(seq[i]))
  return seq[order[pick(len(seq))]]

def _randrange(start, stop=None, step=1):
  if not Env.active:
    return REAL["randrange"](start, stop, step) if stop is not None else REAL["randrange"](start)
  r = range(start) if stop is None else range(start, stop, step)
  return r[pick(len(r))]

def _randint(a, b):
  return _randrange(a, b + 1) if Env.active else REAL["randint"](a, b)

def _random():
  return pick(4) / 4.0 if Env.active else REAL["random"]()

def _shuffle(x, *a):
  if not Env.active:
    return REAL["shuffle"](x, *a)
  for i in range(len(x) - 1, 0, -1):
    j = pick(i + 1)
    x[i], x[j] = x[j], x[i]

def _sample(population, k, **kw):
  if not Env.active:
    return REAL["sample"](population, k, **kw)
  pop = list(population)
  return [pop.pop(pick(len(pop))) for _ in range(k)]

def _select(r, w, x, timeout=None):
  if not Env.active or Env.on_select is None:
    return REAL["select"](r, w, x, timeout)
  return Env.on_select(r, w, x, timeout)

def _lock(kind):
  def make():
    if Env.active and Env.on_lock is not None and sys._getframe(1).f_code.co_filename.startswith(REPO):
      return Env.on_lock(kind)
    return REAL[kind]()
  return make

def _uuid4():
  if not Env.active:
    return REAL["uuid4"]()
  Env.uuids += 1
  return uuid.UUID(int=Env.uuids)

def _tstart(self):
  if not Env.active:
    return REAL["tstart"](self)
  Env.threads.append(self)


time.monotonic, time.time, time.sleep, time.process_time = _monotonic, _time, _sleep, _process_time
random.choice, random.randrange, random.randint, random.random = _choice, _randrange, _randint, _random
random.shuffle, random.sample = _shuffle, _sample
uuid.uuid4 = _uuid4
select.select = _select
threading.Thread.start = _tstart
threading.RLock, threading.Lock = _lock("RLock"), _lock("Lock")

logging.disable(logging.CRITICAL)
traceback.print_exc = lambda *a, **k: None

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
