"""Worker processes.  Ordered results, no threads and no shared locks: ending it cannot hang, and the death of a worker
is noticed (multiprocessing.Pool.terminate can wait for ever for a lock held by a worker which it has killed)."""
import os, signal, multiprocessing.connection as mpc
from multiprocessing import Pipe


class Died(Exception):
  pass


class Pool:
  def __init__(self, n):
    self.workers = []     # [pid, connection, number of the task in work]
    for _ in range(n):
      here, there = Pipe()
      pid = os.fork()
      if pid == 0:
        try:
          here.close()
          for w in self.workers:
            w[1].close()
          self.work(there)
        finally:
          os._exit(0)
      there.close()
      self.workers.append([pid, here, None])

  def work(self, conn):
    import traceback
    while True:
      try:
        fn, x = conn.recv()
      except EOFError:
        return
      try:
        r = (True, fn(x))
      except BaseException as e:
        r = (False, "".join(traceback.format_exception(e))[-1500:])
      conn.send(r)

  def imap(self, fn, items, ahead=4):
    "results in the order of the items; the items are drawn as needed"
    it = enumerate(items)
    done = {}
    nextout = 0
    ended = False
    while True:
      for w in self.workers:
        if w[2] is None and not ended and len(done) < ahead * len(self.workers) + len(self.workers):
          try:
            k, x = next(it)
          except StopIteration:
            ended = True
            break
          try:
            w[1].send((fn, x))
          except OSError:
            raise Died("a worker process died")
          w[2] = k
      while nextout in done:
        ok, r = done.pop(nextout)
        nextout += 1
        if not ok:
          raise RuntimeError("in a worker: " + r)
        yield r
      busy = [w for w in self.workers if w[2] is not None]
      if not busy:
        if ended and not done:
          return
        continue
      for c in mpc.wait([w[1] for w in busy]):
        w = [w for w in busy if w[1] is c][0]
        try:
          done[w[2]] = c.recv()
        except (EOFError, OSError):
          raise Died("a worker process died")
        w[2] = None

  def end(self):
    for w in self.workers:
      try:
        os.kill(w[0], signal.SIGKILL)
      except OSError:
        pass
      w[1].close()
    for w in self.workers:
      try:
        os.waitpid(w[0], 0)
      except OSError:
        pass
    self.workers = []
