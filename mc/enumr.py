"""Exhaustive enumeration of a finite set of cases on all cores."""
from . import env, explore, pool as pools

_FN = None


def _run(chunk):
  res = []
  for x in chunk:
    hangs = False
    try:
      with explore.watch():
        outcome, err, n = _FN(x)
    except explore.Hangs as e:
      outcome, err, n, hangs = "", str(e), 1, True
    except env.StopLoop:
      outcome, err, n = "", "service loop did not end", 1
    except Exception:
      outcome, err, n = "", "exception: " + explore.traceback_text(), 1
    env.Env.active = False
    res.append((x, outcome, err, n))
    if hangs:
      break
  return res


def enumerate_all(ctx, part, items, fn, what=lambda x: x, max_viol=1, chunk=64, stop_at=None):
  """fn(case) -> (outcome class, error or None, transitions).  Reports through ctx."""
  global _FN
  _FN = fn
  it = iter(items)

  def chunks():
    buf = []
    for x in it:
      buf.append(x)
      if len(buf) == chunk:
        yield buf
        buf = []
    if buf:
      yield buf
  states = trans = 0
  outcomes = {}
  samples = []
  exhaustive = True
  viol = 0
  pool = pools.Pool(explore.WORKERS) if explore.WORKERS > 1 else None
  try:
    for batch in (pool.imap(_run, chunks()) if pool else map(_run, chunks())):
      for x, outcome, err, n in batch:
        states += 1
        trans += n
        outcomes[outcome] = outcomes.get(outcome, 0) + 1
        if outcomes[outcome] == 1 and len(samples) < 4:
          samples.append({"part": part, "case": repr(what(x))[:300], "observed": outcome})
        if err is not None:
          viol += 1
          if viol <= max_viol:
            ctx.violation({"part": part, "case": what(x)}, err)
      if viol >= max_viol and viol:
        exhaustive = False
        break
      if explore.now() > ctx.deadline:
        exhaustive = False
        break
  except pools.Died as e:
    viol += 1
    ctx.violation({"part": part, "case": None}, str(e))
  finally:
    if pool:
      pool.end()
  ctx.count(part, states, trans, trans, outcomes, samples, exhaustive)
  return viol == 0


def _call(x):
  try:
    return _FN(x), None
  except BaseException:
    return None, explore.traceback_text()
  finally:
    env.Env.active = False


def parallel(fn, items):
  "[(result, error text or None)] of fn(item), computed on all cores"
  global _FN
  _FN = fn
  items = list(items)
  if explore.WORKERS <= 1:
    return [_call(x) for x in items]
  pool = pools.Pool(explore.WORKERS)
  try:
    return list(pool.imap(_call, items))
  finally:
    pool.end()
