"""Runner:  check.py <property id> [--tier quick|thorough]   |   check.py --replay <file>"""
import sys, os, json, time, importlib, ast, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
if os.environ.get("PYTHONHASHSEED") is None:
  os.environ["PYTHONHASHSEED"] = str(int(os.environ.get("VERIF_SEED", "1") or 1) % 4294967295)
  os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
  os.execv(sys.executable, [sys.executable] + sys.argv)

from mc import env, explore
from mc.refbroker import Mismatch

REPLAYS = os.environ.get("VERIF_REPLAYS", os.path.join(HERE, "evidence", "replays"))


class Ctx:
  def __init__(self, pid, tier):
    self.pid, self.tier = pid, tier
    self.quick = tier == "quick"
    self.t0 = env.REAL["monotonic"]()
    self.deadline = self.t0 + float(os.environ.get("VERIF_BUDGET", "600" if self.quick else "6000"))
    self.states = self.transitions = self.executions = 0
    self.exhaustive = True
    self.samples = []
    self.outcomes = {}
    self.notes = []
    self.violations = []
    self.assumptions = []
    self.known = load_known(pid)
    self.parts = []

  # -- scenario exploration
  def explore(self, scenarios):
    for sc in scenarios:
      r = explore.run_scenario(sc, self.deadline)
      self.states += r.states
      self.transitions += r.transitions
      self.executions += r.executions
      self.exhaustive = self.exhaustive and (r.exhaustive or bool(r.violations))
      for k, v in r.outcomes.items():
        self.outcomes[k] = self.outcomes.get(k, 0) + v
      self.samples += [dict(x, scenario=sc.name) for x in r.samples[:3]]
      self.parts.append({"scenario": sc.name, "depth": r.depth, "states": r.states, "transitions": r.transitions,
                         "outcomes": len(r.outcomes), "exhaustive_to_depth": r.exhaustive})
      for h, err in r.violations[:1]:
        self.violation({"scenario": sc.name, "prefix": list(sc.prefix), "history": list(h)}, err)

  def scenarios(self, mod):
    "the scenarios of a property and their variants"
    res = mod.scenarios(self)
    return list(res) + [v for sc in res for v in getattr(sc, "variants", ())]

  # -- plain enumeration
  def count(self, part, states, transitions, executions, outcomes=None, samples=(), exhaustive=True):
    self.states += states
    self.transitions += transitions
    self.executions += executions
    self.exhaustive = self.exhaustive and exhaustive
    for k, v in (outcomes or {}).items():
      self.outcomes[k] = self.outcomes.get(k, 0) + v
    self.samples += list(samples)[:4]
    self.parts.append({"part": part, "states": states, "transitions": transitions, "executions": executions,
                       "outcomes": len(outcomes or {}), "exhaustive": exhaustive})
    print("  %-34s states %d  transitions %d  executions %d  outcomes %d" %
          (part, states, transitions, executions, len(outcomes or {})))
    sys.stdout.flush()

  def violation(self, what, err):
    sig = repr(what)
    for k in self.known:
      if k.get("match") == sig:
        print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        return
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%d.txt" % (self.pid, len(self.violations)))
    with open(path, "w") as f:
      f.write(repr({"property": self.pid, "tier": self.tier, "what": what, "error": err}) + "\n")
    print("  violated: %s" % err)
    print("  by: %s" % (sig[:1500]))
    print("VIOLATION property=%s replay=%s" % (self.pid, path))
    sys.stdout.flush()
    self.violations.append({"replay": path, "error": err[:2000], "what": sig[:4000]})

  def finish(self, mod):
    ev = {
      "property": self.pid, "tier": self.tier, "seed": env.SEED, "level": "model_checking",
      "coverage": {
        "states": self.states, "transitions": self.transitions,
        "traces_validated_against_impl": self.executions,
        "exhaustive": self.exhaustive and not self.violations,
        "samples": self.samples[:16] or ["none"],
        "bounds": getattr(mod, "BOUNDS", {}).get(self.tier, getattr(mod, "BOUNDS", {})) if hasattr(mod, "BOUNDS") else {},
        "distinct_outcomes": len(self.outcomes), "parts": self.parts},
      "wall_s": round(env.REAL["monotonic"]() - self.t0, 2),
      "assumptions": getattr(mod, "ASSUMPTIONS", []) + self.assumptions,
      "violations": self.violations}
    d = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, self.pid + ".json"), "w") as f:
      json.dump(ev, f, indent=1, default=repr)
    print("%s %s: states %d, transitions %d, executions %d, outcomes %d, %s, %.1fs" %
          (self.pid, self.tier, self.states, self.transitions, self.executions, len(self.outcomes),
           "VIOLATED" if self.violations else "held", ev["wall_s"]))
    return 1 if self.violations else 0


def load_known(pid):
  path = os.path.join(HERE, "known_findings.txt")
  res = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith("{"):
        k = ast.literal_eval(line)
        if k["property"] == pid:
          res.append(k)
  return res


def replay(path):
  rec = ast.literal_eval(open(path).read())
  mod = importlib.import_module("mc.props." + rec["property"])
  print("property %s (%s): %s" % (rec["property"], rec["tier"], rec["error"][:500]))
  what = rec["what"]
  if "history" in what:
    ctx = Ctx(rec["property"], rec["tier"])
    sc = [s for s in ctx.scenarios(mod) if s.name == what["scenario"]][0]
    try:
      s = sc.make()
      for op in list(sc.prefix) + list(what["history"]):
        print("  do", op)
        s.do(op)
        print("     ", getattr(s, "outcome", ""))
    except Mismatch as e:
      print("REPRODUCED: %s" % e)
      return 1
    except Exception as e:
      print("REPRODUCED: exception %r" % e)
      return 1
    print("not reproduced")
    return 0
  return mod.replay(what)


def main():
  if sys.argv[1] == "--replay":
    return replay(sys.argv[2])
  pid = sys.argv[1]
  tier = os.environ.get("VERIF_TIER", "quick")
  if "--tier" in sys.argv:
    tier = sys.argv[sys.argv.index("--tier") + 1]
  mod = importlib.import_module("mc.props." + pid)
  ctx = Ctx(pid, tier)
  if hasattr(mod, "scenarios"):
    ctx.explore(ctx.scenarios(mod))
  if hasattr(mod, "run"):
    mod.run(ctx)
  return ctx.finish(mod)


if __name__ == "__main__":
  cwd = tempfile.mkdtemp(prefix="vmc.")
  os.chdir(cwd)
  try:
    rc = main()
  finally:
    env.Env.active = False
    os.chdir("/")
    shutil.rmtree(cwd, ignore_errors=True)
  sys.stdout.flush()
  os._exit(rc)
