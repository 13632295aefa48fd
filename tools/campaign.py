"""campaign.py OUT FILE CHECKS...: runs the checks against every mutant of FILE (relative to interoperability/mqtt) until one
detects it; writes the survivors to OUT.  Environment: JOBS (parallel mutants), SRC (repository), plus that of the checks."""
import os, sys, subprocess, shutil, concurrent.futures as cf, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate, condmut
COND = os.environ.get('COND')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, path, checks = sys.argv[1], sys.argv[2], sys.argv[3:]
SRC = os.environ.get("SRC", "/repo")
JOBS = int(os.environ.get("JOBS", "8"))
text = open(os.path.join(SRC, "interoperability/mqtt", path)).read()
done = {}
if os.path.exists(out):
  for l in open(out):
    done[int(l.split("\t")[0])] = l
free = []
lock = threading.Lock()
base = "/tmp/campaign.%d" % os.getpid()
for j in range(JOBS):
  d = "%s/%d" % (base, j)
  shutil.copytree(SRC, d, ignore=shutil.ignore_patterns(".git"))
  free.append(d)


def run(m):
  k, ln, what, new = m[:4]
  with lock:
    d = free.pop()
  try:
    with open(os.path.join(d, "interoperability/mqtt", path), "w") as f:
      f.write(new)
    t0 = time.time()
    res = "SURVIVED"
    for c in condmut.CHECKS.get(m[4], ' '.join(checks)).split() if COND else checks:
      try:
        r = subprocess.run(["nice", "-n", "19", sys.executable, HERE + "/mc/check.py", c], capture_output=True, text=True, timeout=900,
                           env=dict({"VERIF_WORKERS": "1", "VERIF_DEPTH": "0" if COND else "-1", "VERIF_HANG": "40"}, **dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_REPLAYS=d + "/rep")))
        rc = r.returncode
      except subprocess.TimeoutExpired:
        rc = "timeout"
      if rc != 0:
        res = "%s rc %s" % (c, rc)
        break
    return k, ln, what, res, time.time() - t0
  finally:
    with lock:
      free.append(d)


t0 = time.time()
n = s = 0
step = int(os.environ.get("STEP", "1"))
todo = [m for m in (condmut if COND else mutate).mutants(text) if m[0] not in done and m[0] % step == 0]
with cf.ThreadPoolExecutor(JOBS) as ex, open(out, "a") as f:
  for k, ln, what, res, t in ex.map(run, todo):
    n += 1
    s += res == "SURVIVED"
    f.write("%d\t%d\t%s\t%s\t%.0f\n" % (k, ln, res, what.replace("\n", " ")[:150], t))
    f.flush()
print(path, "mutants", n, "survivors", s, "%.0f s" % (time.time() - t0))
shutil.rmtree(base)
