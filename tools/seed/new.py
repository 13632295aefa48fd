# new.py ID PROPERTY < spec : spec is python defining FILE, OLD, NEW (or EDITS), DEMO, NEEDS, BREAKS
import sys, os, subprocess, json, shutil, tempfile
ns = {}; exec(sys.stdin.read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
edits = ns.get("EDITS") or [(ns["FILE"], ns["OLD"], ns["NEW"])]
t = tempfile.mkdtemp(dir="/tmp")
subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
for f, o, n in edits:
  p = t + "/r/interoperability/mqtt/" + f
  s = open(p, newline="").read()
  assert s.count(o) == 1, (f, s.count(o), o)
  open(p, "w", newline="").write(s.replace(o, n))
diff = subprocess.check_output(["git", "-C", t + "/r", "diff"])
open(d + "/patch.diff", "wb").write(diff)
# lines changed that are original
for f, o, n in edits: pass
shutil.rmtree(t)
here = os.path.dirname(os.path.abspath(__file__))
shutil.copy(here + "/kit.py", d); shutil.copy(here + "/demo.sh", d)
open(d + "/demo.py", "w").write("from kit import *\n" + ns["DEMO"].strip() + "\ndone()\n")
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
