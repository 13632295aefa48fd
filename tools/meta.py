#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from one table."""
import json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "interoperability/mqtt/brokers/"
F = "interoperability/mqtt/formats/"
C = "interoperability/mqtt/clients/"
WHY = {
  "hist": "The suite plays a handful of fixed client scripts against one running broker; the guarantee is over every order of packets, connection losses and waits.",
  "inp": "The suite encodes and parses a few sample packets; the guarantee is over every packet.",
  "sched": "The suite runs with whatever timing the machine happens to give; the guarantee is over every interleaving.",
}
P = []

def prop(id, title, statement, over, text, why, files, mech, design, observe=None, state=None, technique=None, note=None):
  P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=WHY.get(why, why), files=files,
                mech=[dict(name=a, where=b) for a, b in mech], design=design, observe=observe or ["packets exchanged with clients"],
                state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                technique=technique or "explicit-state exploration of the real broker in lock step with a reference model",
                note=note or "Every operation sequence of the stated alphabet up to the stated depth is executed on the real broker objects and compared with the model after every step; sequences are merged only when all implementation and model state is equal. Trusts the reference model and the wire codec of the framework."))

exec(open(os.path.join(HERE, "tools", "properties.py")).read())

def main():
  have = [p for p in P if os.path.exists(os.path.join(HERE, "mc", "props", p["id"] + ".py"))]
  with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in have:
      assert len(p["title"]) <= 80, p["id"]
      f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "state": p["state"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
  py = "/opt/venv/bin/python mc/check.py "
  m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q mc || true",
       "checks": [{"property": p["id"], "quick_cmd": py + p["id"] + " --tier quick", "thorough_cmd": py + p["id"] + " --tier thorough",
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in have],
       "not_applicable": [], "notes": "No hooks in /repo are needed: clocks, randomness, threads and sockets are replaced from outside (mc/env.py, mc/world.py)."}
  json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
  d = open(os.path.join(HERE, "DESIGN.md")).read()
  a, b = "<!-- properties: generated by tools/meta.py -->", "<!-- end of generated part -->"
  body = "".join("\n### %s %s\n\n%s\n\n*Statement.* %s\n\n*How.* %s\n\n*Bounds.* %s\n" % (p["id"], p["title"], "", p["statement"], p["design"], bounds(p["id"])) for p in have)
  body = body.replace("\n\n\n\n", "\n\n")
  d = d[:d.index(a) + len(a)] + "\n" + body + "\n" + d[d.index(b):]
  open(os.path.join(HERE, "DESIGN.md"), "w").write(d)
  print(len(have), "properties")

def bounds(id):
  src = open(os.path.join(HERE, "mc", "props", id + ".py")).read()
  m = re.search(r"^BOUNDS = (\{.*?\})\n", src, re.S | re.M)
  if not m:
    return "as " + {"C02": "C01"}.get(id, "stated above") + "."
  b = eval(m.group(1))
  return "quick: %s. Thorough: %s." % (b["quick"], b["thorough"])

main()
